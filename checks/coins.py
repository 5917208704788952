"""C31: rounds of coin tosses.

The tosser is the one the library itself builds for a model of F features and specificity s (initialize_state / reset_state_cache
interpreted from the source).  Two obligations on it, interpreted with symbolic draws:
 * the number of hits of a round, for draws on either side of the fraction of F / s: floor or floor + 1 accordingly;
 * a whole round, for every sequence of residues the position draws can have (repetitions included, until every position has been
   drawn): F tosses, as many ones as hits, the round ends, nothing left of earlier rounds, and both rounds of an update independent.
"""
import math
import ai, vt, model, scen, kern, behave, initial, votes, solve
from ai import Cell, Vec, Ptr, Sym, Obj, Lin, atom

S = [1.0, 1.25, 1.5, 2.0, 3.0, 3.9, 7.0, 10.0, 27.0, 100.0, 1000.0]
SIZES = [1, 2, 3, 4, 5, 7, 8, 63, 64, 65, 100, 784]
BIG = [2**24 - 1, 2**24, 2**24 + 1, 2**24 + 3, 2**26 + 1]
TOSSER = 'CoinTosserExact'


class Endless(Exception):
    pass


class Cut(Exception):
    pass


def members(name):
    P = model.prog()
    r, seen = [], set()
    for k in P.find('Tsetlini::%s::%s' % (TOSSER, name)):
        f = k[0].fns[k[1]]
        key = f['q'] + str([k[0].types[x] for x in f['pt']])
        if k[1] in k[0].bodies and key not in seen and len(f['pt']) == 1:
            seen.add(key)
            r.append(k)
    if not r:
        raise vt.Broken('anchor %s::%s' % (TOSSER, name))
    return r


def ctors():
    P = model.prog()
    r, seen = [], set()
    for k in P.find('Tsetlini::%s::%s' % (TOSSER, TOSSER)):
        f = k[0].fns[k[1]]
        if k[1] in k[0].bodies and len(f['pt']) == 2 and f['q'] not in seen:
            seen.add(f['q'])
            r.append(k)
    if not r:
        raise vt.Broken('anchor constructor of %s' % TOSSER)
    return r


def tosser(path, est, route, s, F):
    """the coin tosser of a model, as the library makes it"""
    path.auto = True
    try:
        e = scen.unfitted(path, est, {'s': s})
    finally:
        path.auto = False
        path.memo.clear()
        path.events.clear()
    mp = scen.state(e).f['m_params'].get()
    mp.d['number_of_features'] = Cell(ai.Var('int', F))
    if scen.is_clf(est):
        mp.d['number_of_labels'] = Cell(ai.Var('int', 2))
    hk = {'BasePRNG::rand': lambda I, f, this, a: 5, 'BasePRNG::init': lambda I, f, this, a: None}
    I = initial.Init(model.prog(), path, dict(model.BASE, **hk))
    for name in ('Tsetlini::initialize_state', 'Tsetlini::reset_state_cache')[:1 if route == 'fit' else 2]:
        tu, i = scen.fn_for(name, scen.EST[est][1])
        o = model.guarded(lambda: I.call(tu, i, None, [scen.state_cell(e)]))
        b = behave.outcome_bad(o, path)
        if b:
            return None, b
        if name.endswith('initialize_state') and route != 'fit':
            # what the cache held before does not matter
            for c in scen.state(e).f['cache'].get().f.values():
                if isinstance(c.get(), Obj) and TOSSER in c.get().cls:
                    for x in c.get().f.values():
                        v = x.get()
                        if isinstance(v, Vec):
                            v.size, v.cells = v.size + 1, None
                            v.content = Sym('stale')
                        elif isinstance(v, (int, float)):
                            x.set(v * 2 + 1)
    c = scen.state(e).f['cache'].get().f
    ct = [x for x in c.values() if isinstance(x.get(), Obj) and TOSSER in x.get().cls]
    if len(ct) != 1:
        return None, ('und', 'no coin tosser in the cache')
    return ct[0], None


def direct(path, s, F):
    tu, i = ctors()[0]
    I = initial.Init(model.prog(), path, dict(model.BASE))
    this = Cell(I.default_obj('Tsetlini::' + TOSSER, False)) if False else Cell(Obj('Tsetlini::' + TOSSER, {}))
    o = model.guarded(lambda: I.call(tu, i, this, [Cell(model.f32(1.0 / s)), Cell(F)]))
    b = behave.outcome_bad(o, path)
    return (None, b) if b else (this, None)


def gen():
    return Obj('basic_IRNG<>', {'index': Cell(0)})


def call(path, key, ct, hk):
    I = initial.Init(model.prog(), path, dict(model.BASE, **hk))
    o = model.guarded(lambda: I.call(key[0], key[1], ct, [Cell(gen())]))
    o.interp = I
    return o


# ------------------------------------------------------------------ number of hits
def hits_scen(path, it, ct):
    _, est, route, s, F, side = it
    ct = Cell(ai.clone(ct.get()))
    E = F / model.f32(s)
    eps = max(1e-7, F * 2.0**-21)
    # the hits admitted: the two neighbours, and the ones rounding of F / s may give
    lo_h, hi_h = max(0, math.floor(E - eps)), min(F, math.floor(E + eps) + 1)
    fl, fr = math.floor(E), E - math.floor(E)
    lo, hi = 0, 2**32 - 1
    want = None
    if side == 'below':
        if fr < 3 * eps or fr > 1 - 2 * eps:
            return []
        hi, want = int((fr - 2 * eps) * 2**32), fl + 1
    elif side == 'above':
        if fr > 1 - 3 * eps or fr < 2 * eps and E != model.f32(F * model.f32(1.0 / s)):
            return []
        lo, want = min(2**32 - 1, int((fr + 2 * eps) * 2**32)), fl
    d = atom('u')
    path.iv[d] = (lo, hi)
    o = call(path, members('estimate_hits')[0], ct, {'BasePRNG::rand': lambda I, f, this, a: d})
    b = behave.outcome_bad(o, path)
    if b:
        return [b]
    h = o.v
    if isinstance(h, Cell): h = h.get()
    if not isinstance(h, (bool, int)) and path.ival(h)[0] == path.ival(h)[1]:
        h = int(path.ival(h)[0])
    if isinstance(h, (Sym, Lin)):
        lo, hi = path.ival(h)
        if lo_h <= lo and hi <= hi_h and side == 'any':
            return [('ok', '')]
        A = solve.witness(path, lambda A: not lo_h <= solve.ev(h, A) <= hi_h, (h,))
        if A:
            return [('bad', '%d hits of %d features with s = %g, expected %d or %d' % (solve.ev(h, A), F, s, fl, fl + 1))]
    h = int(h) if isinstance(h, bool) else h
    if not isinstance(h, int):
        return [('und', 'the number of hits is %s' % ai.show(ai.term(h)))]
    if h > F:
        return [('bad', '%d hits of %d features are asked for: the round cannot end' % (h, F))]
    if want is not None and h != want:
        return [('bad', '%d hits of %d features with s = %g instead of %d, for draws %s the fraction %.4f of the range' % (h, F, s, want, side, fr))]
    if not lo_h <= h <= hi_h:
        return [('bad', '%d hits of %d features with s = %g, expected %d or %d' % (h, F, s, fl, fl + 1))]
    return [('ok', '')]


# ------------------------------------------------------------------ a whole round
def pick(path, n):
    for i in range(n - 1):
        if path.choose('draw'):
            return i
    return n - 1


def source(path, F, seq=None):
    """draws whose residues modulo F run through all sequences (or follow seq)"""
    st = {'n': 0, 'seen': set(), 'extra': 0}

    def rand(I, f, this, args):
        n = st['n']
        st['n'] += 1
        if n == 0:
            r = 0
        else:
            if len(st['seen']) == F:
                raise Endless()
            if seq is not None:
                r = seq[(n - 1) % len(seq)]
            else:
                r = pick(path, F)
                if r in st['seen']:
                    st['extra'] += 1
                    if st['extra'] > 2:
                        raise Cut()
            st['seen'].add(r)
        q = atom('q%d_%d' % (st.setdefault('round', 0), n))
        path.iv[q] = (0, (2**32 - 1 - r) // F)
        return ai.unlin(Lin(r, {q: F}))
    return {'BasePRNG::rand': rand}, st


def tosses(I, p, F):
    try:
        return [I.at(p.vec, ai.add(p.pos, k)).get() if p.vec is not None else None for k in range(F)]
    except (ai.Imprecise, IndexError):
        return None


def judge(path, o, F, s, st, what):
    b = behave.outcome_bad(o, path)
    if b:
        return b, None
    p = o.v
    if not isinstance(p, Ptr) or p.vec is None:
        return ('und', 'tosses are %r' % (p,)), None
    if isinstance(p.vec.size, int) and p.vec.size < F:
        return ('bad', '%s: %s tosses are handed out for %d features' % (what, p.vec.size, F)), None
    v = tosses(o.interp, p, F)
    if v is None or not all(isinstance(x, int) for x in v):
        return ('und', '%s: tosses are not decided' % what), None
    if set(v) - {0, 1}:
        return ('bad', '%s: tosses %s' % (what, v)), None
    E = F / model.f32(s)
    want = (math.floor(E + 1e-6), math.floor(E + 1e-6) + (0 if abs(E - round(E)) < 1e-6 else 1))
    if sum(v) not in want:
        return ('bad', '%s: %d tosses of %d are hits, expected %s (s = %g); positions drawn %s' % (what, sum(v), F, ' or '.join(map(str, sorted(set(want)))), s, sorted(st['seen']))), None
    return ('ok', ''), v


def round_scen(path, it, ct):
    _, est, route, s, F, which, seq = it
    path.native = True
    ct = Cell(ai.clone(ct.get()))
    res = []
    keep = []
    try:
        for n, w in enumerate(which):
            hk, st = source(path, F, seq)
            st['round'] = n
            o = call(path, members(w)[0], ct, hk)
            r, v = judge(path, o, F, s, st, w if len(which) == 1 else '%s (call %d of %s)' % (w, n + 1, ', '.join(which)))
            res.append(r)
            if v is None:
                return res
            if len(which) == 1:
                path.log = tuple(v)
            for (w2, p2, v2) in keep:
                if w2 != w:
                    now = tosses(o.interp, p2, F)
                    res.append(('ok' if now == v2 else 'bad', 'the tosses of %s change from %s to %s when %s is called' % (w2, v2, now, w)))
            keep = [k for k in keep if k[0] != w] + [(w, o.v, v)]
    except Endless:
        return [('bad', '%s: the round goes on drawing after every position has been drawn (%d features, s = %g)' % (', '.join(which), F, s))]
    except Cut:
        return []
    return res


def items(tier):
    out = []
    full = tier == 'thorough'
    ests = list(scen.EST)
    for k, est in enumerate(ests):
        for route in ('fit', 'load'):
            for s in S if full else S[k::4]:
                for F in SIZES if full else [3, 65]:
                    for side in ('below', 'above', 'any'):
                        out.append(('hits', est, route, s, F, side))
    for s in S:
        for F in SIZES + BIG:
            for side in ('below', 'above', 'any'):
                out.append(('hits', None, 'made directly', s, F, side))
    for k, est in enumerate(ests):
        for s, F in [(1.0, 1), (2.0, 1), (1.0, 2), (1.5, 2), (2.0, 2), (10.0, 2), (1.0, 3), (1.5, 3), (2.0, 3), (3.0, 3), (10.0, 3), (4.0, 4), (2.0, 4)] + ([(1.0, 4), (1.5, 4), (5.0, 5), (2.5, 5)] if full else []):
            if not full and F > 2 and (F + int(2 * s)) % 4 != k:
                continue
            for w in ('tosses1', 'tosses2'):
                out.append(('round', est, ('fit', 'load')[k % 2], s, F, (w,), None))
            for seq in (list(range(F)), list(range(F))[::-1], [0, 0] + list(range(F))):
                for w in (('tosses1', 'tosses2', 'tosses1', 'tosses2'), ('tosses2', 'tosses1', 'tosses2')):
                    out.append(('round', est, ('load', 'fit')[k % 2], s, F, w, seq))
    return out


def label(it):
    return '%s, %d features, s = %g, %s' % (it[1] or 'coin tosser', it[4], it[3], 'draw ' + it[5] if it[0] == 'hits' else 'rounds ' + ', '.join(it[5]))


def item(it):
    out = {'n': 0, 'viol': [], 'und': [], 'ones': set(), 'it': None}
    fn = members('estimate_hits' if it[0] == 'hits' else it[5][0])[0]
    where = '%s; %s' % (model.where(*fn), label(it))

    def make(path):
        return tosser(path, it[1], it[2], it[3], it[4]) if it[1] else direct(path, it[3], it[4])
    ct = None
    for p, (c, b) in ai.explore(make, 3):
        if b or ct is not None:
            out['und'].append('%s: the tosser of a model: %s' % (where, b or 'several'))
            return out
        ct = c

    def go(path):
        path.log = None
        if len(out['viol']) > 2 or len(out['und']) > 2:
            return []
        r = (hits_scen if it[0] == 'hits' else round_scen)(path, it, ct)
        if path.log:
            out['ones'].add(path.log)
        return r
    votes.collect(out, where, go, 'coin tosses', 3000 if it[0] == 'hits' else 400)
    if it[0] == 'round' and it[6] is None and not out['und'] and not out['viol']:
        F, s = it[4], it[3]
        out['n'] += 1
        miss = [k for k in range(F) if not any(v[k] for v in out['ones'])]
        if miss and F / s > 1e-3:
            out['viol'].append({'where': where, 'rule': 'coin tosses', 'msg': 'position %s is never a hit, whatever is drawn' % miss})
    return out


def run(prop, tier):
    its = items(tier)
    model.ITEM_LIMIT = 15
    rs = model.parallel(its, item)
    viol, und, n = [], [], 0
    for r in rs:
        n += r['n']
        viol += [v for v in r['viol'] if v not in viol]
        und += r['und']
    viol = viol[:40]
    cov = {'obligations': n, 'discharged': n - len(und) - len(viol), 'checker_cmd': 'python3 checks/run.py C31 %s' % tier, 'configurations': len(its), 'specificities': S, 'sizes': SIZES + BIG,
           'trusted_base': ['clang 18 type-checked syntax tree', 'abstract interpreter checks/ai.py']}
    return dict(coverage=cov, violations=viol, undecided=und, instances=n, floor=300,
                assumptions=['position draws keep producing every residue (a fair generator)', 'feature counts and specificities from a fixed list; draws symbolic'])

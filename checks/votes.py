"""C06, C07: vote summation and feedback allocation, interpreted for themselves; their use by the training step."""
import itertools
import ai, vt, model, scen, kern, solve, behave
from ai import Cell, Vec, Ptr, Sym, Obj, Lin, term, lin, add, atom
from model import run_fn

INT_MAX = 2**31 - 1
TAGS = {}


def arr(vals, ty):
    return Vec(len(vals), [(i, Cell(v)) for i, v in enumerate(vals)], None, ty)


CHARS = 'std::vector<char, aligned_allocator<char, 64>>'
INTS = 'std::vector<int, aligned_allocator<int, 64>>'


def var(p, name, lo, hi, isf=False):
    a = atom(name)
    p.iv[a] = (lo, hi)
    if isf:
        p.floats.add(a)
    return a


def anchor(name, npar):
    P = model.prog()
    c = [k for k in P.find('Tsetlini::' + name) if len(k[0].fns[k[1]]['pt']) == npar]
    if not c:
        raise vt.Broken('anchor %s with %d parameters not found' % (name, npar))
    return c


# ------------------------------------------------------------------ C06
def patterns(n):
    if n > 100:         # many firing clauses: sums beyond the narrow integer types
        return [tuple(1 for _ in range(n)), tuple(1 - i % 2 for i in range(n)), tuple(i % 2 for i in range(n))]
    if n <= 4:
        return list(itertools.product((0, 1), repeat=n))
    out = [tuple(1 for _ in range(n)), tuple(i % 2 for i in range(n)), tuple(1 - i % 2 for i in range(n)), tuple(0 for _ in range(n))]
    out += [tuple(int(i == k) for i in range(n)) for k in (0, 1, n // 2 - 1, n // 2, n - 2, n - 1)]
    return out


def c06_items(tier):
    out = []
    for wt in (False, True):
        for L, per in ((1, 2), (2, 2), (2, 4), (3, 4), (4, 2)) + (((2, 16), (2, 30)) if tier == 'quick' else ((2, 16), (2, 30), (5, 34), (2, 38))):
            for ti in range(L):
                out.append(('label', wt, L, per, ti))
        for L, per in ((1, 2), (2, 2), (3, 2), (2, 4)):
            out.append(('all', wt, L, per, None))
        for n in (2, 4, 5, 16, 30, 260) + ((66000,) if not wt else ()):
            out.append(('reg', wt, 1, n, None))
        for kind, L, per, ti in (('label', 2, 260, 0), ('label', 2, 260, 1), ('all', 2, 150, None)):
            out.append((kind, wt, L, per, ti))
    return out


def expect(p, E, lo, hi):
    return lo if p.cmp('<', E, lo) else hi if p.cmp('<', hi, E) else E


def differ(p, got, want, extra=()):
    """None when equal; otherwise a feasible assignment on which they differ, or 'und'"""
    if isinstance(got, (Sym, Lin, int, float)) and isinstance(want, (Sym, Lin, int, float)):
        if term(got) == term(want):
            return None
        if p.known('==', got, want):
            return None
        A = solve.witness(p, lambda A: solve.ev(got, A) != solve.ev(want, A), (got, want) + tuple(extra))
        return A if A is not None else 'und'
    return 'und'


def show(A):
    return ', '.join('%s=%s' % (ai.show(k), v) for k, v in list(A.items())[:6])


def votes_expected(outs, ws, idx, alternate):
    E = 0
    for i in idx:
        if outs[i]:
            t = add(1, ws[i]) if ws else 1
            E = add(E, t, 1 if not alternate or i % 2 == 0 else -1)
    return E


def unroll(I):
    I.MAXTRIP, I.TRIPS, I.EXPLICIT = 10**9, 10**6, 10**5


def c06_run(item, key, pat, path):
    kind, wt, L, per, ti = item
    path.native = True
    n = L * per
    T = var(path, 'T', 1, INT_MAX)
    ws = [var(path, 'w%d' % i, 0, INT_MAX - 1) if n < 100 or i in (0, 1) and kind != 'all' else i % 3 for i in range(n)] if wt else []
    if kind == 'label':
        outs = [var(path, 'o%d' % i, 0, 1) if n < 100 else 1 for i in range(n)]
        outs[ti * per:(ti + 1) * per] = list(pat)
    else:
        outs = list(pat)
    ls = [atom('ls%d' % k) for k in range(L)]
    co, wv, lv = arr(outs, CHARS), arr(ws, 'std::vector<int>'), arr(list(ls), INTS)
    if kind == 'label':
        o = run_fn(path, key, [Cell(co), Cell(wv), Cell(lv), ti, per, T], setup=unroll)
    elif kind == 'all':
        o = run_fn(path, key, [Cell(co), Cell(wv), Cell(lv), L, per, T], setup=unroll)
    else:
        o = run_fn(path, key, [Cell(co), T, Cell(wv)], setup=unroll)
    b = behave.outcome_bad(o, path)
    if b:
        return [b]
    res = []
    for e in path.events:
        if e[0] == 'overflow':
            A = None
            try:
                A = solve.witness(path, lambda A: not ai.SCALARS[e[1]][0] <= solve.ev(e[2], A) <= ai.SCALARS[e[1]][1], (e[2],))
            except solve.Unknown:
                pass
            res.append(('bad' if A else 'und', 'the sum can leave the range of %s at %s%s' % (e[1], e[4], ' (%s)' % show(A) if A else '')))
    if kind == 'reg':
        want = expect(path, votes_expected(outs, ws, range(n), False), 0, T)
        checks = [('response', o.v, want)]
    else:
        checks = []
        for k in range(L):
            got = lv.cells[k][1].get()
            if kind == 'label' and k != ti:
                checks.append(('score of an unrelated class', got, ls[k]))
                continue
            E = votes_expected(outs, ws, range(k * per, (k + 1) * per), True)
            checks.append(('score of class %d' % k, got, expect(path, E, ai.unlin(Lin(0, {T: -1})), T)))
    for what, got, want in checks:
        d = differ(path, got, want)
        if d is None:
            res.append(('ok', ''))
        elif d == 'und':
            res.append(('und', '%s: %s against %s' % (what, term(got), term(want))))
        else:
            res.append(('bad', '%s is %s, expected %s (outputs %s; e.g. %s)' % (what, ai.show(term(got)), ai.show(term(want)), ''.join(map(str, pat)), show(d))))
    return res


NAMES = {'label': ('sum_up_label_votes', 6), 'all': ('sum_up_all_label_votes', 6), 'reg': ('sum_up_regressor_votes', 3)}


def c06_item(item):
    kind, wt, L, per, ti = item
    out = {'n': 0, 'viol': [], 'und': []}
    for key in anchor(*NAMES[kind]):
        pats = patterns(per) if kind != 'all' else patterns(L * per)
        if kind == 'all' and 4 < L * per < 100:
            pats = pats + [tuple(int(x) for x in bin(k + 2**n_)[3:]) for n_ in [L * per] for k in (5, 9, 54, 27)]
        for pat in pats:
            collect(out, '%s (%d labels x %d clauses%s)' % (model.where(*key), L, per, ', weighted' if wt else ''), lambda p: c06_run(item, key, pat, p))
    return out


def collect(out, where, run, rule='votes', limit=3000):
    try:
        for p, res in ai.explore(run, limit):
            for k, msg in res:
                out['n'] += 1
                if k == 'bad':
                    out['viol'].append({'where': where, 'rule': rule, 'msg': msg})
                elif k == 'und':
                    out['und'].append('%s: %s' % (where, msg))
    except ai.PathLimit:
        out['und'].append('%s: path limit' % where)


# ------------------------------------------------------------------ C07
def c07_items(tier):
    out = []
    for L in (2, 3):
        for per in (2, 4) if tier == 'thorough' else ((2, 4) if L == 2 else (2,)):
            for t in range(L):
                for o in range(L):
                    if t != o:
                        out.append(('alloc', L, per, t, o))
    for L in (2, 3, 4, 5):
        for y in range(L):
            out.append(('opp', L, y))
    for est in ('classifier_classic', 'classifier_bitwise'):
        for w in (False, True):
            for L in (2, 3):
                out.append(('use', est, w, L))
    for est in ('regressor_classic', 'regressor_bitwise'):
        for w in (False, True):
            out.append(('usereg', est, w))
    return out


def equal_fraction(p, t, num, den):
    """t is num/den for every admissible value (checked as an identity of rational functions at many points)"""
    import random
    rnd = random.Random(7)
    vs, seen = set(), set()
    for x in (t, num, den):
        solve.leaf(x, vs, seen)
    for _ in range(60):
        A = {}
        for v in sorted(vs, key=ai.skey):
            lo, hi = p.aival(v)
            if v in p.floats or hi - lo > 1e18:
                return None
            A[v] = rnd.choice((int(lo), int(hi), rnd.randint(int(lo), int(hi)), rnd.randint(max(int(lo), -50), min(int(hi), 50))))
        try:
            a, b = solve.ev(t, A), solve.ev(num, A) / solve.ev(den, A)
        except solve.Unknown:
            return None
        if not abs(a - b) <= 1e-5 * max(1.0, abs(b)):
            return A
    return True


def draw_facts(p):
    """[(draw, threshold term, draw_exceeds)] decided on this path; None when a decision on a draw has another form"""
    num, other = solve.constraints(p)
    out = []
    for op, d, b in num:
        ds = [a for a in d.k if a.t[0] == 'draw']
        if not ds:
            if any(behave.leaves(a, 'draw') for a in d.k):
                return None
            continue
        if len(ds) != 1 or op == '==' or abs(d.k[ds[0]]) != 1:
            return None
        k = d.k[ds[0]]
        rest = Lin(-d.c * k, {a: -v * k for a, v in d.k.items() if a is not ds[0]})       # draw <op'> rest
        exceeds = b if k < 0 else not b
        out.append((ds[0], ai.unlin(rest), exceeds))
    if any(behave.leaves(Sym('p', *[x for x in k if isinstance(x, (Sym, Lin))]), 'draw') for k, _ in other):
        return None
    return out


def c07_alloc(item, key, path):
    _, L, per, t, o = item
    path.native = True
    n = L * per
    T = var(path, 'T', 1, INT_MAX)
    vt_, vo = var(path, 'vt', -INT_MAX, INT_MAX), var(path, 'vo', -INT_MAX, INT_MAX)
    pt = kern.ptypes(key[0].fns[key[1]])
    elem = ai.targs(ai.bare(pt[0]))[0] if 'vector' in pt[0] else 'char'
    fb = arr([var(path, 'old%d' % i, -1, 1) for i in range(n)], ai.bare(pt[0]))
    gen = generator(path, 'FRNG')
    o_ = run_fn(path, key, [Cell(fb), t, o, vt_, vo, per, T, gen])
    b = behave.outcome_bad(o_, path)
    if b:
        return [b]
    res = []
    for e in path.events:
        if e[0] == 'overflow':
            A = solve.witness(path, lambda A: abs(A.get(vt_, 0)) <= A[T] and abs(A.get(vo, 0)) <= A[T] and not ai.SCALARS[e[1]][0] <= solve.ev(e[2], A) <= ai.SCALARS[e[1]][1], (e[2], T, vt_, vo))
            res.append(('bad' if A else 'und' if A is None else 'ok', 'integer overflow of %s at %s' % (ai.show(e[2]), e[4])))
    facts = draw_facts(path)
    if facts is None:
        return res + [('und', 'a decision on a draw has an unrecognised form')]
    got = [fb.cells[i][1].get() for i in range(n)]
    for i, g in enumerate(got):
        lab = i // per
        even = i % 2 == 0
        allowed = {0} | ({1 if even else -1} if lab == t else {-1 if even else 1} if lab == o else set())
        if not isinstance(g, int):
            res.append(('bad' if isinstance(g, Sym) and g.t[0] == 'atom' else 'und', 'feedback of clause %d (label %d; target %d, opposite %d) is %s' % (i, lab, t, o, ai.show(g))))
        elif g not in allowed:
            res.append(('bad', 'clause %d of label %d gets feedback %d (target label %d, opposite label %d)' % (i, lab, g, t, o)))
        else:
            res.append(('ok', ''))
    if any(not isinstance(g, int) for g in got):
        return res
    # every addressed clause is decided by a draw of its own against its class's threshold
    D2 = Lin(0, {T: 2})
    cls = {'target': (add(T, vt_, -1), [i for i in range(n) if i // per == t]), 'opposite': (add(T, vo), [i for i in range(n) if i // per == o])}
    seen, count = set(), {'target': [0, 0], 'opposite': [0, 0]}
    for d, thr, exceeds in facts:
        if d in seen:
            res.append(('und', 'one draw decides twice'))
        seen.add(d)
        m = [c for c, (num, _) in cls.items() if equal_fraction(path, thr, num, D2) is True]
        if len(m) != 1:
            bad = [equal_fraction(path, thr, num, D2) for num, _ in cls.values()]
            if any(x is None for x in bad):
                res.append(('und', 'threshold %s not evaluated' % ai.show(thr)))
            else:
                res.append(('bad', 'a draw is compared with %s, which is neither (T - target votes)/2T nor (T + opposite votes)/2T' % ai.show(thr)))
            continue
        count[m[0]][0 if exceeds else 1] += 1
    for c, (_, idx) in cls.items():
        z = sum(1 for i in idx if got[i] == 0)
        want = [z, len(idx) - z]
        if any(k == 'und' for k, _ in res) or any(k == 'bad' for k, _ in res):
            break
        if count[c] != want:
            res.append(('bad', 'of %d clauses of the %s class %d have feedback, but %d of %d draws fell below its threshold' % (len(idx), c, want[1], count[c][1], sum(count[c]))))
        else:
            res.append(('ok', ''))
    return res


def generator(path, kind):
    P = model.prog()
    c = [r for r in P.records if r.startswith('basic_' + kind) and '<' in r]
    o = None
    I = ai.Models(P, path, dict(model.BASE))
    for r in sorted(c):
        try:
            o = I.default_obj(r)
            break
        except ai.Imprecise:
            continue
    if o is None:
        raise vt.Broken('no generator type %s' % kind)
    for a in ('aRES', 'aMT'):
        v = o.f[a].get()
        v.content, v.cells = Sym('trained', kind, a), None
    ix = atom('trained_%s_index' % kind)
    path.iv[ix] = (0, 4992)
    o.f['index'].set(ix)
    return Cell(o)


def c07_opp(item, key, path):
    """the drawn other label: in range and different from the label"""
    _, L, y = item
    ys = arr([y, y], 'std::vector<int>')
    oy = arr([atom('s0'), atom('s1')], 'std::vector<int>')
    o = run_fn(path, key, [Cell(ys), Cell(oy), L, generator(path, 'IRNG')])
    b = behave.outcome_bad(o, path)
    if b:
        return [b]
    res = []
    for k in range(2):
        v = oy.cells[k][1].get()
        vs, seen = set(), set()
        solve.leaf(term(v), vs, seen)
        if any(x.t[0] != 'draw' for x in vs) or len(vs) > 1:
            res.append(('bad' if any(x.t[0] == 'atom' for x in vs) else 'und', 'other label of sample %d is %s' % (k, ai.show(term(v)))))
            continue
        num, other = solve.constraints(path)
        bad = None
        exact = residues_only(term(v), vs)
        vals = set()
        for x in list(range(0, 240)) + [2**32 - 1 - z for z in range(240)] + [2**31 + z for z in range(-60, 60)]:
            A = {a: x for a in vs}
            try:
                if not solve.holds(num, A):
                    continue
                r = solve.ev(term(v), A)
            except solve.Unknown:
                exact = False
                continue
            vals.add(r)
            if not (0 <= r < L and r != y):
                bad = (x, r)
        if bad:
            res.append(('bad', 'label %d of %d labels: the draw %d selects %d as the other label' % (y, L, bad[0], bad[1])))
        elif not exact:
            res.append(('und', 'other label %s' % ai.show(term(v))))
        else:
            res.append(('ok', ''))
    return res


def residues_only(t, vs):
    """the draw occurs only as its remainder by a small constant"""
    ok = True
    st = [t]
    while st:
        x = st.pop()
        if x in vs:
            ok = False
        elif isinstance(x, Lin):
            st.extend(x.k)
        elif isinstance(x, Sym):
            if x.t[0] == 'rem' and x.t[1] in vs and isinstance(x.t[2], int) and x.t[2] <= 120:
                continue
            st.extend(y for y in x.t[1:] if isinstance(y, (Sym, Lin)))
    return ok


def unw(t):
    return t


def c07_use(item, path):
    """one epoch of training on two samples: which classes are evaluated, scored, given feedback and trained"""
    _, est, w, L = item
    _, sh, e = behave.prepared(path, est, True, L=L, weighted=w, q=1)
    labels = [1, 0]
    X = sh.X()
    y = sh.labels(labels)
    o = scen.call_fit(path, est, e, 'partial_fit', X, y, 0, 1, kern.HOOKS)
    b = behave.outcome_bad(o, path)
    if b:
        return [b]
    if scen.status(o) != 0:
        return [('und', 'training refused')]
    xt = [term(c) for _, c in X.cells]
    calls = getattr(path, 'calls', [])
    per = 2     # logical clauses per label
    res = []
    fbs = [(k, a) for k, (n, a, wh) in enumerate(calls) if n == 'feedback']
    if len(fbs) != 2:
        return [('bad', '%d feedback allocations for 2 samples' % len(fbs))]
    prev = 0
    used = []
    bounds = [k for k, _ in fbs]
    for j, (k, a) in enumerate(fbs):
        a = [t for _, t in a]
        tgt, opp, tv, ov, pl, T = a[1], a[2], a[3], a[4], a[5], a[6]
        # segment: from the previous sample's last training call to this sample's last training call
        nxt = bounds[j + 1] if j + 1 < len(fbs) else len(calls)
        before = calls[prev:k]
        after = []
        kk = k + 1
        while kk < nxt and calls[kk][0] == 'train_classifier_automata':
            after.append(calls[kk])
            kk += 1
        prev = kk
        if not isinstance(tgt, int):
            res.append(('und', 'target label %s' % ai.show(tgt)))
            continue
        outs = [c for c in before if c[0] == 'calculate_clause_output']
        xs = {c[1][0][1] for c in outs} | {x for c in after for ty, x in c[1] if x in xt}
        if len(xs) != 1 or list(xs)[0] not in xt:
            res.append(('und' if not xs else 'bad', 'one training step uses %d different samples' % len(xs)))
            continue
        sample = xt.index(list(xs)[0])
        used.append(sample)
        if labels[sample] != tgt:
            res.append(('bad', 'sample %d (label %d) is trained with target label %s' % (sample, labels[sample], tgt)))
        else:
            res.append(('ok', ''))
        sc = {'target': (tgt, tv), 'opposite': (opp, ov)}
        for nm, (lab, v) in sc.items():
            vt_ = v if isinstance(v, Sym) and v.t[0] == 'votes' else None
            if vt_ is None:
                # label_sum[lab] with a symbolic lab
                up = behave.leaves(Sym('p', v), 'votes')
                ok = [u for u in up if u.t[1] == lab]
                res.append(('ok', '') if ok else ('bad', 'score handed over for the %s class is %s' % (nm, ai.show(v)[:120])))
            else:
                res.append(('ok', '') if vt_.t[1] == lab else ('bad', 'the score of the %s class %s is that of class %s' % (nm, ai.show(lab), ai.show(vt_.t[1]))))
        # evaluated ranges
        lo = lambda lab: term(mulc(lab, per))
        hi = lambda lab: term(add(mulc(lab, per), per))
        want = {(lo(tgt), hi(tgt)), (lo(opp), hi(opp))}
        got = {(c[1][2][1], c[1][3][1]) for c in outs}
        cover = got == want or covers(got, want)
        res.append(('ok', '') if cover else ('bad' if got else 'und', 'clauses evaluated before scoring: %s, expected those of classes %s and %s' % (fmt(got), ai.show(tgt), ai.show(opp))))
        tr = {(c[1][1][1], c[1][2][1]) for c in after}
        res.append(('ok', '') if tr == want or covers(tr, want) else ('bad', 'clauses trained: %s, expected those of classes %s and %s' % (fmt(tr), ai.show(tgt), ai.show(opp))))
        if len(after) != len(tr):
            res.append(('bad', 'a class is trained twice on one sample'))
        if term(pl) != per:
            res.append(('bad', 'feedback is allocated to %s clauses per label instead of %d' % (ai.show(pl), per)))
    if sorted(used) != [0, 1] and not any(k == 'und' for k, _ in res):
        res.append(('bad', 'samples used in one epoch: %s' % used))
    return res


def covers(got, want):
    return False


def fmt(s):
    return ', '.join('[%s, %s)' % (ai.show(a), ai.show(b)) for a, b in sorted(s, key=str)) or 'none'


def mulc(v, k):
    l = lin(v)
    return ai.unlin(Lin(l.c * k, {a: x * k for a, x in l.k.items()}))


def c07_usereg(item, path):
    _, est, w = item
    _, sh, e = behave.prepared(path, est, True, weighted=w, q=1)
    n = 2
    ys = [atom('resp0'), atom('resp1')]
    for a in ys:
        path.iv[a] = (0, 10)
    X = sh.X()
    y = sh.labels(ys)
    o = scen.call_fit(path, est, e, 'partial_fit', X, y, 0, 1, kern.HOOKS)
    b = behave.outcome_bad(o, path)
    if b:
        return [b]
    if scen.status(o) != 0:
        return [('ok', '')]
    xt = [term(c) for _, c in X.cells]
    calls = getattr(path, 'calls', [])
    res, used, last = [], [], None
    for nme, a, wh in calls:
        ts = [t for _, t in a]
        if nme == 'calculate_clause_output':
            last = ts
        elif nme == 'train_regressor_automata':
            if last is None:
                res.append(('bad', 'trained before the clauses were evaluated'))
                continue
            sx = [t for t in ts if t in xt]
            if len(sx) != 1 or last[0] != sx[0]:
                res.append(('bad', 'trained on another sample than evaluated'))
                continue
            s = xt.index(sx[0])
            used.append(s)
            nout = [term(ln(last[1]))]
            if (last[2], last[3]) != (ts[1], ts[2]) or ts[1] != 0:
                res.append(('bad', 'evaluated clauses [%s, %s) but trained [%s, %s)' % tuple(map(ai.show, (last[2], last[3], ts[1], ts[2])))))
            err = [t for ty, t in a if '_error_tag' in ty]
            rv = behave.leaves(Sym('p', err[0]), 'rvotes') if err else []
            want = add(rv[0], ys[s], -1) if rv else None
            if not err or want is None:
                res.append(('und', 'response error not recognised'))
            elif term(err[0]) != term(want):
                res.append(('bad', 'response error is %s for the response %s' % (ai.show(err[0])[:200], ai.show(ys[s]))))
            else:
                res.append(('ok', ''))
    if sorted(used) != [0, 1]:
        res.append(('bad', 'samples trained in one epoch: %s' % used))
    return res


def ln(t):
    return t


def c07_item(item):
    out = {'n': 0, 'viol': [], 'und': []}
    k = item[0]
    if k == 'alloc':
        for key in anchor('calculate_classifier_feedback_to_clauses', 8):
            collect(out, '%s (%d labels x %d clauses, target %d, opposite %d)' % ((model.where(*key),) + item[1:]), lambda p: c07_alloc(item, key, p), 'feedback')
    elif k == 'opp':
        for key in anchor('generate_opposite_y', 4):
            collect(out, '%s (label %d of %d)' % (model.where(*key), item[2], item[1]), lambda p: c07_opp(item, key, p), 'other-class')
    elif k == 'use':
        collect(out, 'training step of %s (%d labels)' % (scen.EST[item[1]][0], item[3]), lambda p: c07_use(item, p), 'feedback-use')
    else:
        collect(out, 'training step of %s' % scen.EST[item[1]][0], lambda p: c07_usereg(item, p), 'feedback-use')
    return out


def run(prop, tier):
    items = {'C06': c06_items, 'C07': c07_items}[prop](tier)
    res = model.parallel(items, {'C06': c06_item, 'C07': c07_item}[prop])
    viol, und, n = [], [], 0
    seen = set()
    for r in res:
        n += r['n']
        und += r['und']
        for v in r['viol']:
            k = (v['where'], v['rule'], v['msg'][:60])
            if k not in seen:
                seen.add(k)
                viol.append(v)
    cov = {'obligations': n, 'discharged': n - len(und) - len(viol), 'checker_cmd': 'checks/run.py %s %s' % (prop, tier),
           'trusted_base': ['clang 18 front end', 'interpreter checks/ai.py', 'witness search checks/solve.py'], 'scenarios': len(items)}
    return dict(coverage=cov, violations=viol, undecided=und, instances=n, floor=len(items),
                assumptions=['weights in [0, INT_MAX-1] (C04)', 'clause outputs in {0,1} (C05)', 'scores within the threshold (C06)' if prop == 'C07' else 'clause counts of the analysed sizes'])

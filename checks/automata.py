"""Training kernels interpreted from the syntax tree: every clause with its feedback, every literal with its own class of counter,
sample value and tosses (C01 C02 C03 C04 C08), both representations, all counter widths."""
import ai, vt, model, scen, kern, behave, votes, lazy, solve, clause
from ai import Cell, Vec, Ptr, Sym, Obj, Lin, term, atom, unlin

CAP = {'signed char': 127, 'short': 32767, 'int': 2**31 - 1}
CLAUSES = 8             # 2 labels x 4 outputs -> 16 rows
# (feedback, output) of every clause; the first and the last are outside of the trained range
SETUP = [(1, 1), (1, 0), (1, 1), (-1, 1), (-1, 0), (0, 1), (0, 0), (-1, 1)]
SETUP2 = [(-1, 1), (1, 1), (-1, 1), (1, 0), (0, 0), (-1, 0), (0, 1), (1, 1)]
BEGIN, END = 1, 7


def kernels(est):
    out = {}
    for k in model.prog().find('Tsetlini::train_%s_automata' % est):
        pt = kern.ptypes(k[0].fns[k[1]])
        if 'TAState' in pt[0]:
            out['bit' if 'bit_vector' in ' '.join(pt) else 'cls'] = k
    if set(out) != {'bit', 'cls'}:
        raise vt.Broken('anchor train_%s_automata' % est)
    return out


class Auto(lazy.Lazy):
    EXPLICIT = 10**5


# ------------------------------------------------------------------ abstract classes of counters and weights
def numbers(path, w, ncase):
    """(N, {category: counter value}) - 'low' / 'high' stand for every value strictly between the marked ones"""
    if ncase != 'sym':
        N = {'max': CAP[w]}.get(ncase, ncase)
        c = {'min': -N, 'max': N - 1, '-1': -1, '0': 0}
        if N >= 3:
            for nm, lo, hi in (('low', -N + 1, -2), ('high', 1, N - 2)):
                a = atom(nm)
                path.iv[a] = (lo, hi)
                c[nm] = a
        return N, c
    a, b = atom('a'), atom('b')
    h = (CAP[w] - 3) // 2
    path.iv[a] = path.iv[b] = (0, h)
    N = Lin(3, {a: 1, b: 1})
    return N, {'min': Lin(-3, {a: -1, b: -1}), 'max': Lin(2, {a: 1, b: 1}), '-1': -1, '0': 0, 'low': Lin(-2, {b: -1}), 'high': Lin(1, {a: 1})}


def maxweights(path, wcase):
    if wcase == 'sym':
        a, b = atom('wa'), atom('wb')
        path.iv[a] = path.iv[b] = (0, 2**30 - 4)
        return Lin(4, {a: 1, b: 1}), [0, Lin(1, {a: 1}), Lin(2, {a: 1, b: 1}), Lin(3, {a: 1, b: 1})]
    mw = {'max': 2**31 - 1}.get(wcase, wcase)
    if wcase == 'max':
        a = atom('wl')
        path.iv[a] = (1, mw - 3)
        return mw, [0, a, mw - 2, mw - 1]
    return mw, list(range(mw))


CATS = ['min', 'low', '-1', '0', 'high', 'max']
def scramble(*v):
    h = 17
    for x in v:
        h = (h * 1000003 ^ (x + 0x9e37)) & 0xffffffff
        h ^= h >> 15
    return h >> 3


def classes(k, row, shift, avoid=False):
    """(x, toss1, toss2, category of pos, category of neg) of literal k for the shift-th member of the partition; 24 shifts cover every
    combination of sample value, toss and category for each counter of each clause"""
    s = shift % 24
    z, y = (k + s) % 4, s // 4
    x, t1 = z & 1, z >> 1
    t2 = t1 ^ scramble(k, y) & 1
    return x, t1, t2, CATS[(y + scramble(k, row, 1)) % 6], CATS[(5 * y + scramble(k, row, 2)) % 6]


def inc(f, v, N):
    return v if f == 'max' else ai.add(v, 1)


def dec(f, v, N):
    return v if f == 'min' else ai.add(v, -1)


def expected(fb, co, boost, x, t1, t2, cp, cn, V, hyp, N):
    """post values of (pos, neg) of one literal; None: no exact prescription"""
    if hyp == 2:
        t1, t2 = t2, t1
    vp, vn = V[cp], V[cn]
    if N == 1 and cp == '-1': cp = 'min'
    if N == 1 and cn == '-1': cn = 'min'
    if N == 1 and cp == '0': cp = 'max'
    if N == 1 and cn == '0': cn = 'max'
    if N != 1:
        if cp not in V or cn not in V:
            raise KeyError
    D = lambda c, v: dec(c, v, N)
    I = lambda c, v: inc(c, v, N)
    if fb > 0 and co == 0:
        return (D(cp, vp) if t1 else vp), (D(cn, vn) if t2 else vn)
    if fb > 0:
        p = (I(cp, vp) if boost or not t1 else vp) if x else (D(cp, vp) if t1 else vp)
        n = (I(cn, vn) if boost or not t2 else vn) if not x else (D(cn, vn) if t2 else vn)
        return p, n
    if fb < 0 and co == 1:
        excl = ('min', 'low', '-1')
        p = ai.add(vp, 1) if not x and cp in excl else vp
        n = ai.add(vn, 1) if x and cn in excl else vn
        return p, n
    return vp, vn


_lay = {}


def layout(path, kind, w, F, weighted):
    key = (kind, w, F, weighted)
    if key not in _lay:
        p = ai.Path([])
        p.auto = True
        est = 'classifier_bitwise' if kind == 'bit' else 'classifier_classic'
        e = scen.fitted(p, est, F, 2, {'counting_type': clause.CT[w], 'number_of_clauses_per_label': CLAUSES, 'number_of_states': 100, 'weighted': weighted})
        ts = scen.state(e).f['ta_state']
        m = ts.get().f['matrix'].get()
        if m.alt != 'basic_numeric_matrix<%s>' % w:
            raise ai.Imprecise('counting type %s gives %s' % (clause.CT[w], m.alt))
        rows = 2 * CLAUSES
        kr = [clause.rowptr(p, m.alt, m.cell, r).pos for r in range(rows)]
        pol = ts.get().f.get('polarity')
        pr = [clause.rowptr(p, 'basic_bit_matrix<unsigned long>', pol, r).pos for r in range(rows)] if pol is not None else None
        _lay[key] = ts, m, kr, pol, pr, dict(p.iv)
    r = _lay[key]
    path.iv.update(r[5])
    return r[:5]


PAD = 0x55


def fill(path, lay, kind, F, V, wts, shift, avoid, N):
    ts, m, kr, pol, pr = lay
    vec = m.cell.get().f['m_v'].get()
    pad = atom('pad')
    path.iv[pad] = (-128, 127)
    cells = [pad] * vec.size
    words = {}
    cls = {}
    for r in range(CLAUSES):
        for k in range(F):
            x, t1, t2, cp, cn = classes(k, r, shift, avoid)
            if cp not in V: cp = '-1' if cp in ('low', 'min') else '0'
            if cn not in V: cn = '-1' if cn in ('low', 'min') else '0'
            cls[r, k] = x, t1, t2, cp, cn
            cells[kr[2 * r] + k] = V[cp]
            cells[kr[2 * r + 1] + k] = V[cn]
            for h, c in ((0, cp), (1, cn)):
                if c in ('0', 'high', 'max') and pr is not None:
                    q = pr[2 * r + h] + k // 64
                    words[q] = words.get(q, 0) | 1 << (k % 64)
    vec.cells, vec.content = [(i, Cell(v)) for i, v in enumerate(cells)], None
    if pol is not None:
        pv = pol.get().f['m_v'].get()
        pv.cells, pv.content = [(i, Cell(words.get(i, 0))) for i in range(pv.size)], None
    wv = ts.get().f['weights'].get()
    wc = []
    if wts is not None:
        wc = [wts[(r + shift) % len(wts)] for r in range(CLAUSES)]
        wv.size, wv.cells, wv.content = CLAUSES, [(i, Cell(v)) for i, v in enumerate(wc)], None
    else:
        wv.size, wv.cells, wv.content = 0, [], None
    xs = [classes(k, 0, shift, avoid)[0] for k in range(F)]
    if kind == 'cls':
        X = votes.arr(xs, votes.CHARS)
    else:
        ws = [0] * ((F + 63) // 64)
        for k, x in enumerate(xs):
            ws[k // 64] |= x << (k % 64)
        X = Obj(scen.BITVEC, {'m_bit_length': Cell(F), 'm_vector': Cell(votes.arr(ws, scen.WORDVEC))})
    t1 = votes.arr([classes(k, 0, shift, avoid)[1] for k in range(F)], votes.CHARS)
    t2 = votes.arr([classes(k, 0, shift, avoid)[2] for k in range(F)], votes.CHARS)
    return X, t1, t2, cells, words, wc, cls


def hooks(F, t1, t2, M, r, hits, log):
    """tosses are given, every draw of the generator is M*q + r"""
    def rand(I, f, this, args):
        n = log['draws'] = log.get('draws', 0) + 1
        q = atom('q%d' % n)
        I.p.iv[q] = (0, (2**32 - 1 - r) // M)
        return unlin(Lin(r, {q: M}))

    def tosses(v, nm):
        def h(I, f, this, args):
            log.setdefault('tosses', []).append(nm)
            return Ptr(vec=v, pos=0)
        return h

    return {'BasePRNG::rand': rand, 'BasePRNG::init': lambda I, f, this, a: log.setdefault('init', I.where()) and None,
            'CoinTosserExact::tosses1': tosses(t1, 1), 'CoinTosserExact::tosses2': tosses(t2, 2),
            'Tsetlini::CoinTosserExact::tosses1': tosses(t1, 1), 'Tsetlini::CoinTosserExact::tosses2': tosses(t2, 2),
            'Tsetlini::CoinTosserExact::estimate_hits': lambda I, f, this, a: hits}


def modulus(*ns):
    """draws are classified by their residues for every size involved and its neighbours"""
    import math
    return math.lcm(*[max(1, x) for n in ns for x in (n - 1, n, n + 1)])


def same(path, got, want):
    """True / False / None"""
    if got is want:
        return True
    if isinstance(got, bool): got = int(got)
    if isinstance(got, int) and isinstance(want, int):
        return got == want
    r = path.known('==', got, want)
    if r is not None:
        return r
    if isinstance(got, (int, Sym, Lin)) and isinstance(want, (int, Sym, Lin)):
        if solve.witness(path, lambda A: solve.ev(got, A) != solve.ev(want, A), (got, want), tries=300):
            return False
    return None


def coin(path, F, w):
    c = Vec(F, None, Sym('cache'), votes.CHARS)
    o = Obj('Tsetlini::CoinTosserExact', {})
    for f, t in model.prog().records['Tsetlini::CoinTosserExact'] if False else ():
        pass
    for nm, v in (('m_s_inv', 0.5), ('m_hits_floor', F // 2), ('m_hits_ceil_threshold', 0), ('m_cache1', c), ('m_cache2', Vec(F, None, Sym('cache'), votes.CHARS))):
        o.f[nm] = Cell(v)
    return o


def lossfn(path):
    """stands for any loss function: the square of the scaled error"""
    def sq(I, args):
        x = args[0].get()
        if not isinstance(x, (int, float)):
            I.note('scaled error %r' % (x,))
        return model.f32(float(x) * float(x))
    return ai.Native(sq)


def post(path, lay, F, cells, words, wc, changed_ok):
    """what was written: {row: {k: value}} of the given rows and every stray modification"""
    ts, m, kr, pol, pr = lay
    res = []
    vec = m.cell.get().f['m_v'].get()
    if vec.cells is None or len(vec.cells) != len(cells):
        return None, [('C08', 'und', 'counter storage changed shape')]
    got = [c.get() for _, c in vec.cells]
    owner = {}
    for r in range(2 * CLAUSES):
        for k in range(F):
            owner[kr[r] + k] = (r, k)
    for i, v in enumerate(got):
        if i in owner:
            r, k = owner[i]
            if not changed_ok(r // 2):
                s = same(path, v, cells[i])
                res.append(('C08', 'ok' if s else 'und' if s is None else 'bad', 'counter %d of clause %d, which does not take part, is modified' % (k, r // 2)))
        elif v is not cells[i]:
            s = same(path, v, cells[i])
            if not s:
                res.append(('C08', 'bad' if s is False else 'und', 'storage between the rows of the counter matrix is modified'))
    pw = None
    if pol is not None:
        pv = pol.get().f['m_v'].get()
        pw = [c.get() for _, c in pv.cells]
        own = {}
        for r in range(2 * CLAUSES):
            for b in range((F + 63) // 64):
                own[pr[r] + b] = (r, b)
        for i, v in enumerate(pw):
            if i in own:
                r, b = own[i]
                if not changed_ok(r // 2) and v != words.get(i, 0):
                    res.append(('C08', 'bad' if isinstance(v, int) else 'und', 'include bits of clause %d, which does not take part, are modified' % (r // 2)))
            elif v != 0:
                res.append(('C08', 'bad' if isinstance(v, int) else 'und', 'storage between the rows of the include mask is modified'))
    wv = ts.get().f['weights'].get()
    if wv.size != len(wc):
        res.append(('C04', 'bad', 'the number of weights changes to %s' % wv.size))
        gw = None
    else:
        gw = [c.get() for _, c in (wv.cells or [])]
    return (got, pw, gw), res


def known(w):
    if isinstance(w, int):
        return w, ~w
    return (w.k1, w.k0) if isinstance(w, ai.Word) else (0, 0)


def mask(path, lay, F, got, pw, rows):
    """include bits against signs"""
    ts, m, kr, pol, pr = lay
    res = []
    I = Auto(model.prog(), path, {})
    for r in rows:
        bad = und = 0
        for k in range(F):
            v = got[kr[r] + k]
            w = pw[pr[r] + k // 64]
            k1, k0 = known(w)
            g = 1 if k1 >> (k % 64) & 1 else 0 if k0 >> (k % 64) & 1 else None
            s = (v >= 0) if isinstance(v, int) else path.known('>=', v, 0)
            if s is None and isinstance(v, (Sym, Lin)):
                s = I.tri(Sym('cmpt', '>=', term(v), 0))
            if s is None and g is not None and isinstance(v, (Sym, Lin)) and solve.witness(path, lambda A: (solve.ev(v, A) >= 0) != bool(g), (v,), tries=200):
                s = not g
            if s is None or g is None:
                und += 1
                res.append(('C03', 'und', 'mask bit %d of row %d: %s for counter %s' % (k, r, g, ai.show(term(v))[:60])))
            elif bool(s) != bool(g):
                bad += 1
                res.append(('C03', 'bad', 'include bit of %s literal %d is %d although its counter is %s after training' % ('negated' if r & 1 else 'positive', k, g, 'non-negative' if s else 'negative')))
        tail = F % 64
        if tail:
            w = pw[pr[r] + F // 64]
            hi = ((1 << 64) - 1) & ~((1 << tail) - 1)
            if known(w)[0] & hi:
                res.append(('C08', 'bad', 'include bits beyond the last feature are set'))
        if not bad and not und:
            res.append(('C03', 'ok', ''))
    return res


def rangecheck(path, v, N, what):
    lo, hi = path.known('>=', ai.add(v, N), 0) if not isinstance(N, int) or not isinstance(v, int) else v >= -N, None
    hi = path.known('<', v, N) if not isinstance(N, int) or not isinstance(v, int) else v < N
    if lo and hi:
        return ('C01', 'ok', '')
    A = lo is False or hi is False or solve.witness(path, lambda A: not -solve.ev(N, A) <= solve.ev(v, A) < solve.ev(N, A), (v,) if isinstance(N, int) else (v, N), tries=300)
    return ('C01', 'bad' if A else 'und', '%s leaves the range [-number_of_states, number_of_states - 1]' % what)


NAMES = {(1, 0): 'reinforcing feedback of a false clause', (1, 1): 'reinforcing feedback of a true clause', (-1, 1): 'suppressing feedback of a true clause',
         (-1, 0): 'suppressing feedback of a false clause', (0, 1): 'no feedback', (0, 0): 'no feedback'}


def judge(path, kind, lay, F, r, fb, co, boost, V, N, cls, cells, got, hits, union):
    """one trained clause -> results; C02 results carry the toss hypothesis"""
    ts, m, kr, pol, pr = lay
    res = []
    what = NAMES[fb, co]
    sparse = kind == 'bit' and (fb, co) == (1, 0)
    lowered = [0, 0]
    for k in range(F):
        x, t1, t2, cp, cn = cls[r, k]
        g = (got[kr[2 * r] + k], got[kr[2 * r + 1] + k])
        for h, gv in enumerate(g):
            c = (cp, cn)[h]
            res.append(rangecheck(path, gv, N, '%s counter of literal %d (%s)' % (('positive', 'negated')[h], k, what)))
        if sparse:
            for h in (0, 1):
                v0, v = V[(cp, cn)[h]], g[h]
                d = ai.add(v0, v, -1) if not (isinstance(v0, int) and isinstance(v, int)) else v0 - v
                if isinstance(d, int):
                    ok = 0 <= d <= hits
                    if d > 0:
                        lowered[h] += 1
                        union.add((h, k))
                else:
                    a, b = path.known('>=', d, 0), path.known('<=', d, hits)
                    ok = True if a and b else False if a is False or b is False else None
                res.append(('C02', 'ok' if ok else 'und' if ok is None else 'bad', 'counter of literal %d goes from %s to %s on %s' % (k, ai.show(term(v0)), ai.show(term(v)), what)))
            continue
        for h in (0, 1):
            st = {}
            for hyp in (1, 2):
                e = expected(fb, co, boost, x, t1, t2, cp, cn, V, hyp, N)[h]
                st[hyp] = same(path, g[h], e)
            for hyp in (1, 2):
                s = st[hyp]
                res.append(('C02', 'ok' if s else 'und' if s is None else 'bad',
                            'the %s counter of literal %d, at %s, becomes %s on %s (literal %d in the sample, tosses %d/%d, boosting %d)' % (
                                ('positive', 'negated')[h], k, {'min': '-N', 'max': 'N-1', 'low': 'some value in (-N, -1)', 'high': 'some value in (0, N-1)'}.get((cp, cn)[h], (cp, cn)[h]),
                                ai.show(term(g[h]))[:40], what, x, t1, t2, boost), hyp))
    return res, lowered


def wjudge(path, r, fb, co, w0, w1, mw):
    if fb > 0 and co:
        g = path.known('<', ai.add(w0, 1), mw) if not isinstance(w0, int) or not isinstance(mw, int) else w0 + 1 < mw
        want = ai.add(w0, 1) if g else w0
        if g is None:
            return ('C04', 'und', 'weight class')
    elif fb < 0 and co:
        z = w0 == 0 if isinstance(w0, int) else path.known('==', w0, 0)
        want = w0 if z else ai.add(w0, -1)
    else:
        want = w0
    s = same(path, w1, want)
    return ('C04', 'ok' if s else 'und' if s is None else 'bad', 'the weight of clause %d (stored %s, limit %s) becomes %s on %s' % (r, ai.show(term(w0)), ai.show(term(mw)), ai.show(term(w1))[:40], NAMES[fb, co]))


def clf(path, it, union):
    _, kind, w, F, ncase, wcase, boost, shift, hits, res0 = it
    weighted = wcase is not None
    key = kernels('classifier')[kind]
    lay = layout(path, kind, w, F, weighted)
    N, V = numbers(path, w, ncase)
    mw, wts = maxweights(path, wcase) if weighted else (1, None)
    if not weighted:
        mw = 5
    avoid = kind == 'bit' and F <= 4
    X, t1, t2, cells, words, wc, cls = fill(path, lay, kind, F, V, wts, shift, False, N)
    setup = SETUP if shift % 2 == 0 else SETUP2
    log = {}
    fbv = votes.arr([f for f, _ in setup], votes.CHARS)
    cov = votes.arr([c for _, c in setup], votes.CHARS)
    igen = Obj('basic_IRNG<>', {'index': Cell(0)})
    args = [lay[0], BEGIN, END, Ptr(vec=fbv, pos=0), Ptr(vec=cov, pos=0), N, X, mw, bool(boost), igen, coin(path, F, w)]
    I = Auto(model.prog(), path, dict(model.BASE, **hooks(F, t1, t2, modulus(F), res0, hits, log)))
    o = model.guarded(lambda: I.call(key[0], key[1], None, [a if isinstance(a, Cell) else Cell(a) for a in args]))
    return finish(path, it, o, lay, F, N, V, cls, cells, words, wc, mw, boost, hits, union, log, [r for r in range(BEGIN, END)], setup, kind, weighted)


def finish(path, it, o, lay, F, N, V, cls, cells, words, wc, mw, boost, hits, union, log, active, setup, kind, weighted):
    oor = [e for e in path.events if e[0] == 'out-of-range']
    for e in oor:
        if e[1].lstrip('-').isdigit():
            return [('C08', 'bad', 'element %s outside of the row, the sample or the vectors involved is accessed at %s' % (e[1], e[2][:120]))]
    b = behave.outcome_bad(o, path)
    if b:
        return [('C08',) + tuple(b)]
    st, res = post(path, lay, F, cells, words, wc, lambda r: r in active)
    if st is None:
        return res
    got, pw, gw = st
    if 'init' in log:
        res.append(('C02', 'bad', 'training re-seeds the generator at %s' % log['init']))
    for r in active:
        fb, co = setup[r]
        x, lowered = judge(path, kind, lay, F, r, fb, co, boost, V, N, cls, cells, got, hits, union)
        res += x
        if gw is not None and weighted:
            res.append(wjudge(path, r, fb, co, wc[r], gw[r], mw))
    if gw is not None and weighted:
        for r in range(CLAUSES):
            if r not in active:
                s = same(path, gw[r], wc[r])
                res.append(('C08', 'ok' if s else 'und' if s is None else 'bad', 'the weight of clause %d, which does not take part, is modified' % r))
                res.append(('C04', 'ok' if s else 'und' if s is None else 'bad', 'the weight of clause %d, which gets no feedback, is modified' % r))
    if pw is not None:
        res += mask(path, lay, F, got, pw, range(2 * CLAUSES))
    return res


def reg(path, it, union):
    """begin/end of the range, one update; which clause is hit is up to the kernel"""
    _, kind, w, F, ncase, wcase, boost, shift, hits, res0, err, co, span, bm = it
    weighted = wcase is not None
    key = kernels('regressor')[kind]
    lay = layout(path, kind, w, F, weighted)
    N, V = numbers(path, w, ncase)
    mw, wts = maxweights(path, wcase) if weighted else (5, None)
    X, t1, t2, cells, words, wc, cls = fill(path, lay, kind, F, V, wts, shift, False, N)
    b, e = span
    n = e - b
    T = 100
    # squared error: n * (err / T)^2 within [0.5, 1.5) unless there is a single clause
    mag = 100 if n == 1 else int(100 / n**0.5)
    resp = -mag if err < 0 else mag if err > 0 else 0
    log = {}
    cov = votes.arr([co] * CLAUSES, votes.CHARS)
    igen = Obj('basic_IRNG<>', {'index': Cell(0)})
    hk = hooks(F, t1, t2, modulus(F, n), res0, hits, log)
    hk['binomial'] = hk['Tsetlini::binomial'] = lambda I, f, this, a: 1
    args = [lay[0], b, e, Ptr(vec=cov, pos=0), N, resp, X, mw, lossfn(path), bool(bm), bool(boost), igen, T, coin(path, F, w)]
    I = Auto(model.prog(), path, dict(model.BASE, **hk))
    o = model.guarded(lambda: I.call(key[0], key[1], None, [a if isinstance(a, Cell) else Cell(a) for a in args]))
    fb = 1 if err < 0 else -1 if err > 0 else 0
    setup = [(fb, co)] * CLAUSES
    oor = [x for x in path.events if x[0] == 'out-of-range' and x[1].lstrip('-').isdigit()]
    if oor or behave.outcome_bad(o, path):
        return finish(path, it, o, lay, F, N, V, cls, cells, words, wc, mw, boost, hits, union, log, range(b, e), setup, kind, weighted)
    # the clause that was picked: the first whose rows or weight differ, else all alternatives are equivalent
    ts, m, kr, pol, pr = lay
    got = [c.get() for _, c in m.cell.get().f['m_v'].get().cells]
    gw = [c.get() for _, c in (ts.get().f['weights'].get().cells or [])]
    gp = [c.get() for _, c in pol.get().f['m_v'].get().cells] if pol is not None else None
    diff = []
    for r in range(CLAUSES):
        d = any(got[kr[2 * r + h] + k] is not cells[kr[2 * r + h] + k] and same(path, got[kr[2 * r + h] + k], cells[kr[2 * r + h] + k]) is not True for h in (0, 1) for k in range(F))
        if d or weighted and r < len(gw) and same(path, gw[r], wc[r]) is not True:
            diff.append(r)
    if fb == 0 or (fb, co) == (-1, 0):
        active = []
        union.add(('none',))
    else:
        active = [r for r in diff if b <= r < e][:1]
        if not active:
            # nothing changed: admissible only if an update of some clause of the range changes nothing
            active = list(range(b, e)) if n == 1 else []
            if n > 1:
                return [('C02', 'und', 'no clause changed')] if False else finish(path, it, o, lay, F, N, V, cls, cells, words, wc, mw, boost, hits, union, log, [], setup, kind, weighted)
        else:
            union.add(('hit', active[0]))
    setup2 = [(fb, co) if r in active else (0, 0) for r in range(CLAUSES)]
    return finish(path, it, o, lay, F, N, V, cls, cells, words, wc, mw, boost, hits, union, log, active, setup2, kind, weighted)


# ------------------------------------------------------------------ C30: how many clauses of a regressor are updated, and which
VOL = [100, 90, 70, 45, 30, 20, 12, 5, 1, 0]


def volume(path, it):
    """suppressing updates of true clauses: each takes one from the weight of the clause it hits"""
    _, kind, b, e, err, bm, small, r0 = it
    n = e - b
    F = 3
    key = kernels('regressor')[kind]
    lay = layout(path, kind, 'signed char', F, True)
    ts, m, kr, pol, pr = lay
    X, t1, t2, cells, words, wc, cls = fill(path, lay, kind, F, {'min': -50, 'low': -20, '-1': -1, '0': 0, 'high': 20, 'max': 49}, [1000], 3, False, 50)
    P = (err / 100.0) ** 2
    lim = n * P * (2**32 - 1)
    # draws on one side of the probability
    lo, hi = (0, 2**32 - 1) if small == 2 else (0, int(lim * 0.98)) if small else (int(lim * 1.02) + 1, 2**32 - 1)
    M = modulus(n)
    log = {}

    def rand(I, f, this, args):
        k = log['draws'] = log.get('draws', 0) + 1
        q = atom('q%d' % k)
        I.p.iv[q] = (-(-(lo - r0) // M) if lo else 0, (hi - r0) // M)
        return unlin(Lin(r0, {q: M}))

    def binomial(I, f, this, args):
        log['binomial'] = [a.get() for a in args[:2]]
        return min(2, n)
    hk = dict(hooks(F, t1, t2, 1, 0, 1, log), **{'BasePRNG::rand': rand, 'Tsetlini::binomial': binomial, 'binomial': binomial})
    args = [ts, b, e, Ptr(vec=votes.arr([1] * CLAUSES, votes.CHARS), pos=0), 50, err, X, 10**6, lossfn(path), bool(bm), False, Obj('basic_IRNG<>', {'index': Cell(0)}), 100, coin(path, F, 'x')]
    I = Auto(model.prog(), path, dict(model.BASE, **hk))
    o = model.guarded(lambda: I.call(key[0], key[1], None, [a if isinstance(a, Cell) else Cell(a) for a in args]))
    bad = behave.outcome_bad(o, path)
    if bad:
        return [('C30',) + tuple(bad)], None
    gw = [c.get() for _, c in (ts.get().f['weights'].get().cells or [])]
    if len(gw) != CLAUSES or not all(isinstance(x, int) for x in gw):
        return [('C30', 'und', 'weights are not decided')], None
    hit = [1000 - x for x in gw]
    res = []
    if bm:
        want = min(2, n)
        if 'binomial' in log:
            N, p = log['binomial']
            N, p = kern.unwrap(N), kern.unwrap(p)
            ok = N == n and isinstance(p, float) and abs(p - P) < 1e-4
            res.append(('C30', 'ok' if ok else 'und' if not isinstance(p, float) or not isinstance(N, int) else 'bad', 'the number of updates is drawn for %s clauses with probability %s instead of %d and %s' % (N, p, n, P)))
        else:
            return [('C30', 'und', 'no binomial draw')], None
    elif n * P >= 0.5:
        want = min(n, int(n * P + 0.5))
    else:
        want = 1 if small and err else 0
    res.append(('C30', 'ok' if sum(hit) == want else 'bad', '%d updates are made instead of %d (%d clauses, error %d of threshold 100, so loss %.4f)%s' % (sum(hit), want, n, err, P, ', drawn from a binomial' if bm else '')))
    out = [i for i, h in enumerate(hit) if h and not b <= i < e]
    res.append(('C30', 'bad' if out else 'ok', 'clause %s outside of the range is updated' % out))
    return res, [i for i, h in enumerate(hit) if h]


def vitems(tier):
    out = []
    for kind in ('bit', 'cls'):
        for b, e in ((0, 1), (2, 4), (1, 4), (3, 8), (0, 8)):
            for err in VOL:
                for bm in (0, 1):
                    if bm and err not in (100, 45, 5):
                        continue
                    n = e - b
                    for small in ((0, 1) if not bm and n * (err / 100.0) ** 2 < 0.5 and err else (1,)) :
                        if (err == 0 or n * (err / 100.0)**2 * 2**32 < 10**6) and small and not bm:
                            small = 0
                        for r0 in range(n):
                            out.append(('vol', kind, b, e, err, bm, small if not bm and n * (err / 100.0)**2 < 0.5 else 2, r0))
    return sorted(set(out))


def vitem(it):
    kind = it[1]
    key = kernels('regressor')[kind]
    where = '%s (%s)' % (model.where(*key), 'bit-packed' if kind == 'bit' else 'classic')
    out = {'n': 0, 'viol': [], 'und': [], 'hit': set(), 'got': 0}

    def go(p):
        return volume(p, it)
    try:
        for p, (rs, hit) in ai.explore(go, 200):
            for _, k, msg in rs:
                out['n'] += 1
                if k == 'bad': out['viol'].append((where, msg))
                elif k == 'und': out['und'].append('%s: %s %s' % (where, msg, it))
            if hit is not None:
                out['got'] += 1
                out['hit'] |= set(hit)
    except ai.PathLimit:
        out['und'].append('%s: path limit %s' % (where, it))
    return out


def volumes(tier):
    its = vitems(tier)
    n, viol, und = 0, [], []
    groups = {}
    for it, r in zip(its, model.parallel(its, vitem)):
        n += r['n']
        viol += r['viol']
        und += r['und']
        if it[4] == 100 and not it[5]:
            g = groups.setdefault(it[1:4], [set(), 0])
            g[0] |= set(r.get('hit', ()))
            if r['und']: g[1] += 1
    for (kind, b, e), (h, u) in groups.items():
        n += 1
        if u:
            und.append('reach of the choice of clauses %s %d..%d' % (kind, b, e))
        elif h != set(range(b, e)):
            viol.append(('choice of the clause to update (%s)' % ('bit-packed' if kind == 'bit' else 'classic'), 'clause %s of the range %d..%d is never chosen, whatever is drawn' % (sorted(set(range(b, e)) - h), b, e)))
    seen, vv = set(), []
    for w, m in viol:
        k = (w, m[:40])
        if k not in seen:
            seen.add(k)
            vv.append({'where': w, 'rule': 'feedback-volume', 'msg': m})
    return n, vv, und


# ------------------------------------------------------------------ work list
def items(tier):
    out = []
    full = tier == 'thorough'
    for kind in ('bit', 'cls'):
        sizes = {'bit': [1, 3, 63, 64, 65, 130] + ([2, 7, 127, 128, 129, 192, 200] if full else []), 'cls': [1, 2, 17, 40] + ([3, 16, 31, 32, 33, 64, 65, 129] if full else [])}[kind]
        for w in CAP:
            for F in sizes:
                big = F > 17
                if w != 'signed char' and big and F != 65 and not full:
                    continue
                for ncase in ('sym', 'max', 1, 2, 3):
                    if ncase == 3 and (w != 'signed char' or big):
                        continue
                    if big and ncase in (1, 2) and (w != 'signed char' or F != 65) and not full:
                        continue
                    for boost in (0, 1):
                        for shift in (range(24) if full or F <= 3 and ncase == 'sym' and w == 'signed char' else (0, 5, 10, 15) if F <= 17 else (0, 7)):
                            wcase = ['sym', 1, 2, None, 'max', 3][(shift + F + boost) % 6]
                            r0 = F if shift == 5 or F == 1 and shift == 6 else (shift * 7 + 1) % F if shift else F - 1
                            out.append(('clf', kind, w, F, ncase, wcase, boost, shift, shift % (2 if ncase == 'sym' else 3) + 1, r0))
    for kind in ('bit', 'cls'):
        for w in CAP:
            for F in ([1, 65, 66] if kind == 'bit' else [1, 17]) + ([3, 128, 130] if full else []):
                for ncase in ('sym', 'max', 1):
                    if w != 'signed char' and ncase == 1:
                        continue
                    for err in (-1, 1, 0):
                        for co in (0, 1):
                            for boost in (0, 1):
                                if boost and (err, co) != (-1, 1):
                                    continue
                                for span in ((2, 3), (1, 4), (3, 8)):
                                    if span != (2, 3) and (w != 'signed char' or ncase != 'sym' or F == 1):
                                        continue
                                    n = span[1] - span[0]
                                    rs = range(3) if n == 1 else range(n + 1)
                                    for shift in rs:
                                        wcase = ['sym', None, 2, 'max', 1, 3][(shift + F + co + 2 * boost) % 6]
                                        out.append(('reg', kind, w, F, ncase, wcase, boost, shift * 5 + 1, 1 + (shift & 1), shift, err, co, span, shift & 1))
    # every literal is reachable by the sparse decrement: one residue after the other
    for F in (3, 65):
        for r0 in range(F):
            out.append(('cover', 'bit', 'signed char', F, 'sym', None, 0, 1, 1, r0))
    return out


def item(it):
    out = {'n': 0, 'viol': [], 'und': [], 'res': {}, 'kernel': (it[0] if it[0] == 'reg' else 'clf', it[1]), 'union': None}
    kind, w, F = it[1], it[2], it[3]
    key = kernels('regressor' if it[0] == 'reg' else 'classifier')[kind]
    where = '%s (%s, %s counters, %d features)' % (model.where(*key), 'bit-packed' if kind == 'bit' else 'classic', w, F)
    union = set()
    und0 = []
    res = out['res']

    def go(p):
        return reg(p, it, union) if it[0] == 'reg' else clf(p, ('clf',) + it[1:], union)
    try:
        for p, rs in ai.explore(go, 200):
            for t in rs:
                prop, k, msg = t[:3]
                hyp = t[3] if len(t) > 3 else 0
                a = res.setdefault((prop, hyp), {'ok': 0, 'bad': [], 'und': []})
                if k == 'ok':
                    a['ok'] += 1
                elif k == 'bad':
                    if len(a['bad']) < 4: a['bad'].append((where, msg))
                elif k == 'und':
                    if len(a['und']) < 4: a['und'].append('%s: %s [%s]' % (where, msg, it))
    except ai.PathLimit:
        res.setdefault(('C02', 0), {'ok': 0, 'bad': [], 'und': []})['und'].append('%s: path limit %s' % (where, it))
    except ai.Imprecise as e:
        res.setdefault(('C02', 0), {'ok': 0, 'bad': [], 'und': []})['und'].append('%s: %s %s' % (where, e, it))
    out['union'] = sorted(union, key=str)
    return out


_memo = {}


def results(tier, prop):
    """(obligations, violations, undecided)"""
    its = items(tier)
    n, viol, und = 0, [], []
    hyp = {}
    cover = {}
    if tier not in _memo:
        _memo[tier] = model.parallel(its, item)
    for it, r in zip(its, _memo[tier]):
        und += [u for u in r['und']]
        if not r.get('res'):
            continue
        for (p, h), a in r['res'].items():
            if p != prop:
                continue
            if h == 0:
                n += a['ok'] + len(a['bad']) + len(a['und'])
                viol += a['bad']
                und += a['und']
            else:
                z = hyp.setdefault(r['kernel'], {}).setdefault(h, {'ok': 0, 'bad': [], 'und': []})
                z['ok'] += a['ok']
                z['bad'] += a['bad']
                z['und'] += a['und']
        if it[0] == 'cover' and prop == 'C02':
            c = cover.setdefault(it[3], [set(), 0, r['res']])
            c[0] |= {tuple(x) for x in r['union']}
            if any(a['und'] for a in r['res'].values()):
                c[1] += 1
    for kn, hs in hyp.items():
        best = min(hs.values(), key=lambda z: (len(z['bad']), len(z['und'])))
        n += best['ok'] + len(best['bad']) + len(best['und'])
        viol += best['bad']
        und += best['und']
    for F, (u, un, _) in cover.items():
        n += 1
        if un:
            und.append('reach of the sparse decrement, %d features' % F)
            continue
        miss = [(h, k) for h in (0, 1) for k in range(F) if (h, k) not in u]
        # a counter at its minimum cannot show a decrement
        miss = [m for m in miss if not _atmin(F, m)]
        if miss:
            viol.append(('sparse decrement of a false clause (bit-packed, %d features)' % F, 'the %s counter of literal %d is never decreased, whatever is drawn' % (('positive', 'negated')[miss[0][0]], miss[0][1])))
    seen, vv = set(), []
    for w, m in viol:
        k = (w.split(' (')[0], m[:30])
        if k not in seen:
            seen.add(k)
            vv.append({'where': w, 'rule': 'update-table', 'msg': m})
    return n, vv, und


def _atmin(F, m):
    h, k = m
    setup = SETUP2
    r = [i for i in range(BEGIN, END) if setup[i] == (1, 0)][0]
    return classes(k, r, 1, False)[3 + h] == 'min'


def run(prop, tier):
    import initial
    if prop == 'C30':
        n, viol, und = volumes(tier)
        return dict(coverage={'obligations': n, 'discharged': n - len(und) - len(viol), 'checker_cmd': 'checks/run.py %s %s' % (prop, tier), 'trusted_base': ['clang 18 front end', 'interpreter checks/ai.py, checks/lazy.py']},
                    violations=viol, undecided=und, instances=n, floor=500, assumptions=['squared error loss; errors and clause ranges from a fixed list, draws classified by their residues and by the side of the probability they fall on'])
    n, viol, und = results(tier, prop)
    m, v2, u2 = initial.results(tier, prop)
    if prop == 'C08':
        m3, v3, u3 = clause.access(tier)
        m, v2, u2 = m + m3, v2 + v3, u2 + u3
    cov = {'obligations': n + m, 'discharged': n + m - len(und) - len(viol) - len(u2) - len(v2), 'checker_cmd': 'checks/run.py %s %s' % (prop, tier),
           'trusted_base': ['clang 18 front end', 'interpreter checks/ai.py, checks/lazy.py'], 'initial_state_obligations': m, 'update_obligations': n}
    return dict(coverage=cov, violations=viol + v2, undecided=und + u2, instances=n + m, floor=5000,
                assumptions=['coin tosses in {0,1}, any combination', 'numbers of features: 1, around one and two words; thorough: more', 'the mask mirrors the signs before the step (initialisation and every earlier step: the same check)'])

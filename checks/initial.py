"""What a freshly initialised model contains: counter range and width (C01), include mask (C03), clause weights (C04), sizes (C08)."""
import ai, vt, model, scen, kern, behave, votes, lazy, params, solve
from ai import Cell, Vec, Ptr, Sym, Obj, Word, Lin, term, atom

INT_MAX = 2**31 - 1
CAP = {'signed char': 127, 'short': 32767, 'int': INT_MAX}
STATES = [(1, 1), (2, 100), (126, 127), (128, 128), (129, 255), (256, 32766), (32767, 32767), (32768, 32768), (32769, 65535), (65536, INT_MAX - 1), (INT_MAX, INT_MAX)]


class Init(lazy.Lazy):
    EXPLICIT = 10**5


def start(path, est, vals, F, L, rand):
    """initialize_state of a new estimator; rand(k): the k-th number the generators hand out"""
    path.auto = True
    try:
        e = scen.unfitted(path, est, vals)
    finally:
        path.auto = False
        path.memo.clear()
        path.events.clear()
    mp = scen.state(e).f['m_params'].get()
    mp.d['number_of_features'] = Cell(ai.Var('int', F))
    if scen.is_clf(est):
        mp.d['number_of_labels'] = Cell(ai.Var('int', L))
    n = [0]

    def h(I, f, this, args):
        n[0] += 1
        return rand(n[0] - 1)
    I = Init(model.prog(), path, dict(model.BASE, **{'BasePRNG::rand': h, 'BasePRNG::init': lambda I, f, this, args: None}))
    tu, i = scen.fn_for('Tsetlini::initialize_state', scen.EST[est][1])
    o = model.guarded(lambda: I.call(tu, i, None, [scen.state_cell(e)]))
    o.interp, o.draws = I, n[0]
    return e, o


def pattern(k):
    return (k * 11 + k // 3) & 7


def contents(path, est, weighted, F, track, over=()):
    v = atom('draw')
    path.iv[v] = (0, 2**32 - 1)
    path.native = True
    vals = {'number_of_clauses_per_label' if scen.is_clf(est) else 'number_of_regressor_clauses': 4, 'weighted': weighted}
    vals.update(over)
    e, o = start(path, est, vals, F, 2, lambda k: v if k == track else pattern(k))
    return e, o


def tracked_item(it):
    """counters within [-1, 0], mask equal to their signs, weights 0, container sizes"""
    _, est, weighted, F, track, ct = it
    out = {'n': 0, 'viol': [], 'und': [], 'prop': []}
    where = '%s, initialisation (%d features, %s, %s)' % (est, F, ct, 'weighted' if weighted else 'unweighted')

    def go(path):
        e, o = contents(path, est, weighted, F, track, {'counting_type': ct, 'number_of_states': 100})
        b = behave.outcome_bad(o, path)
        if b:
            return [b + ('C01',)] if len(b) == 2 else [b]
        st = scen.state(e)
        ts = st.f['ta_state'].get()
        M = ts.f['matrix'].get()
        m = M.cell.get()
        rows, cols = m.f['m_nrows'].get(), m.f['m_ncols'].get()
        want = 8 if scen.is_clf(est) else 4
        res = []
        res.append(('C08', 'ok' if (rows, cols) == (want, F) else 'bad', 'the counter matrix has %s rows and %s columns instead of %d and %d' % (rows, cols, want, F)))
        if (rows, cols) != (want, F):
            return res
        mv = m.f['m_v'].get()
        kr = rowoff(path, M.alt, M.cell, rows)
        pol = ts.f.get('polarity')
        if pol is not None:
            pm = pol.get()
            pv = pm.f['m_v'].get()
            pr = rowoff(path, 'basic_bit_matrix<unsigned long>', pol, rows)
            res.append(('C08', 'ok' if (pm.f['m_nrows'].get(), pm.f['m_ncols'].get()) == (rows, cols) else 'bad', 'the include mask has another shape than the counters'))
        for r in range(rows):
            for c in range(F):
                x = mv.cells[kr[r] + c][1].get()
                lo, hi = path.ival(x) if not isinstance(x, bool) else (0, 0)
                if isinstance(x, int) or lo >= -1 and hi <= 0:
                    ok = -1 <= x <= 0 if isinstance(x, int) else True
                    res.append(('C01', 'ok' if ok else 'bad', 'counter (%d, %d) starts at %s' % (r, c, x)))
                else:
                    A = solve.witness(path, lambda A: not -1 <= solve.ev(x, A) <= 0, (x,))
                    res.append(('C01', 'bad' if A else 'und', 'counter (%d, %d) starts at %s' % (r, c, ai.show(term(x)))))
                if pol is not None:
                    w = pv.cells[pr[r] + c // 64][1].get()
                    g = (w >> (c % 64) & 1) if isinstance(w, int) else 1 if w.k1 >> (c % 64) & 1 else 0 if w.k0 >> (c % 64) & 1 else None
                    s = path.known('>=', x, 0)
                    if s is None and lo == hi:
                        s = lo >= 0
                    if s is None or g is None:
                        # sign not decided on this path although the mask bit is fixed: both signs possible?
                        A = g is not None and solve.witness(path, lambda A: (solve.ev(x, A) >= 0) != bool(g), (x,))
                        res.append(('C03', 'bad' if A else 'und', 'mask bit (%d, %d) is %s for the counter %s' % (r, c, g, ai.show(term(x)))))
                    else:
                        res.append(('C03', 'ok' if int(s) == g else 'bad', 'mask bit (%d, %d) is %d for a counter that is %s' % (r, c, g, 'non-negative' if s else 'negative')))
        w = ts.f['weights'].get()
        n = want // 2 if weighted else 0
        res.append(('C04', 'ok' if w.size == n else 'bad', 'there are %s clause weights instead of %d' % (w.size, n)))
        if w.size == n:
            for k in range(n):
                x = w.cells[k][1].get() if w.cells is not None else None
                res.append(('C04', 'ok' if x == 0 else 'und' if x is None or not isinstance(x, int) else 'bad', 'weight %d starts at %s (the stored value is the weight minus one)' % (k, x)))
        return res
    collect(out, where, go)
    return out


def collect(out, where, go):
    try:
        for p, res in ai.explore(go, 3000):
            for t in res:
                if len(t) == 2 or t[0] in ('bad', 'und', 'ok'):
                    t = ('C01', t[0], t[1])
                prop, k, msg = t
                out['prop'].append(prop)
                if k == 'bad':
                    out['viol'].append((prop, {'where': where, 'rule': 'initial-state', 'msg': msg}))
                elif k == 'und':
                    out['und'].append((prop, '%s: %s' % (where, msg)))
    except ai.PathLimit:
        out['und'].append(('C01', '%s: path limit' % where))


def rowoff(path, cls, cell, rows):
    import clause
    return [clause.rowptr(path, cls, cell, r).pos for r in range(rows)]


def width_item(it):
    """the counter type chosen holds -N .. N - 1"""
    _, est, ct, lo, hi = it
    out = {'n': 0, 'viol': [], 'und': [], 'prop': []}
    where = '%s, counting_type %s, number_of_states %s' % (est, ct, lo if lo == hi else '%d..%d' % (lo, hi))

    def go(path):
        N = lo
        if lo != hi:
            N = atom('N')
            path.iv[N] = (lo, hi)
        e, o = start(path, est, {'counting_type': ct, 'number_of_states': N, 'number_of_clauses_per_label' if scen.is_clf(est) else 'number_of_regressor_clauses': 4}, 1, 2, pattern)
        if o.kind != 'ret':
            b = behave.outcome_bad(o, path)
            return [('C20',) + tuple(b)] if b else []
        M = scen.state(e).f['ta_state'].get().f['matrix'].get()
        t = M.alt.split('<')[-1].rstrip('>')
        if t not in CAP:
            return [('C01', 'und', 'counter type %s' % M.alt)]
        a, b = path.ival(N) if not isinstance(N, int) else (N, N)
        res = [('C01', 'ok' if b <= CAP[t] + 1 else 'bad', 'counters of type %s cannot hold -%d .. %d' % (t, b, b - 1))]
        return res
    collect(out, where, go)
    return out


def items(tier):
    out = []
    for est in params.ESTS:
        bits = est.endswith('bitwise')
        rows = 8 if scen.is_clf(est) else 4
        for F in ((1, 3, 65) if bits else (1, 3)) if tier != 'thorough' else (1, 3, 64, 65, 130):
            tr = {0, F - 1, F, rows * F - 1, (rows // 2) * F + F // 2}
            for t in sorted(tr):
                for w in (False, True):
                    for ct in ('int8',) if F > 1 else ('int8', 'int16', 'int32', 'auto'):
                        out.append(('tracked', est, w, F, t, ct))
        for ct in params.COUNTING:
            for lo, hi in STATES:
                out.append(('width', est, ct, lo, hi))
    return out


def item(it):
    return tracked_item(it) if it[0] == 'tracked' else width_item(it)


def results(tier, want):
    """(obligations, violations, undecided) of the property"""
    its = [i for i in items(tier) if not (i[0] == 'width' and want not in ('C01', 'C20') or i[0] == 'tracked' and (want == 'C20' or want == 'C03' and i[1].endswith('classic')))]
    viol, und, n, seen = [], [], 0, set()
    for r in model.parallel(its, item):
        n += sum(p == want for p in r.get('prop', ()))
        und += [u[1] if isinstance(u, tuple) else u for u in r['und'] if not isinstance(u, tuple) or u[0] == want]
        for p, v in r['viol']:
            if p == want and (v['where'], v['msg'][:40]) not in seen:
                seen.add((v['where'], v['msg'][:40]))
                viol.append(v)
    return n, viol, und

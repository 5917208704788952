"""C10, C14, C15, C16, C24, C25: behaviour of the public methods over an abstract model (kernels uninterpreted)."""
import ai, vt, model, scen, params, kern, inputs
from ai import Cell, Vec, Ptr, Sym, Obj, Map, Var, Ei, Opt, Js, Lin, term

CACHE = {'clause_output', 'label_sum', 'feedback_to_clauses'}


def prepared(path, est, fit, r=5, L=2, over=None, weighted=None, q=0, n=2):
    """(shape, estimator): concrete small dimensions, symbolic contents, recognisable scratch contents"""
    w = scen.World(path)
    w.n = n
    sh = Small(w, est, r, n, q)
    vals = {}
    if over:
        vals.update(over)
    clf = scen.is_clf(est)
    vals.setdefault('number_of_clauses_per_label' if clf else 'number_of_regressor_clauses', 4)
    if weighted is not None:
        vals['weighted'] = weighted
    if fit:
        seed = vals.get('random_state')
        if seed is not None:
            vals['random_state'] = 7        # set-up draws must not be those of the call under analysis
        e = scen.fitted(path, est, sh.F, L, vals)
        if seed is not None:
            c = scen.state(e).f['m_params'].get().d['random_state'].get()
            c.cell.set(seed)
        mark_cache(scen.state(e))
    else:
        e = scen.unfitted(path, est, vals)
    path.perm = lambda n: [(i + 1) % n for i in range(n)]
    path.argmode = True
    if getattr(path, 'mixed', False):
        path.auto = 'alt'
    return w, sh, e


def mark_cache(st, tag='scratch'):
    c = st.f['cache'].get()
    for k, v in c.f.items():
        v = v.get()
        if isinstance(v, Vec) and v.size != 0:
            v.content, v.cells = Sym(tag, k), None


class Small(scen.Shape):
    def __init__(self, w, est, r=5, n=2, q=0):
        self.w, self.est, self.concrete = w, est, True
        self.N, self.nreps = n, list(range(n))
        self.kind = scen.EST[est][2]
        self.r = r
        if self.kind == 'vec':
            self.F, self.freps = 5, list(range(5))
        else:
            self.q, self.qreps = q, list(range(q))
            self.F = 64 * q + r

    def labels(self, vals):
        return Vec(self.N, [(i, Cell(v)) for i, v in enumerate(vals)], None, scen.INTVEC)


def leaves(t, head):
    """subterms of t with the given head"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, Sym):
            if x in seen:
                continue
            seen.add(x)
            if x.t[0] == head:
                out.append(x)
            st.extend(x.t[1:])
        elif isinstance(x, Lin):
            st.extend(x.k)
        elif isinstance(x, tuple):
            st.extend(x)
    return out


def outcome_bad(o, path):
    if o.kind == 'imprecise':
        return 'und', o.v
    if o.kind in ('throw', 'abort'):
        return 'bad', 'ends with %s %s' % (o.kind, o.v)
    if any(ev[0] == 'out-of-range' for ev in path.events):
        return 'bad', 'accesses an element outside its sequence: %s' % (path.events,)
    return None


def changed(before, after):
    return [k for k in before if before[k] is not after[k] and before[k] != after[k]]


# ------------------------------------------------------------------ C10
def readers(est):
    c = [('predict', 'sample'), ('predict', 'batch'), ('read_params', ''), ('clone_state', ''), ('to_json_string', ''), ('operator==', '')]
    if scen.is_clf(est):
        c += [('decision_function', 'sample'), ('decision_function', 'batch'), ('evaluate', 'batch')]
    return c


def invoke(path, est, e, name, form, sh, hooks):
    if name == 'to_json_string':
        return model.run_fn(path, scen.fn_for('Tsetlini::to_json_string', scen.EST[est][1]), [scen.state_cell(e)], hooks)
    if name == 'operator==':
        other = Cell(ai.clone(scen.state(e)))
        return model.run_fn(path, scen.fn_for('Tsetlini::operator==', scen.EST[est][1]), [scen.state_cell(e), other], hooks)
    if name in ('read_params', 'clone_state'):
        return model.run_fn(path, scen.method(est, name), [], hooks, this=Cell(e))
    X = sh.X()
    if form == 'sample':
        X = X.cells[0][1].get()
    args = [X]
    if name == 'evaluate':
        args.append(sh.labels([0, 1]))
    return model.run_fn(path, scen.method(est, name, scen.single if form == 'sample' else scen.batch), args, hooks, this=Cell(e))


def c10_items(tier):
    return [(est, name, form, w, st) for est in scen.EST for name, form in readers(est) for w in (False, True) for st in ('fitted', 'unfitted')]


def resultterm(o):
    v = o.v
    if isinstance(v, Ptr) and v.cell is not None:       # a state handed out: its scratch is not part of the result
        st = v.cell.get()
        if isinstance(st, Obj) and 'cache' in st.f:
            return Sym('state', *[term(st.f[k]) for k in scen.PARTS])
    return term(v)


def c10_scen(path, item):
    est, name, form, w, st = item
    _, sh, e = prepared(path, est, st == 'fitted', weighted=w)
    before = scen.snap(e)
    o = invoke(path, est, e, name, form, sh, kern.HOOKS)
    b = outcome_bad(o, path)
    if b:
        return b
    ch = changed(before, scen.snap(e))
    if ch:
        return 'bad', 'changes %s of the model' % ', '.join(ch)
    t = leaves(resultterm(o), 'scratch')
    if t:
        return 'bad', 'the result depends on earlier contents of the scratch data (%s)' % t[0].t[1]
    t1 = resultterm(o)
    o2 = invoke(path, est, e, name, form, sh, kern.HOOKS)
    b = outcome_bad(o2, path)
    if b:
        return b
    if resultterm(o2) != t1:
        return 'bad', 'a repeated call gives a different result'
    return 'ok', None


# ------------------------------------------------------------------ C14
def train_args(path, est, sh):
    clf = scen.is_clf(est)
    X = sh.X()
    y = sh.labels([1, 0]) if clf else sh.y(0, 5)
    return X, y


def c14_items(tier):
    out = []
    for est in scen.EST:
        for w in (False, True):
            for ep in ((1, 2) if tier == 'quick' else (0, 1, 2, 3)):
                for what in ('fit after fit', 'fit after other data', 'partial_fit continues', 'partial_fit first', 'partial_fit epochs'):
                    if what == 'partial_fit epochs' and ep != 2:
                        continue
                    for L in ((2, 3) if scen.is_clf(est) else (2,)):
                        out.append((est, what, w, ep, L))
    return out


def seeded_over(path):
    a = ai.atom('seed')
    path.iv[a] = (0, 2**32 - 1)
    return {'random_state': a}


def diff(a, b, where=''):
    """first difference of two snapshots"""
    if a == b:
        return None
    if isinstance(a, Sym) and isinstance(b, Sym) and a.t[0] == b.t[0] and len(a.t) == len(b.t) and a.t[0] in ('obj', 'field', 'map', 'entry', 'var', 'vec', 'at'):
        for x, y in zip(a.t[1:], b.t[1:]):
            r = diff(x, y, where + ('.%s' % a.t[1] if a.t[0] in ('field', 'entry') else ''))
            if r:
                return r
    return where or '.'


def gendiff(b, a):
    return [k for k in b if b[k] != a[k]]


def c14_scen(path, item):
    est, what, w, ep, L = item
    clf = scen.is_clf(est)
    over = seeded_over(path)
    which = 'fit'
    path.mixed = est.endswith('bitwise') and what != 'partial_fit continues'
    if what == 'partial_fit continues':
        ww, sh, e = prepared(path, est, True, weighted=w, L=L, over=over)
        X, y = train_args(path, est, sh)
        inits = []

        def spy(I, f, this, args):
            inits.append(I.where())
            return NotImplemented
        before = scen.snap(e)
        hooks = dict(kern.HOOKS, **{'BasePRNG::init': spy, 'init': spy, 'initialize_state': spy, 'initialize': spy})
        path.calls = []
        o = scen.call_fit(path, est, e, 'partial_fit', X, y, L, ep, hooks)
        b = outcome_bad(o, path)
        if b:
            return b
        if scen.status(o) != 0:
            return 'bad', 'valid data for the trained model is rejected with status %s' % (scen.status(o),)
        if inits:
            return 'bad', 'partial_fit on a trained model initialises again (%s)' % inits[0]
        after = scen.snap(e)
        if 'm_params' in changed(before, after):
            return 'bad', 'partial_fit on a trained model changes the parameters'
        for part in ('ta_state', 'igen'):
            if ep and not leaves(after[part], 'trained'):
                return 'bad', '%s no longer depends on its trained value' % part
            if not ep and part == 'ta_state' and after[part] != before[part]:
                return 'bad', '%s changed without any epoch' % part
        n = len([c for c in path.calls if c[0].startswith('train_')])
        want = ep * sh.N * (2 if clf else 1)
        if n != want:
            return 'bad', '%d training steps instead of %d in %d epochs over %d samples' % (n, want, ep, sh.N)
        return 'ok', None
    if what == 'partial_fit epochs':
        # two epochs at once visit the samples like the epochs one after the other
        res = []
        iv0 = dict(path.iv)
        for how in ((2,), (1, 1)):
            path.iv = dict(iv0)
            path.reps = {}
            _, sh, e = prepared(path, est, True, weighted=w, L=L, over=over)
            X, y = train_args(path, est, sh)
            for n in how:
                o = scen.call_fit(path, est, e, 'partial_fit', X, y, L, n, kern.HOOKS)
                b = outcome_bad(o, path)
                if b:
                    return b
                if scen.status(o) != 0:
                    return 'bad', 'valid data rejected with status %s' % (scen.status(o),)
            res.append(scen.snap(e))
        ch = changed(res[0], res[1])
        return ('bad', 'training 2 epochs differs from training 1 epoch twice in %s' % ', '.join(ch)) if ch else ('ok', None)
    res = []
    iv0 = dict(path.iv)
    for fit in (False, True):
        path.iv = dict(iv0)
        path.reps = {}
        _, sh, e = prepared(path, est, fit, weighted=w, L=L, over=over)
        if fit and what == 'partial_fit first':
            # the reference: fit on an unfitted model
            _, sh, e = prepared(path, est, False, weighted=w, L=L, over=over)
        if fit and what == 'fit after other data':
            st = scen.state(e)
            _, _, e2 = prepared(path, est, True, weighted=w, L=L + 1, over=over, r=9)
            F2 = Small(scen.World(path), est, 9)
            e = e2
            _, sh, _ = prepared(path, est, False, weighted=w, L=L, over=over)
        X, y = train_args(path, est, sh)
        which = 'partial_fit' if what == 'partial_fit first' and not fit else 'fit'
        o = scen.call_fit(path, est, e, which, X, y, L, ep, kern.HOOKS)
        b = outcome_bad(o, path)
        if b:
            return b
        if scen.status(o) != 0:
            return 'bad', 'valid data rejected with status %s' % (scen.status(o),)
        res.append(scen.snap(e))
    ch = changed(res[0], res[1])
    if ch:
        kinds = set(x.t[1] for k in ch for x in leaves(res[1][k], 'trained')) | set('scratch ' + x.t[1] for k in ch for x in leaves(res[1][k], 'scratch'))
        ref = 'fit on it' if what == 'partial_fit first' else 'a fresh model'
        return 'bad', '%s: result differs from %s in %s%s' % (what, ref, ', '.join('%s%s' % (k, diff(res[0][k], res[1][k]) or '') for k in ch), (' (still depends on earlier %s)' % ', '.join(sorted(map(str, kinds)))) if kinds else '')
    return 'ok', None


# ------------------------------------------------------------------ parts of a state, position by position
def matrix_of(st):
    """(variant index, record) of the counters"""
    v = st.f['ta_state'].get().f['matrix'].get()
    return v.alt, v.cell.get()


def dims(m):
    ints = {k: c.get() for k, c in m.f.items() if not isinstance(c.get(), Vec)}
    return ints


def rowcells(I, m, cols):
    """terms of the used positions of a numeric or bit matrix, row by row"""
    v = m.f['m_v'].get()
    rows = m.f['m_nrows'].get() if 'm_nrows' in m.f else m.f['m_rows'].get()
    if not (isinstance(rows, int) and isinstance(v.size, int)):
        raise ai.Imprecise('matrix dimensions %s x %s' % (rows, v.size))
    if rows == 0:
        return []
    stride = v.size // rows
    return [[term(I.at(v, r * stride + c).get()) for c in range(cols)] for r in range(rows)]


def parts(I, st):
    """the parts of a state that influence later behaviour, independent of padding: name -> term"""
    out = {}
    mp = st.f['m_params'].get()
    for k, c in sorted(mp.d.items()):
        out['parameter %s' % k] = term(c)
    alt, m = matrix_of(st)
    out['counter type'] = alt
    rows, cols = m.f['m_nrows'].get(), m.f['m_ncols'].get()
    out['matrix size'] = (term(rows), term(cols))
    for r, x in enumerate(rowcells(I, m, cols)):
        out['counters of row %d' % r] = tuple(x)
    ts = st.f['ta_state'].get()
    if 'polarity' in ts.f:
        b = ts.f['polarity'].get()
        out['mask size'] = (term(b.f['m_nrows'].get()), term(b.f['m_ncols'].get()))
        for r, x in enumerate(rowcells(I, b, (cols + 63) // 64)):
            out['include mask of row %d' % r] = tuple(x)
    w = ts.f['weights'].get()
    out['number of weights'] = term(w.size)
    for i in range(w.size):
        out['weight %d' % i] = term(I.at(w, i).get())
    for g in ('igen', 'fgen'):
        o = st.f[g].get()
        out['%s index' % g] = term(o.f['index'])
        for a in ('aRES', 'aMT'):
            v = o.f[a].get()
            out['%s %s' % (g, a)] = v.content if v.cells is None else term(v)
    return out


def samestate(I, a, b):
    pa, pb = parts(I, a), parts(I, b)
    return [k for k in list(pa) + [k for k in pb if k not in pa] if pa.get(k) != pb.get(k)]


def storage(v, seen=None):
    """identities of everything mutable reachable from a value"""
    seen = {} if seen is None else seen
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, Cell):
            if id(x) in seen:
                continue
            seen[id(x)] = x
            st.append(x.get())
        elif isinstance(x, Obj):
            st.extend(x.f.values())
        elif isinstance(x, Map):
            seen[id(x)] = x
            st.extend(x.d.values())
        elif isinstance(x, Vec):
            seen[id(x)] = x
            if x.cells is not None:
                st.extend(c for _, c in x.cells)
        elif isinstance(x, Var):
            st.append(x.cell)
        elif isinstance(x, (Opt,)):
            if x.has:
                st.append(x.cell)
        elif isinstance(x, Ptr):
            if x.cell is not None:
                st.append(x.cell)
            if x.vec is not None:
                st.append(x.vec)
    return seen


def model_over(est, ns=100):
    return {'number_of_states': ns}


NS = {'int8': 100, 'int16': 1000, 'int32': 100000}


# ------------------------------------------------------------------ C15
def c15_items(tier):
    out = []
    for est in scen.EST:
        for w in (False, True):
            for st in ('fitted', 'unfitted'):
                for how in ('clone_state', 'from state', 'moved', 'move assigned'):
                    for ns in (('int8',) if st == 'unfitted' else NS):
                        out.append((est, how, w, st, ns))
        for w in (False, True):
            for d in eq_diffs(est, w):
                out.append((est, '==', w, 'fitted', d))
            out.append((est, '==', w, 'unfitted', 'nothing'))
    return out


def eq_diffs(est, w):
    ds = ['nothing', 'itself']
    for k, t in params.keys(est):
        ds.append('parameter %s' % k)
    ds += ['parameter missing', 'counter type', 'one row more', 'one column more']
    for r in ('first', 'mid', 'last'):
        for c in ('first', 'mid', 'last'):
            ds.append('counter %s %s' % (r, c))
            if est.endswith('bitwise'):
                ds.append('mask %s %s' % (r, c))
    if w:
        ds += ['weight first', 'weight mid', 'weight last', 'no weights']
    for g in ('igen', 'fgen'):
        ds += ['%s index' % g] + ['%s %s %s' % (g, a, p) for a in ('aRES', 'aMT') for p in ('first', 'mid', 'last')]
    return ds


def at3(n, p):
    return {'first': 0, 'mid': n // 2, 'last': n - 1}[p]


def change(path, I, est, st, d):
    """alter one part of the state; the new value certainly differs"""
    a = ai.atom('d')
    path.iv[a] = (0, 50)

    def pair(v, v2, pos):
        """v[pos] = d, v2[pos] = d + 1"""
        for x, val in ((v, a), (v2, ai.add(a, 1))):
            if x.cells is None:
                x.cells, x.content = [(i, Cell(Sym('elem', x.content, i))) for i in range(x.size)], None
            for i, c in x.cells:
                if i == pos:
                    c.set(val)
    o = Cell(ai.clone(st)).get()
    ts, to = st.f['ta_state'].get(), o.f['ta_state'].get()
    q = d.split()
    if d in ('nothing', 'itself'):
        return o
    if q[0] == 'parameter':
        mp = o.f['m_params'].get()
        if q[1] == 'missing':
            del mp.d['s']
            return o
        v = mp.d[q[1]].get()
        x = v.cell.get()
        ty = dict(params.keys(est))[q[1]]
        new = {'int': lambda: ai.add(x, 4), 'uint': lambda: 12345 if x != 12345 else 7, 'float': lambda: 77.5, 'bool': lambda: not x, 'str': lambda: 'int32' if q[1] == 'counting_type' else 'L1'}[ty]()
        if ty == 'bool' and isinstance(x, Sym):
            new = True
            st.f['m_params'].get().d[q[1]].set(Var(v.alt, False))
        if ty == 'str':
            st.f['m_params'].get().d[q[1]].set(Var(v.alt, 'auto' if q[1] == 'counting_type' else 'MSE'))
        if ty == 'float':
            st.f['m_params'].get().d[q[1]].set(Var(v.alt, 3.25))
        mp.d[q[1]].set(Var(v.alt, new))
        return o
    if q[0] in ('counter', 'mask') and q[1] != 'type':
        get = (lambda t: t.f['matrix'].get().cell.get()) if q[0] == 'counter' else (lambda t: t.f['polarity'].get())
        m, m2 = get(ts), get(to)
        rows, cols = m.f['m_nrows'].get(), m.f['m_ncols'].get()
        if q[0] == 'mask':
            cols = (cols + 63) // 64
        v, v2 = m.f['m_v'].get(), m2.f['m_v'].get()
        pair(v, v2, at3(rows, q[1]) * (v.size // rows) + at3(cols, q[2]))
        return o
    if d == 'counter type':
        v = to.f['matrix'].get()
        m = ai.clone(v.cell.get())
        for other in sorted(c for c in model.prog().records if c.startswith('basic_numeric_matrix<')):
            if other != m.cls:
                m.cls = other
                break
        alts = ALTS(path, I, st)
        to.f['matrix'].set(Var([x for x in alts if x != v.alt][0], m))
        return o
    if q[0] == 'one':
        m = to.f['matrix'].get().cell.get()
        f = 'm_nrows' if q[1] == 'row' else 'm_ncols'
        m.f[f].set(m.f[f].get() + 1)
        return o
    if q[0] == 'weight':
        v, v2 = ts.f['weights'].get(), to.f['weights'].get()
        pair(v, v2, at3(v.size, q[1]))
        return o
    if d == 'no weights':
        to.f['weights'].set(Vec(0, [], None, to.f['weights'].get().ty))
        return o
    g, g2 = st.f[q[0]].get(), o.f[q[0]].get()
    if q[1] == 'index':
        g.f['index'].set(a)
        g2.f['index'].set(ai.add(a, 1))
        return o
    v, v2 = g.f[q[1]].get(), g2.f[q[1]].get()
    for x in (v, v2):
        x.cells, x.content = [(i, Cell(1)) for i in range(v.size)], None
    pair(v, v2, at3(v.size, q[2]))
    return o


def ALTS(path, I, st):
    return variants()


def variants():
    t = None
    for r, rec in model.prog().records.items():
        if r.endswith('TAState::value_type') and rec:
            for f in rec.get('fields', []):
                if f[0] == 'matrix':
                    t = f[1]
    return ai.targs(t)


def c15_scen(path, item):
    est, how, w, fit, d = item
    over = {'number_of_states': NS.get(d, 100), 'counting_type': 'auto'}
    _, sh, e = prepared(path, est, fit == 'fitted', weighted=w, over=over)
    P = model.prog()
    st = scen.state(e)
    I = ai.Models(P, path, dict(model.BASE))
    cls = 'Tsetlini::%s' % scen.EST[est][0]
    if how == '==':
        if fit == 'fitted':
            path.auto = False
        other = change(path, I, est, st, d)
        args = [Cell(st), Cell(st if d == 'itself' else other)]
        args[0] = scen.state_cell(e)
        if d == 'itself':
            args[1] = args[0]
        o = model.run_fn(path, scen.fn_for('Tsetlini::operator==', scen.EST[est][1]), args)
        b = outcome_bad(o, path)
        if b:
            return b
        if not isinstance(o.v, (bool, int)):
            return 'und', 'comparison gives %s' % (o.v,)
        if d in ('nothing', 'itself'):
            return ('ok', None) if o.v else ('bad', 'a state compares unequal to an identical one')
        return ('bad', 'states that differ in %s compare equal' % d) if o.v else ('ok', None)
    p0 = parts(I, st)
    if how == 'clone_state':
        o = model.run_fn(path, scen.method(est, 'clone_state'), [], this=Cell(e))
        b = outcome_bad(o, path)
        if b:
            return b
        if not isinstance(o.v, Ptr) or o.v.cell is None:
            return 'bad', 'hands out no state'
        new, newroot, oldroot = o.v.cell.get(), o.v.cell, scen.state_cell(e)
    else:
        key = ctor(cls, 'copy' if how == 'from state' else 'move')
        obj = I.default_obj(cls, False)
        if how == 'from state':
            arg = scen.state_cell(e)
            oldroot = arg
        else:
            arg, oldroot = Cell(e), None
        if how == 'move assigned':
            # assignment of a moved estimator to another one
            _, _, e2 = prepared(path, est, False, weighted=w, over={'number_of_states': 55})
            key = P.user_assign.get(cls)
            o = model.run_fn(path, asg(cls), [arg], this=Cell(e2)) if asg(cls) else None
            if o is None:
                I.assign_obj(Cell(e2), e, cls)
            else:
                b = outcome_bad(o, path)
                if b:
                    return b
            new = scen.state(e2)
            newroot = None
        else:
            o = model.run_fn(path, key, [arg], this=Cell(obj))
            b = outcome_bad(o, path)
            if b:
                return b
            new = scen.state(obj)
            newroot = scen.state_cell(obj)
    p1 = parts(I, new)
    ds = [k for k in list(p0) + [k for k in p1 if k not in p0] if p0.get(k) != p1.get(k)]
    if ds:
        return 'bad', 'the copy differs in %s' % ', '.join(ds[:4])
    if oldroot is not None and newroot is not None:
        a, b = storage(oldroot), storage(newroot)
        both = [x for i, x in a.items() if i in b]
        if both:
            return 'bad', 'the copy shares storage with the original (%s)' % (str(both[0])[:80],)
        if samestate(I, st, new):
            return 'bad', 'copying changes the original in %s' % ', '.join(samestate(I, st, new)[:3])
    if fit == 'fitted' and how != 'clone_state':
        c = new.f['cache'].get()
        for k, v in st.f['cache'].get().f.items():
            x, y = v.get(), c.f[k].get()
            if isinstance(x, Vec) and how == 'from state' and term(x.size) != term(y.size):
                return 'bad', 'scratch data %s of the copy has %s elements instead of %s' % (k, y.size, x.size)
    return 'ok', None


def asg(cls):
    c = [k for k in model.prog().find(cls + '::operator=')]
    return c[0] if c else None


def ctor(cls, kind):
    P = model.prog()
    last = cls.rsplit('::', 1)[-1]
    c = []
    for k in P.find(cls + '::' + last):
        pt = [k[0].types[x] for x in k[0].fns[k[1]]['pt']]
        if len(pt) != 1:
            continue
        if kind == 'move' and pt[0].endswith('&&') and ai.bare(pt[0]) == cls:
            c.append(k)
        if kind == 'copy' and 'EstimatorState<' in pt[0] or kind == 'copy' and 'State' in pt[0] and 'params' not in pt[0]:
            c.append(k)
    if len(c) != 1:
        raise vt.Broken('anchor %s(%s): %d definitions' % (cls, kind, len(c)))
    return c[0]


# ------------------------------------------------------------------ C16
def c16_items(tier):
    out = []
    for est in scen.EST:
        for w in (False, True):
            for ns in NS:
                for st in ('fitted', 'unfitted'):
                    for into in ('fresh', 'other', 'trained'):
                        if st == 'unfitted' and ns != 'int8':
                            continue
                        out.append((est, w, ns, st, into))
    return out


def c16_scen(path, item):
    est, w, ns, fit, into = item
    over = seeded_over(path)
    over['number_of_states'] = NS[ns]
    over['counting_type'] = 'auto'
    for k, t in params.keys(est):
        if t == 'float' and k == 's':
            over[k] = 2.25
    _, sh, e = prepared(path, est, fit == 'fitted', weighted=w, over=over)
    st = scen.state(e)
    T = scen.EST[est][1]
    before = scen.snap(e)
    docs = {}
    o = model.run_fn(path, scen.fn_for('Tsetlini::to_json_string', T), [scen.state_cell(e)], setup=lambda I: setattr(I, 'docs', docs))
    b = outcome_bad(o, path)
    if b:
        return b
    text = o.v
    over2 = {'number_of_states': 77, 'random_state': 99}
    _, _, e2 = prepared(path, est, into == 'trained', weighted=not w if into != 'fresh' else w, over=over2, L=3, r=9)
    o2 = model.run_fn(path, scen.fn_for('Tsetlini::from_json_string', T), [scen.state_cell(e2), text], setup=lambda I: setattr(I, 'docs', docs))
    b = outcome_bad(o2, path)
    if b:
        return b
    I = o2.interp
    st2 = scen.state(e2)
    ds = samestate(I, st, st2)
    if ds:
        p, q = parts(I, st), parts(I, st2)
        return 'bad', 'after loading, %s differs (%s -> %s)' % (', '.join(ds[:4]), str(p.get(ds[0]))[:80], str(q.get(ds[0]))[:80])
    if changed(before, scen.snap(e)):
        return 'bad', 'saving changes the state'
    ref = Cell(ai.clone(st))
    o3 = model.run_fn(path, scen.fn_for('Tsetlini::reset_state_cache', T), [ref])
    b = outcome_bad(o3, path)
    if b:
        return b
    c1, c2 = ref.get().f['cache'].get(), st2.f['cache'].get()
    for k in c1.f:
        if term(c1.f[k]) != term(c2.f[k]):
            return 'bad', 'after loading, scratch data %s is not rebuilt for the loaded model (%s instead of %s)' % (k, str(term(c2.f[k]))[:80], str(term(c1.f[k]))[:80])
    if fit == 'fitted':
        # and the scratch data has the dimensions of the model that was saved
        for k, v in st.f['cache'].get().f.items():
            x, y = v.get(), c2.f[k].get()
            if isinstance(x, Vec) and term(x.size) != term(y.size):
                return 'bad', 'after loading, scratch data %s has %s elements instead of %s' % (k, y.size, x.size)
    return 'ok', None


def label15(i):
    return 'Tsetlini::%s %s (%sweighted, %s model%s)' % (scen.EST[i[0]][0], i[1], '' if i[2] else 'un', i[3], ', ' + i[4] if i[1] != '==' else '')


def label16(i):
    return 'Tsetlini::to_json_string/from_json_string %s (%sweighted, %s counters, %s model, loaded into a %s state)' % (scen.EST[i[0]][0], '' if i[1] else 'un', i[2], i[3], i[4])


# ------------------------------------------------------------------ C24
FORCED = 77


def fallible(tu, f):
    """does the function hand back a status or an either of a status"""
    if not f.get('repo'):
        return None
    t = ai.bare(tu.types[f['ret']])
    if 'Tsetlini::StatusCode' not in t:
        return None
    if t.startswith('std::pair<'):
        return 'status'
    if t.startswith('neither::Either<') or 'Either<' in t[:40]:
        return 'either'
    return None


def c24_entries():
    out = []
    for est in scen.EST:
        fits = ['fit', 'partial_fit']
        for st in ('unfitted', 'fitted'):
            for m in fits:
                out.append((est, st, m, ''))
        meths = [('predict', 'sample'), ('predict', 'batch')]
        if scen.is_clf(est):
            meths += [('decision_function', 'sample'), ('decision_function', 'batch'), ('evaluate', 'batch')]
        for m, form in meths:
            out.append((est, 'fitted', m, form))
        out.append((est, '', 'factory', 'json'))
        out.append((est, '', 'factory', 'all'))
        out.append((est, '', 'factory', 'defaults'))
    return out


def c24_items(tier):
    return c24_entries()


def call24(path, item):
    est, st, m, form = item
    if m == 'factory':
        path.arm()
        if form == 'json':
            return params.from_json(path, est, Js('obj', {}))
        if form == 'defaults':
            return params.call_args(path, est, 'defaults', [])
        vals = params.sane(est)
        return params.call_args(path, est, 'all', [bool(vals[k]) if k == 'boost_true_positive_feedback' else vals[k] for k, _ in params.keys(est)])
    _, sh, e = prepared(path, est, st == 'fitted')
    X, y = train_args(path, est, sh)
    if m in ('fit', 'partial_fit'):
        path.mixed = True
        path.auto = 'alt'
        path.arm()
        return scen.call_fit(path, est, e, m, X, y, 2, 1, kern.HOOKS)
    path.arm()
    return invoke(path, est, e, m, form, sh, kern.HOOKS)


def c24_one(item):
    """every internal step that can fail is made to fail, one dynamic call at a time"""
    out = {'n': 0, 'viol': [], 'und': []}
    est, st, m, form = item
    where = 'make_%s (%s)' % (est, form) if m == 'factory' else 'Tsetlini::%s::%s%s on %s model' % (scen.EST[est][0], m, '/' + form if form else '', st)

    def attempt(k):
        """run with the k-th fallible call failing; returns (name of the call or None, outcome)"""
        res = []

        def go(path):
            path.mixed = m in ('fit', 'partial_fit')
            st = {'n': 0, 'name': None, 'on': False, 'outer': None}

            def icept(I, tu, f, this, args):
                if not st['on']:
                    return NotImplemented
                t = fallible(tu, f)
                if t is None:
                    return NotImplemented
                if st['outer'] is None or I.depth == 0:
                    st['outer'] = f['sq']
                    return NotImplemented
                if f['sq'].startswith('vtapi::'):
                    return NotImplemented
                n = st['n']
                st['n'] += 1
                if n != k:
                    return NotImplemented
                st['name'] = '%s called from %s' % (f['sq'], I.where())
                v = ai.mkpair(FORCED, 'forced')
                return v if t == 'status' else Ei(True, v)
            path.intercept = icept
            path.arm = lambda: st.update(on=True)
            try:
                o = call24(path, item)
            except ai.Imprecise as x:
                o = model.Outcome('imprecise', str(x))
            return st['name'], o
        for path, (name, o) in ai.explore(go, 60):
            res.append((name, o))
        return res
    k = 0
    while k < 80:
        res = attempt(k)
        if all(name is None for name, _ in res):
            break
        for name, o in res:
            if name is None:
                continue
            out['n'] += 1
            if o.kind == 'imprecise':
                out['und'].append('%s: %s: %s' % (where, name, o.v))
                continue
            if o.kind in ('throw', 'abort'):
                out['viol'].append(dict(where=where, rule='lost-status', msg='failure of %s ends with %s %s' % (name, o.kind, o.v)))
                continue
            c = scen.status(o)
            if c == 0 or c is None:
                out['viol'].append(dict(where=where, rule='lost-status', msg='success is reported although %s failed' % name))
            elif c != FORCED:
                out['viol'].append(dict(where=where, rule='lost-status', msg='the status of %s is replaced by %s' % (name, c)))
        k += 1
    if k == 0:
        out['und'].append('%s: no internal step that can fail' % where)
    return out


# ------------------------------------------------------------------ C25
def weak_orders(n):
    """all total preorders of n labels as rank vectors"""
    out = []

    def go(pre):
        if len(pre) == n:
            if sorted(set(pre)) == list(range(max(pre) + 1)):
                out.append(tuple(pre))
            return
        for r in range(n):
            go(pre + [r])
    go([])
    return out


def c25_items(tier):
    out = []
    for est in scen.EST:
        if scen.is_clf(est):
            for L in (2, 3) + ((4,) if tier != 'quick' else ()):
                for o in weak_orders(L):
                    out.append((est, L, o))
            if tier == 'quick':
                out += [(est, 4, o) for o in ((0, 0, 0, 0), (0, 1, 1, 0), (0, 0, 1, 2), (2, 1, 0, 2), (0, 0, 0, 1), (1, 0, 0, 0))]
        else:
            out += [(est, 1, w) for w in (False, True)]
    return out


def ordered_values(path, row, ranks):
    """scores with the given order: equal ranks share a value, larger ranks exceed by an unknown positive amount"""
    vals, cur = {}, None
    for r in range(max(ranks) + 1):
        if cur is None:
            cur = ai.atom('base%d' % row)
            path.iv[cur] = (-10**6, 10**6)
        else:
            d = ai.atom('gap%d_%d' % (row, r))
            path.iv[d] = (1, 10**6)
            cur = ai.add(cur, d)
        vals[r] = cur
    return [vals[r] for r in ranks]


def rotate(o, k):
    k %= len(o)
    return o[k:] + o[:k]


def c25_scen(path, item):
    est, L, order = item
    clf = scen.is_clf(est)
    n = 3
    w = None if clf else order
    _, sh, e = prepared(path, est, True, L=L, weighted=w, q=1)
    sh = Small(scen.World(path), est, 5, n, 1)
    T = params.sane(est)['threshold']
    names = ['x%d_' % k for k in range(n)]
    scored = {}

    def rowof(t):
        at = ai.atoms(t)
        rs = [k for k in range(n) if any(a.startswith(names[k]) for a in at)]
        return rs[0] if len(rs) == 1 else None
    values = [ordered_values(path, k, rotate(order, k)) for k in range(n)] if clf else None

    def votes(I, f, this, args):
        D = Sym('D', *kern.inputs(f, args, (2,)))
        r = rowof(D)
        if r is None:
            I.note('scores not computed from one sample')
        scored.setdefault(r, set()).add(D)
        ls = args[2].get()
        if ls.size != L:
            I.p.events.append(('out-of-range', 'scores for %s labels, the model has %d' % (ls.size, L), I.where()))
        ls.cells, ls.content = [(i, Cell(values[r][i])) for i in range(L)], None

    def vote(I, f, this, args):
        D = Sym('D', *kern.inputs(f, args, (2, 3)))
        r, t = rowof(D), args[3].get()
        if r is None or not isinstance(t, int):
            I.note('scores not computed from one sample')
        scored.setdefault(r, set()).add(D)
        ls = args[2].get()
        if ls.cells is None:
            kern.spread(ls, lambda i: Sym('elem', ls.content, i))
        for i, c in ls.cells:
            if i == t:
                c.set(values[r][t])

    def rv(I, f, this, args):
        D = Sym('D', *kern.inputs(f, args))
        r = rowof(D)
        if r is None:
            I.note('response not computed from one sample')
        scored.setdefault(r, set()).add(D)
        return Sym('response', D)
    hooks = dict(kern.HOOKS, sum_up_all_label_votes=votes, sum_up_label_votes=vote, sum_up_regressor_votes=rv)
    path.calls = []
    X = sh.X()

    def call(name, form, args):
        path.calls = []
        o = model.run_fn(path, scen.method(est, name, scen.single if form == 'sample' else scen.batch), args, hooks, this=Cell(e))
        b = outcome_bad(o, path)
        if b:
            raise Bad(b, name, form)
        if scen.status(o) != 0:
            raise Bad(('bad', 'valid input rejected with status %s' % (scen.status(o),)), name, form)
        m = o.v.v.get()
        b = arguments(path, est, e, L)
        if b:
            raise Bad(('bad', b), name, form)
        return o.interp, m

    def items(I, v):
        if not isinstance(v, Vec) or v.size != n:
            raise Bad(('bad', 'returns %s results for %d samples' % (getattr(v, 'size', '?'), n)), 'batch', '')
        return [I.at(v, i).get() for i in range(n)]
    try:
        want = [max(range(L), key=lambda k: (rotate(order, r)[k], -k)) for r in range(n)] if clf else None
        I, got = call('predict', 'batch', [X])
        got = items(I, got)
        if clf and got != want:
            bad = [r for r in range(n) if got[r] != want[r]][0]
            return 'bad', 'predict/batch gives label %s for scores ordered %s, the first best one is %d' % (got[bad], rotate(order, bad), want[bad])
        for r in range(n):
            I, one = call('predict', 'sample', [X.cells[r][1].get()])
            if clf and one != want[r]:
                return 'bad', 'predict/sample gives label %s for scores ordered %s, the first best one is %d' % (one, rotate(order, r), want[r])
            if not clf and term(one) != term(got[r]):
                return 'bad', 'predict gives different responses for a sample alone and in a batch'
            if not clf and leaves(term(one), 'response') == []:
                return 'bad', 'predict does not return the summed votes'
        if clf:
            I, b = call('decision_function', 'batch', [X])
            b = items(I, b)
            for r in range(n):
                I1, s = call('decision_function', 'sample', [X.cells[r][1].get()])
                for what, v, J in (('batch', b[r], I), ('sample', s, I1)):
                    if not isinstance(v, Vec) or v.size != L or [term(J.at(v, k).get()) for k in range(L)] != [term(x) for x in values[r]]:
                        return 'bad', 'decision_function/%s does not return the scores that predict ranks' % what
            for ys in ([want[0], want[1], want[2]], [want[0], (want[1] + 1) % L, want[2]], [(want[0] + 1) % L, want[1], L + 5], [-1, L, L + 1]):
                I, acc = call('evaluate', 'batch', [X, sh.labels(ys)])
                hit = sum(a == b for a, b in zip(ys, want))
                if not isinstance(acc, (int, float)) or abs(acc - hit / n) > 1e-6:
                    return 'bad', 'evaluate gives %s when %d of %d labels match' % (acc, hit, n)
        for r in range(n):
            if len(scored.get(r, ())) != 1:
                return 'bad', 'the variants of prediction compute the scores of a sample differently (%d ways)' % len(scored.get(r, ()))
    except Bad as x:
        return x.res[0], '%s%s %s' % (x.name, '/' + x.form if x.form else '', x.res[1])
    return 'ok', None


class Bad(Exception):
    def __init__(self, res, name, form):
        self.res, self.name, self.form = res, name, form


def arguments(path, est, e, L):
    """the numbers handed to the kernels are those of the model"""
    mp = scen.state(e).f['m_params'].get()
    get = lambda k: term(mp.d[k].get().cell.get())
    clf = scen.is_clf(est)
    per = 2 if clf else None
    if clf:
        per = get('number_of_clauses_per_label') // 2
        total = per * L
    else:
        total = get('number_of_regressor_clauses') // 2
    want = {'_threshold_tag': get('threshold'), '_number_of_labels_tag': L, '_number_of_classifier_clause_outputs_per_label_tag': per,
            '_number_of_estimator_clause_outputs_tag': total, '_number_of_states_tag': get('number_of_states'), '_max_weight_tag': get('max_weight')}
    for name, args, where in path.calls:
        for t, v in args:
            for tag, x in want.items():
                if tag in t and x is not None:
                    while isinstance(v, Sym) and v.t[0] in ('obj', 'field') :
                        v = v.t[-1]
                    if v != x:
                        return '%s is called with %s = %s instead of %s (%s)' % (name, tag.strip('_'), v, x, where)
        if name == 'calculate_clause_output_with_pruning':
            for t, v in args:
                if t.endswith('&') and 'std::vector<char' in t and not t.startswith('const') and isinstance(v, Sym) and v.t[1] != total:
                    return '%s writes a vector of %s outputs, the model has %s (%s)' % (name, v.t[1], total, where)
    return None


def label25(i):
    return 'Tsetlini::%s %s' % (scen.EST[i[0]][0], '(%d labels, score order %s)' % (i[1], i[2]) if scen.is_clf(i[0]) else '(%sweighted)' % ('' if i[2] else 'un'))


# ------------------------------------------------------------------ driver
def runner(scenf, label):
    def f(item):
        out = {'n': 0, 'viol': [], 'und': []}
        try:
            for path, r in ai.explore(lambda p: inputs.scen_guard(scenf, p, item), 400):
                out['n'] += 1
                k, msg = r
                where = label(item)
                if k == 'und':
                    out['und'].append('%s: %s' % (where, msg))
                elif k == 'bad':
                    out['viol'].append(dict(where=where, rule=f.rule, msg=msg))
        except ai.PathLimit:
            out['und'].append('%s: path limit' % (item,))
        return out
    return f


def label10(i):
    return 'Tsetlini::%s::%s%s (%s model, %sweighted)' % (scen.EST[i[0]][0], i[1], '/' + i[2] if i[2] else '', i[4], '' if i[3] else 'un')


def label14(i):
    return 'Tsetlini::%s::%s (%sweighted, %d epochs, %d labels)' % (scen.EST[i[0]][0], i[1], '' if i[2] else 'un', i[3], i[4])


SPEC = {'C10': (c10_items, c10_scen, label10, 'effect-free', 60), 'C14': (c14_items, c14_scen, label14, 'history', 40),
        'C15': (c15_items, c15_scen, label15, 'copy', 100), 'C16': (c16_items, c16_scen, label16, 'round-trip', 40), 'C25': (c25_items, c25_scen, label25, 'scores', 30)}


def run(prop, tier):
    if prop == 'C24':
        items, fn, floor = c24_items(tier), c24_one, 150
    else:
        itf, sc, lab, rule, floor = SPEC[prop]
        items = itf(tier)
        fn = runner(sc, lab)
        fn.rule = rule
    rs = model.parallel(items, fn)
    viol, und, n = [], [], 0
    for r in rs:
        viol += [v for v in r['viol'] if v not in viol]
        und += r['und']
        n += r['n']
    cov = {'obligations': len(items), 'discharged': len(items) - len(und), 'checker_cmd': 'python3 checks/run.py %s %s' % (prop, tier),
           'trusted_base': ['clang 18 type-checked syntax tree', 'abstract interpreter checks/ai.py incl. models of std and nlohmann::json', 'kernels as uninterpreted functions of their inputs (checks/kern.py)'],
           'paths': n}
    return dict(coverage=cov, violations=viol, undecided=und, instances=n, floor=floor)

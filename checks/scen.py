"""Symbolic estimators, inputs and hooks for checks that interpret the public methods (C09-C16, C20, C21, C24, C25)."""
import ai, vt, model, params
from ai import Cell, Vec, Ptr, Sym, Obj, Map, Var, Ei, Opt, Js, Lin, term, atom, lin, unlin, ladd
from model import run_fn

INT_MAX = 2**31 - 1
EST = {  # estimator: (class, state type, sample type)
    'classifier_classic': ('ClassifierClassic', 'Tsetlini::EstimatorState<Tsetlini::TAState, Tsetlini::ClassifierStateCache>', 'vec', 'clc'),
    'classifier_bitwise': ('ClassifierBitwise', 'Tsetlini::EstimatorState<Tsetlini::TAStateWithPolarity, Tsetlini::ClassifierStateCache>', 'bit', 'clb'),
    'regressor_classic': ('RegressorClassic', 'Tsetlini::EstimatorState<Tsetlini::TAState, Tsetlini::RegressorStateCache>', 'vec', None),
    'regressor_bitwise': ('RegressorBitwise', 'Tsetlini::EstimatorState<Tsetlini::TAStateWithPolarity, Tsetlini::RegressorStateCache>', 'bit', None),
}
CHARVEC = 'std::vector<char, aligned_allocator<char, 64>>'
BITVEC = 'basic_bit_vector<unsigned long>'
WORDVEC = 'std::vector<unsigned long, aligned_allocator<unsigned long, 64>>'
ROWS = {'vec': 'std::vector<%s>' % CHARVEC, 'bit': 'std::vector<%s>' % BITVEC}
INTVEC = 'std::vector<int>'


def is_clf(est):
    return est.startswith('classifier')


# ------------------------------------------------------------------ inputs
class World:
    """atoms shared by the arguments of one scenario"""
    def __init__(self, path):
        self.p = path
        path.reps = {}

    def var(self, name, lo, hi):
        a = atom(name)
        self.p.iv[a] = (lo, hi)
        return a

    def length(self, name, n=None, lo=4, hi=2**31 - 1):
        """(length, [representative indices]): symbolic (>= lo) with first/generic/last index, or the constant n with every index"""
        if n is not None:
            self.p.reps.setdefault(n, list(range(n)))
            return n, list(range(n))
        k = self.var(name + '_k', 0, hi - 1 - lo)
        N = unlin(Lin(lo, {k: 1}))
        mid = unlin(Lin(1, {Sym('idx', unlin(Lin(lo - 2, {k: 1})), name): 1}))
        reps = [0, mid, unlin(Lin(lo - 1, {k: 1}))]
        self.p.reps[term(N)] = reps
        return N, reps


def pick(reps, where):
    return {'first': 0, 'mid': len(reps) // 2, 'last': len(reps) - 1}[where]


def char_row(w, name, F, freps, bad=None):
    """row of a classic sample; bad = (where, (lo, hi)) puts a value of that interval at one position"""
    cells = []
    for k, i in enumerate(freps):
        a = w.var('%s_%d' % (name, k), 0, 1)
        if bad and pick(freps, bad[0]) == k:
            w.p.iv[a] = bad[1]
        cells.append((i, Cell(a)))
    return Vec(F, cells, None, CHARVEC)


def bit_row(w, name, F, q, qreps, r, bad=None, extra=0):
    """bit vector of 64q + r bits; bad = bit position >= r of the tail word that is set, or ('extra', k) for set spare storage"""
    cells = []
    n = q
    for k, i in enumerate(qreps):
        cells.append((i, Cell(w.var('%s_w%d' % (name, k), 0, 2**64 - 1))))
    if r:
        k1, k0 = 0, (2**64 - 1) & ~((1 << r) - 1)
        if bad is not None and bad[0] == 'tail':
            k1 = 1 << bad[1]
            k0 = 0
        cells.append((q, Cell(ai.Word(k1, k0))))
        n = ai.add(q, 1)
    for e in range(extra):
        dirty = bad is not None and bad[0] == 'extra' and bad[1] == e
        cells.append((ai.add(n, e), Cell(ai.Word(1 << 17, 0) if dirty else 0)))
    v = Vec(ai.add(n, extra), cells, None, WORDVEC)
    return Obj(BITVEC, {'m_bit_length': Cell(F), 'm_vector': Cell(v)})


class Shape:
    """dimensions of the inputs of a scenario"""
    def __init__(self, w, est, concrete, r=5):
        self.w, self.est, self.concrete = w, est, concrete
        self.N, self.nreps = w.length('N', 5 if concrete else None)
        self.kind = EST[est][2]
        self.r = r
        if self.kind == 'vec':
            self.F, self.freps = w.length('F', 5 if concrete else None, 4, 2**30)
        else:
            if concrete:
                self.q, self.qreps = 1, [0]
                self.F = 64 + r
            else:
                self.q, self.qreps = w.length('q', None, 3, 2**24)
                self.F = unlin(ladd(Lin(r, {}), Lin(lin(self.q).c * 64, {a: v * 64 for a, v in lin(self.q).k.items()})))

    def row(self, name, bad=None, extra=0, longer=None):
        w = self.w
        if self.kind == 'vec':
            if longer is not None:
                F2 = ai.add(self.F, longer)
                cells = [(i, Cell(w.var('%s_%d' % (name, k), 0, 1))) for k, i in enumerate(self.freps)]
                if longer < 0:
                    cells.pop()
                else:
                    cells.append((self.F, Cell(0)))
                return Vec(F2, cells, None, CHARVEC)
            return char_row(w, name, self.F, self.freps, bad)
        if longer is not None:
            return bit_row(w, name, ai.add(self.F, longer), self.q, self.qreps, self.r + longer)
        return bit_row(w, name, self.F, self.q, self.qreps, self.r, bad, extra)

    def X(self, bad=None):
        """bad = (row position, dict of row arguments)"""
        cells = []
        for k, i in enumerate(self.nreps):
            kw = bad[1] if bad and pick(self.nreps, bad[0]) == k else {}
            cells.append((i, Cell(self.row('x%d' % k, **kw))))
        return Vec(self.N, cells, None, ROWS[self.kind])

    def empty(self):
        return Vec(0, [], None, ROWS[self.kind])

    def y(self, lo, hi, bad=None):
        """vector of N values in [lo, hi]; bad = (position, (lo, hi))"""
        cells = []
        for k, i in enumerate(self.nreps):
            a = self.w.var('y%d' % k, lo, hi)
            if bad and pick(self.nreps, bad[0]) == k:
                self.w.p.iv[a] = bad[1]
            cells.append((i, Cell(a if self.w.p.iv[a][0] != self.w.p.iv[a][1] else self.w.p.iv[a][0])))
        return Vec(self.N, cells, None, INTVEC)


# ------------------------------------------------------------------ estimators
def unfitted(path, est, over=None):
    """estimator object made by the real factory from all-symbolic parameters"""
    vals = params.sane(est)
    vals.update(over or {})
    o = params.create(path, est, 'json', vals)
    kind, r = params.result(o)
    if kind != 'ok':
        raise ai.Imprecise('cannot create %s: %s %s' % (est, kind, r))
    return o.v.v.get()


def state_cell(e):
    p = e.f['m_state_p'].get()
    return p.cell if isinstance(p, Ptr) else e.f['m_state_p']


def state(e):
    return state_cell(e).get()


def fn_for(name, statety, pos=0):
    """definition of a free function whose parameter number pos is the given state type"""
    P = model.prog()
    c = [k for k in P.find(name) if len(k[0].fns[k[1]]['pt']) > pos and ai.bare(k[0].types[k[0].fns[k[1]]['pt'][pos]]) == statety]
    if len(c) != 1:
        raise vt.Broken('anchor %s(%s): %d definitions' % (name, statety, len(c)))
    return c[0]


def fitted(path, est, F, L=None, over=None, hooks=None):
    """a trained model: dimensions set up by the library itself, contents replaced by symbolic trained values"""
    path.auto = True
    try:
        return _fitted(path, est, F, L, over, hooks)
    finally:
        path.auto = False
        if not getattr(path, 'mixed', False):
            path.memo.clear()
        path.events.clear()


def _fitted(path, est, F, L, over, hooks):
    e = unfitted(path, est, over)
    st = state(e)
    mp = st.f['m_params'].get()
    mp.d['number_of_features'] = Cell(Var('int', F))
    if is_clf(est):
        mp.d['number_of_labels'] = Cell(Var('int', L))
    o = run_fn(path, fn_for('Tsetlini::initialize_state', EST[est][1]), [state_cell(e)], hooks)
    if o.kind != 'ret':
        raise ai.Imprecise('initialize_state: %s %s' % (o.kind, o.v))
    ts = st.f['ta_state'].get()
    m = ts.f['matrix'].get().cell.get()
    m.f['m_v'].get().content = Sym('trained', 'counters')
    m.f['m_v'].get().cells = None
    for n in ('weights',):
        v = ts.f[n].get()
        if v.size != 0:
            v.content, v.cells = Sym('trained', n), None
    if 'polarity' in ts.f:
        v = ts.f['polarity'].get().f['m_v'].get()
        v.content, v.cells = Sym('trained', 'polarity'), None
    for g in ('igen', 'fgen'):
        for a in ('aRES', 'aMT'):
            v = st.f[g].get().f[a].get()
            v.content, v.cells = Sym('trained', g, a), None
        ix = atom('trained_%s_index' % g)
        path.iv[ix] = (0, 4992)
        st.f[g].get().f['index'].set(ix)
    return e


PARTS = ('m_params', 'ta_state', 'igen', 'fgen')


def snap(e):
    st = state(e)
    return {k: term(st.f[k]) for k in PARTS}


def method(est, name, pred=None):
    P = model.prog()
    c = P.find('Tsetlini::%s::%s' % (EST[est][0], name))
    c = [k for k in c if pred is None or pred([k[0].types[x] for x in k[0].fns[k[1]]['pt']])]
    if len(c) != 1:
        raise vt.Broken('anchor %s::%s: %d definitions' % (EST[est][0], name, len(c)))
    return c[0]


def batch(pt):
    return pt[0].startswith('const std::vector<std::vector') or pt[0].startswith('const std::vector<basic_bit')


def single(pt):
    return not batch(pt)


def call_fit(path, est, e, which, X, y, maxl=0, epochs=1, hooks=None, hooksetup=None):
    """fit / partial_fit through the public interface"""
    P = model.prog()
    if is_clf(est):
        pre = EST[est][3]
        key = P.one('vtapi::%s_%s' % (pre, which))
        return run_fn(path, key, [Cell(e), X, y, maxl, epochs], hooks, setup=hooksetup)
    return run_fn(path, method(est, which), [X, y, epochs], hooks, setup=hooksetup, this=Cell(e))


def status(o):
    """status code of a status_message_t outcome"""
    if o.kind != 'ret':
        return None
    v = o.v
    if isinstance(v, Ei):
        if not v.left:
            return 0
        v = v.v.get()
    if isinstance(v, Obj) and 'first' in v.f:
        return v.f['first'].get()
    if isinstance(v, ai.Tup) and v.items:
        return v.items[0][1].get()
    return None

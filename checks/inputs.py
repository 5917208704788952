"""C12, C13: rejection of malformed input by the public methods (abstract interpretation, symbolic sizes and values)."""
import os, re
import ai, vt, model, scen, params
from ai import Cell, Vec, Ptr, Sym, Obj, Map, Var, Ei, Opt, Js, Lin, term

INT_MIN, INT_MAX = -2**31, 2**31 - 1
KERNELS = ('calculate_clause_output', 'calculate_clause_output_with_pruning', 'sum_up_all_label_votes', 'sum_up_label_votes', 'sum_up_regressor_votes',
           'calculate_classifier_feedback_to_clauses', 'train_classifier_automata', 'train_regressor_automata')


class Stop(Exception):
    pass


def codes():
    s = open(os.path.join(vt.REPO, 'lib/include/tsetlini_status_code.hpp')).read()
    m = re.search(r'enum[^{]*\{([^}]*)\}', s)
    out, nxt = {}, 0
    for part in re.sub(r'//[^\n]*|/\*.*?\*/', '', m.group(1), flags=re.S).split(','):
        q = re.match(r'\s*(\w+)\s*(?:=\s*(-?\w+))?\s*$', part)
        if q:
            nxt = int(q.group(2), 0) if q.group(2) else nxt
            out[q.group(1)] = nxt
            nxt += 1
    if 'S_OK' not in out:
        raise vt.Broken('status codes not found')
    return out


def stop(what):
    def h(I, f, this, args):
        raise Stop('%s (called from %s)' % (f['sq'], I.where()))
    return h


TRAIN_STOP = {k: stop(k) for k in KERNELS + ('initialize_state', 'BasePRNG::rand', 'BasePRNG::init')}
USE_STOP = {k: stop(k) for k in KERNELS}


# ------------------------------------------------------------------ defects
def x_defects(kind, concrete):
    """defects of the sample matrix: name -> builder(shape) -> X"""
    D = {'X is empty': lambda s: s.empty()}
    for r in ('first', 'mid', 'last'):
        for d in (1, -1):
            D['row %s of X is %s than the others' % (r, 'longer' if d > 0 else 'shorter')] = lambda s, r=r, d=d: s.X((r, {'longer': d}))
        if kind == 'vec':
            for c in ('first', 'mid', 'last'):
                for iv in ((2, 127), (-128, -1)):
                    D['row %s of X has a value in [%d, %d] in its %s column' % (r, iv[0], iv[1], c)] = lambda s, r=r, c=c, iv=iv: s.X((r, {'bad': (c, iv)}))
        else:
            for b in (0, 20, 63):
                D['row %s of X has padding bit %s set' % (r, b)] = lambda s, r=r, b=b: s.X((r, {'bad': ('tail', max(b, s.r))})) if s.r else None
            for e in (0, 1):
                D['row %s of X has a bit set in spare block %d' % (r, e)] = lambda s, r=r, e=e: s.X((r, {'bad': ('extra', e), 'extra': 2}))
    return D


def features_mismatch(kind):
    """sample matrices whose uniform width differs from the trained one: name -> (delta of F)"""
    return [1, -1, 64, 256]


def resized(w, est, concrete, r, delta):
    """a consistent shape whose rows have F + delta features"""
    return delta


# ------------------------------------------------------------------ C12
def c12_items(tier):
    items = []
    for est in scen.EST:
        kind = scen.EST[est][2]
        clf = scen.is_clf(est)
        for st in ('unfitted', 'fitted'):
            for which in ('fit', 'partial_fit') + (('fit_default', 'fit_rev', 'partial_fit_default') if clf else ()):
                for conc in (False, True):
                    D = list(x_defects(kind, conc)) + ['y is empty', 'y is shorter than X', 'y is longer than X']
                    if clf:
                        D += ['label %s is negative' % p for p in ('first', 'mid', 'last')]
                    else:
                        D += ['response %s is negative' % p for p in ('first', 'mid', 'last')] + ['response %s exceeds the threshold' % p for p in ('first', 'mid', 'last')]
                    if st == 'fitted' and which.startswith('partial'):
                        D += ['X has F%+d features' % d for d in features_mismatch(kind)]
                        if clf:
                            D += ['label %s is not among the trained ones' % p for p in ('first', 'mid', 'last')]
                    elif clf:
                        D += ['label %s is the largest int' % p for p in ('first', 'mid', 'last')] + ['only one label'] * (which in ('fit', 'partial_fit', 'fit_rev', 'fit_default', 'partial_fit_default'))
                    if which not in ('fit', 'partial_fit'):
                        D = [d for k, d in enumerate(D) if 'mid' in d or 'empty' in d or 'only' in d][::2] if tier == 'quick' else D
                    for d in D:
                        rs = (0, 5, 63) if kind == 'bit' and 'bit' in d else (5,)
                        for r in rs:
                            if not r and 'padding' in d:
                                continue
                            items.append((est, st, which, conc, d, r))
    return items


def labels_atom(path, conc, L0=3):
    if conc:
        return L0
    a = ai.atom('L')
    path.iv[a] = (3, 100000)
    return a


def c12_scen(path, item):
    est, st, which, conc, d, r = item
    clf = scen.is_clf(est)
    w = scen.World(path)
    sh = scen.Shape(w, est, conc, r)
    T = params.sane(est)['threshold']
    L = labels_atom(path, conc)
    e = scen.unfitted(path, est) if st == 'unfitted' else scen.fitted(path, est, sh.F, L)
    ylo, yhi = (0, 2) if clf else (0, T)
    XD = x_defects(scen.EST[est][2], conc)
    maxl = 3
    X = y = None
    m = re.match(r'(label|response) (\w+) (.*)', d)
    if d in XD:
        X = XD[d](sh)
    elif d.startswith('X has F'):
        reshape(sh, int(re.search(r'F([+-]\d+)', d).group(1)), conc)
        X = sh.X()
    else:
        X = sh.X()
    if m:
        what = m.group(3)
        iv = {'is negative': (INT_MIN, -1), 'is the largest int': (INT_MAX, INT_MAX), 'exceeds the threshold': (T + 1, INT_MAX)}.get(what)
        if what == 'is not among the trained ones':
            y = sh.y(ylo, yhi)
            k = scen.pick(sh.nreps, m.group(2))
            a = ai.atom('over')
            path.iv[a] = (0, 10**6)
            y.cells[k][1].set(ai.add(L, a))
        else:
            y = sh.y(ylo, yhi, (m.group(2), iv))
    elif d == 'y is empty':
        y = Vec(0, [], None, scen.INTVEC)
    elif d == 'y is shorter than X':
        y = sh.y(ylo, yhi)
        y = Vec(ai.add(y.size, -1), y.cells[:-1], None, scen.INTVEC)
    elif d == 'y is longer than X':
        y = sh.y(ylo, yhi)
        y = Vec(ai.add(y.size, 1), y.cells + [(y.size, Cell(1))], None, scen.INTVEC)
    elif d == 'only one label':
        y = sh.y(0, 0)
        maxl = w.var('maxl', INT_MIN, 1)
        if 'default' in which:
            pass
    else:
        y = sh.y(ylo, yhi)
    before = scen.snap(e)
    st0 = scen.state_cell(e)
    if which.endswith('default'):
        P = model.prog()
        key = P.one('vtapi::%s_%s' % (scen.EST[est][3], which))
        fn = lambda: model.run_fn(path, key, [Cell(e), X, y, maxl], TRAIN_STOP)
    else:
        fn = lambda: scen.call_fit(path, est, e, which, X, y, maxl, 1, TRAIN_STOP)
    try:
        o = fn()
    except Stop as s:
        return 'stop', str(s)
    if o.kind == 'imprecise':
        return 'und', o.v
    if o.kind in ('throw', 'abort'):
        return 'bad', 'ends with %s %s' % (o.kind, o.v)
    if any(ev[0] == 'out-of-range' for ev in path.events):
        return 'bad', 'accesses an element outside its sequence: %s' % (path.events,)
    c = scen.status(o)
    if c == 0:
        return 'bad', 'returns S_OK'
    if not isinstance(c, int):
        return 'und', 'status %s' % (c,)
    after = scen.snap(e)
    ch = [k for k in before if before[k] is not after[k] and before[k] != after[k]]
    if ch:
        return 'bad', 'returns status %d but has changed %s' % (c, ', '.join(ch))
    return 'ok', None


def opaque_path(path):
    """decisions that are not comparisons of numbers (position lookups, opaque predicates)"""
    return [k for k in path.memo if isinstance(k, tuple) and k[0] not in ('num', 'streq') and not (k[0] == 'num' and False)]


def one(scenf, name):
    def f(item):
        out = {'n': 0, 'viol': [], 'und': []}
        try:
            for path, r in ai.explore(lambda p: scen_guard(scenf, p, item), 200):
                out['n'] += 1
                k, msg = r
                est, what, d = item[0], item[2], item[4]
                where = 'Tsetlini::%s::%s' % (scen.EST[est][0], what)
                if k == 'und':
                    out['und'].append('%s on %s model, %s: %s' % (where, item[1], d, msg))
                elif k in ('stop', 'bad'):
                    m = '%s model, %s: %s' % (item[1], d, ('computation starts in ' + msg) if k == 'stop' else msg)
                    op = opaque_path(path)
                    if op:
                        out['und'].append('%s: %s [undecided branches %s]' % (where, m, [ai.show(Sym('k', *x)) if isinstance(x, tuple) else str(x) for x in op][:3]))
                    else:
                        out['viol'].append(dict(where=where, rule='malformed-input', msg=m))
        except ai.PathLimit:
            out['und'].append('%s: path limit' % (item,))
        return out
    return f


def scen_guard(f, path, item):
    try:
        return f(path, item)
    except ai.Imprecise as x:
        return 'und', str(x)


# ------------------------------------------------------------------ C13
def c13_items(tier):
    items = []
    for est in scen.EST:
        kind = scen.EST[est][2]
        meths = ['predict/sample', 'predict/batch'] + (['decision_function/sample', 'decision_function/batch', 'evaluate/batch'] if scen.is_clf(est) else [])
        for mt in meths:
            for conc in (False, True):
                for d in ('nothing wrong', 'X is empty', 'X has F+1 features'):
                    if mt.endswith('sample') and d == 'X is empty':
                        continue
                    items.append((est, 'unfitted', mt, conc, d, 5))
                D = [] if mt.endswith('sample') else list(x_defects(kind, conc))
                if mt.endswith('sample'):
                    D = [d for d in x_defects(kind, conc) if d.startswith('row mid') and 'than' not in d]
                D += ['X has F%+d features' % d for d in features_mismatch(kind)] + ['X has no features']
                if mt.startswith('evaluate'):
                    D += ['y is empty', 'y is shorter than X', 'y is longer than X']
                for d in D:
                    for r in ((0, 5, 63) if kind == 'bit' and 'bit' in d else (5,)):
                        if not r and 'padding' in d:
                            continue
                        items.append((est, 'fitted', mt, conc, d, r))
    return items


def reshape(sh, delta, conc):
    if sh.kind == 'vec':
        sh.F = ai.add(sh.F, delta)
        if delta > 0:
            sh.freps = sh.freps + [ai.add(sh.F, -1)]
        elif conc:
            sh.freps = sh.freps[:-1]
    else:
        dq, sh.r = divmod(sh.r + delta, 64)
        if dq > 0:
            sh.qreps = sh.qreps + [sh.q]
        elif dq < 0:
            sh.qreps = sh.qreps[:-1]
        sh.q = ai.add(sh.q, dq)
        sh.F = ai.add(sh.F, delta)


def c13_scen(path, item):
    est, st, mt, conc, d, r = item
    clf = scen.is_clf(est)
    name, form = mt.split('/')
    w = scen.World(path)
    sh = scen.Shape(w, est, conc, r)
    L = labels_atom(path, conc)
    e = scen.unfitted(path, est) if st == 'unfitted' else scen.fitted(path, est, sh.F, L)
    XD = x_defects(sh.kind, conc)
    T = params.sane(est)['threshold']
    ylo, yhi = (0, 2) if clf else (0, T)
    if d.startswith('X has F'):
        reshape(sh, int(re.search(r'F([+-]\d+)', d).group(1)), conc)
    y = sh.y(ylo, yhi)
    if d == 'X has no features':
        sh.F, sh.freps, sh.q, sh.qreps, sh.r = 0, [], 0, [], 0
        X = Vec(sh.N, [(i, Cell(sh.row('x'))) for i in sh.nreps], None, scen.ROWS[sh.kind])
    else:
        X = XD[d](sh) if d in XD else sh.X()
    if d == 'y is empty':
        y = Vec(0, [], None, scen.INTVEC)
    elif d == 'y is shorter than X':
        y = Vec(ai.add(y.size, -1), y.cells[:-1], None, scen.INTVEC)
    elif d == 'y is longer than X':
        y = Vec(ai.add(y.size, 1), y.cells + [(y.size, Cell(1))], None, scen.INTVEC)
    if form == 'sample':
        X = X.cells[len(X.cells) // 2][1].get()
    before = scen.snap(e)
    args = [X, y] if name == 'evaluate' else [X]
    try:
        o = model.run_fn(path, scen.method(est, name, scen.single if form == 'sample' else scen.batch), args, USE_STOP, this=Cell(e))
    except Stop as s:
        return 'stop', str(s)
    if o.kind == 'imprecise':
        return 'und', o.v
    if o.kind in ('throw', 'abort'):
        return 'bad', 'ends with %s %s' % (o.kind, o.v)
    if any(ev[0] == 'out-of-range' for ev in path.events):
        return 'bad', 'accesses an element outside its sequence: %s' % (path.events,)
    c = scen.status(o)
    cs = codes()
    if c == 0:
        return 'bad', 'returns a result instead of an error'
    if not isinstance(c, int):
        return 'und', 'status %s' % (c,)
    want = cs.get('S_NOT_FITTED_ERROR' if st == 'unfitted' else 'S_VALUE_ERROR')
    if want is not None and c != want:
        return 'bad', 'returns status %d instead of %d' % (c, want)
    if scen.snap(e) != before:
        return 'bad', 'changes the model'
    return 'ok', None


def run(prop, tier):
    if prop == 'C12':
        items, fn = c12_items(tier), one(c12_scen, 'C12')
    else:
        items, fn = c13_items(tier), one(c13_scen, 'C13')
    rs = model.parallel(items, fn)
    viol, und, n = [], [], 0
    for r in rs:
        viol += [v for v in r['viol'] if v not in viol]
        und += r['und']
        n += r['n']
    cov = {'obligations': len(items), 'discharged': len(items) - len(und), 'checker_cmd': 'python3 checks/run.py %s %s' % (prop, tier),
           'trusted_base': ['clang 18 type-checked syntax tree', 'abstract interpreter checks/ai.py incl. models of std and nlohmann::json'],
           'paths': n}
    return dict(coverage=cov, violations=viol, undecided=und, instances=n, floor=200)

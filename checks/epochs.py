"""C33: every epoch is one pass over the data.

fit, and partial_fit on a fresh and on a trained model, are interpreted for several numbers of samples and of epochs, with the
kernels as uninterpreted steps that record what they are given, and with the permutation of every std::shuffle a different one.
Rules, per epoch: every sample is trained exactly once, with its own label or response; the order is drawn over all the
samples, before the first training step of the epoch; the other class of a sample is drawn anew.
"""
import re
import ai, behave, kern, model, scen
from ai import Cell, Vec, Sym, atom, add, term

INT = ai.SCALARS['int']
WHAT = ['fit', 'first partial_fit', 'partial_fit']


def items(tier):
    out = []
    sizes = [(2, 1), (2, 2), (3, 1), (3, 2), (4, 3)]
    if tier == 'thorough':
        sizes += [(1, 2), (3, 5), (5, 3), (7, 2)]
    for est in sorted(scen.EST):
        for what in WHAT:
            for n, ep in sizes:
                for w in ((False, True) if tier == 'thorough' else (n % 2 == 0,)):
                    out.append((est, what, n, ep, w))
    return out


def scenario(item, path):
    est, what, n, ep, w = item
    clf = scen.is_clf(est)
    L = 3
    path.mixed = est.endswith('bitwise') and what != 'partial_fit'
    _, sh, e = behave.prepared(path, est, what == 'partial_fit', L=L, weighted=w, q=1, n=n)
    path.shuffles, path.calls = [], []
    count = [0]

    def perm(m):
        count[0] += 1
        k = count[0] % m or (1 if m > 1 else 0)
        return [(i + k) % m for i in range(m)]
    path.perm = perm
    X = sh.X()
    if clf:
        ys = [(i + 2) % L for i in range(n)]
    else:
        ys = [atom('resp%d' % i) for i in range(n)]
        for a in ys:
            path.iv[a] = (0, 10)
    y = sh.labels(ys)
    o = scen.call_fit(path, est, e, 'fit' if what == 'fit' else 'partial_fit', X, y, L, ep, kern.HOOKS)
    if o.kind in ('imprecise', 'abort'):
        return 'und', str(o.v), None
    b = behave.outcome_bad(o, path)
    if b:
        return b[0], b[1], None
    if scen.status(o) != 0:
        return 'und', 'training refused with %s' % (scen.status(o),), None
    xt = [term(c) for _, c in X.cells]
    # the sequence of training steps: (position in the log, sample, target, other class)
    steps, cur = [], None
    key = 'feedback' if clf else 'train_regressor_automata'
    last = None
    for k, (nm, a, wh) in enumerate(path.calls):
        ts = [t for _, t in a]
        if nm == 'calculate_clause_output':
            last = ts[0]
        if nm.startswith('train_'):
            sx = [t for t in ts if t in xt]
            if len(sx) == 1 and last in xt and sx[0] != last:
                return 'bad', 'a step evaluates sample %d and trains on sample %d' % (xt.index(last), xt.index(sx[0])), None
        if nm == key:
            if last not in xt:
                return 'und', 'sample of a training step not recognised', None
            s = xt.index(last)
            if clf:
                steps.append((k, s, ts[1], ts[2]))
            else:
                err = [t for ty, t in a if '_error_tag' in ty]
                rv = behave.leaves(Sym('p', err[0]), 'rvotes') if err else []
                steps.append((k, s, term(add(rv[0], err[0], -1)) if rv else None, None))
    if len(steps) != n * ep:
        return 'bad', '%d training steps in %d epochs over %d samples' % (len(steps), ep, n), None
    order = tuple(s for _, s, _, _ in steps)
    for j in range(ep):
        part = steps[j * n:(j + 1) * n]
        got = sorted(s for _, s, _, _ in part)
        if got != list(range(n)):
            return 'bad', 'epoch %d of %d trains samples %s of %d' % (j + 1, ep, got, n), None
        for _, s, t, opp in part:
            if clf:
                if not isinstance(t, int):
                    return 'und', 'target %s' % ai.show(t)[:80], None
                if t != ys[s]:
                    return 'bad', 'epoch %d trains sample %d (label %s) with label %s' % (j + 1, s, ys[s], t), None
            else:
                if t is None:
                    return 'und', 'response error not recognised', None
                if t != term(ys[s]):
                    return 'bad', 'epoch %d trains sample %d with the response error of %s' % (j + 1, s, ai.show(t)[:80]), None
    msg = drawn(path, steps, n, ep) if n > 1 else None
    if msg:
        return 'bad', msg, None
    if clf and ep > 1:
        for s in range(n):
            os = [(o_, j) for j in range(ep) for _, x, _, o_ in steps[j * n:(j + 1) * n] if x == s]
            sym = [o_ for o_, _ in os if not isinstance(o_, int)]
            if len(sym) != len(set(sym)):
                return 'bad', 'sample %d is given the same drawn class in different epochs' % s, None
    return 'ok', '', (order, bool(path.shuffles))


def drawn(path, steps, n, ep):
    """how the order of an epoch was drawn, if by std::shuffle"""
    if not path.shuffles:
        return None
    m = re.search(r'(?:vector|array)<([\w ]+?)(?:,|>)', str(path.shuffles[0][4]))
    if m and m.group(1) in ai.SCALARS and ai.SCALARS[m.group(1)][1] < INT[1]:
        return 'the order is kept as %s: not every position fits for more than %d samples (%s)' % (m.group(1), ai.SCALARS[m.group(1)][1] + 1, path.shuffles[0][5])
    lo = 0
    for j in range(ep):
        first = steps[j * n][0]
        mine = [s for s in path.shuffles if lo <= s[0] <= first]
        if not mine:
            return 'the order of the samples is drawn by %s but not for epoch %d' % (path.shuffles[0][5], j + 1)
        if max(s[2] - s[1] for s in mine) < n:
            s = mine[-1]
            return 'the order is drawn over positions [%s, %s) of %d samples (%s)' % (s[1], s[2], n, s[5])
        lo = steps[j * n + n - 1][0]
    return None


def one(item):
    out = {'n': 0, 'viol': [], 'und': [], 'shuf': 0}
    where = 'training of %s by %s (%d samples, %d epochs, weighted %s)' % (scen.EST[item[0]][0], item[1], item[2], item[3], item[4])
    orders, plain = set(), True
    try:
        for p, (k, m, o) in ai.explore(lambda p: scenario(item, p), 600):
            out['n'] += 1
            if k == 'bad':
                v = {'where': where, 'rule': 'epoch-is-one-pass', 'msg': m}
                if v not in out['viol']:
                    out['viol'].append(v)
            elif k == 'und':
                out['und'].append('%s: %s' % (where, m))
            else:
                orders.add(o[0])
                out['shuf'] += o[1]
                plain = plain and not o[1]
    except ai.PathLimit:
        out['und'].append('%s: path limit' % where)
    complete = item[1] == 'partial_fit' or not item[0].endswith('bitwise')      # not one representative path
    if complete and item[2] > 1 and not out['und'] and not out['viol'] and plain and len(orders) == 1:
        out['viol'].append({'where': where, 'rule': 'epoch-is-one-pass', 'msg': 'the samples are always trained in the order %s' % (list(orders)[0],)})
    return out


def run(prop, tier):
    its = items(tier)
    rs = model.parallel(its, one)
    viol, und, seen = [], [], set()
    for r in rs:
        und += r['und']
        for v in r['viol']:
            if v['msg'] not in seen:
                seen.add(v['msg'])
                viol.append(v)
    n = sum(r['n'] for r in rs)
    cov = {'obligations': len(its), 'discharged': len([r for r in rs if not r['und'] and not r['viol']]), 'checker_cmd': 'python3 checks/run.py %s %s' % (prop, tier),
           'trusted_base': ['clang 18 type-checked syntax tree', 'abstract interpreter checks/ai.py incl. std::shuffle as an arbitrary permutation'],
           'paths': n, 'paths_with_shuffle': sum(r.get('shuf', 0) for r in rs)}
    return dict(coverage=cov, violations=viol, undecided=und, instances=n, floor=len(its) // 2,
                assumptions=['numbers of samples and epochs of the grid; the passes of larger ones run the same loop', 'distribution of std::shuffle not analysed'])

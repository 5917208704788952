"""C09: results do not depend on the number of jobs.

(1) Every OpenMP loop reachable from the public API: the iterations are interpreted one by one over a symbolic model and sample while
all accesses to storage that outlives an iteration are recorded; storage written by one iteration may not be touched by another
(bit-packed words count as a whole).  Loops the scenarios do not reach are judged from their syntax alone.
(2) The value computed by each evaluation kernel is the same with one and with several jobs.
(3) Training and inference through the public methods give the same model and results with one and with several jobs, the kernels
taken as functions of all their arguments except n_jobs."""
import ai, vt, model, scen, kern, behave, votes, lazy, clause, sources
from ai import Cell, Vec, Ptr, Sym, Obj, term, atom

REC = None          # {'it': iteration, 'w': {id: (iteration, where)}, 'r': {id: {iteration}}, 'new': set, 'keep': list}
_get, _set, _init = Cell.get, Cell.set, Cell.__init__


def arm():
    def get(self):
        if REC is not None and id(self) not in REC['new']:
            REC['r'].setdefault(id(self), set()).add(REC['it'])
        return self.v

    def set_(self, v):
        if REC is not None and id(self) not in REC['new']:
            REC['w'].setdefault(id(self), {})[REC['it']] = REC['I'].where()
            REC['keep'].append(self)
        self.v = v

    def init(self, v=None):
        self.v = v
        if REC is not None:
            REC['new'].add(id(self))
            REC['keep'].append(self)
    Cell.get, Cell.set, Cell.__init__ = get, set_, init


def disarm():
    Cell.get, Cell.set, Cell.__init__ = _get, _set, _init


def pragma_vars(s):
    """variables named in data-sharing clauses"""
    out = {}
    for c in s[4]:
        for e in c[1:]:
            for x in sources.walk(e):
                if x[0] == 'ref':
                    out.setdefault(c[0], set()).add(x[3])
    return out


PRIVATE = ('private', 'firstprivate', 'lastprivate', 'linear', 'reduction')


class Par(lazy.Lazy):
    """interprets OpenMP loops iteration by iteration, recording accesses"""
    target = None

    def exec(self, s, env, tu):
        if s and s[0] == 'omp':
            kind = s[3]
            if 'for' in kind.split():
                body = s[5]
                while body and body[0] == 'block' and len(body[3]) == 1:
                    body = body[3][0]
                if body and body[0] == 'for':
                    self.target = (body, s, tu)
            
                    return super().exec(body, env, tu)
            elif kind in ('simd',):
                return super().exec(s[5], env, tu)
            self.note('OpenMP directive %s' % kind)
        return super().exec(s, env, tu)

    def loop(self, cond, inc, body, env, tu, s):
        if self.target is None or self.target[0] is not s:
            return super().loop(cond, inc, body, env, tu, s)
        global REC
        site, self.target = self.target[1], None
        priv = pragma_vars(site)
        mine = {id(env[v]) for k in PRIVATE for v in priv.get(k, ()) if v in env}
        rec = {'it': 0, 'w': {}, 'r': {}, 'new': set(mine), 'keep': [], 'I': self}
        n = 0
        while True:
            r = self.truth(self.eval(cond, env, tu))
            if not r:
                break
            n += 1
            if n > 64:
                self.note('parallel loop too long')
            rec['it'] = n
            REC = rec
            try:
                self.body(body, env, tu)
            finally:
                REC = None
            super().exec(['expr', 0, -1, inc], env, tu)
        if n < 2:
            return
        self.p.rounds = getattr(self.p, 'rounds', 0) + n
        for k, its in rec['w'].items():
            other = (set(its) | rec['r'].get(k, set()))
            if len(other) > 1:
                a = sorted(its)[0]
                b = sorted(x for x in other if x != a)[0]
                how = 'write' if b in its else 'read'
                self.p.races.append('storage written by iteration %d of the parallel loop at line %s is also %s by iteration %d (%s)' % (
                    a, site[1], 'written' if b in its else 'read', b, its[a]))
                break


def call_kernel(path, key, mode, kind, tile, w, F, case, jobs, record):
    ts, mat, cls = clause.build(path, kind, w, F)
    X = clause.fill(path, kind, w, ts, mat, cls, F, case, 2)
    outs = [atom('old%d' % i) for i in range(clause.NROW)]
    out = votes.arr(outs, votes.CHARS)
    args = [X, out, 0, clause.NROW, ts, jobs, tile] if mode == 'train' else [X, out, clause.NROW, ts, jobs, tile]
    path.races = []
    I = Par(model.prog(), path, dict(model.BASE))
    tu, i = key
    if record:
        arm()
    try:
        o = model.guarded(lambda: I.call(tu, i, None, [a if isinstance(a, Cell) else Cell(a) for a in args]))
    finally:
        disarm()
    return behave.outcome_bad(o, path), ['left as it was' if c.get() is a else I.tri(I.boolean(c.get())) if not isinstance(c.get(), int) else bool(c.get()) for a, (_, c) in zip(outs, out.cells)]


def race_one(path, it):
    _, mode, kind, tile, w, F, key, _ = it
    ANY = (None, None, None)
    b, _ = call_kernel(path, key, mode, kind, tile, w, F, clause.Case('any', lambda k: ANY, None, None), 3, True)
    if path.races:
        return [('bad', path.races[0])]
    return [b if b and b[0] == 'und' else ('ok', '')]


def value_one(path, it):
    _, mode, kind, tile, w, F, key, case = it
    c = [c for c in clause.cases(F, F - 1, True, False) if c.sharp][case]
    res = []
    for jobs in (1, 3):
        b, r = call_kernel(path, key, mode, kind, tile, w, F, c, jobs, False)
        if b:
            return [b if b[0] == 'und' else ('ok', '')]
        res.append(r)
    for k in range(clause.NROW):
        x, y = res[0][k], res[1][k]
        if x is not None and y is not None and x != y:
            return [('bad', 'the output of clause %d is %s with one job and %s with 3: %s' % (k, x if x == 'left as it was' else int(x), y if y == 'left as it was' else int(y), c.name))]
    if None in res[0] + res[1]:
        return [('und', 'output not determined: ' + c.name)]
    return [('ok', '')]


def kitems(tier):
    out = []
    for mode, kind, key in clause.kernels():
        for tile in (16, 32, 64, 128):
            for w in (clause.WIDTHS if kind == 'cls' else ('signed char',)):
                for F in ([3, tile + 1] if kind == 'cls' else [5, tile * 64 + 5]):
                    out.append(('race', mode, kind, tile, w, F, key, None))
                    if tile > 32 and tier != 'thorough' and F > 5:
                        continue
                    n = len([c for c in clause.cases(F, F - 1, True, False) if c.sharp])
                    out += [('value', mode, kind, tile, w, F, key, k) for k in range(n)]
    return out


def kernel_item(it):
    _, mode, kind, tile, w, F, key, case = it
    out = {'n': 0, 'viol': [], 'und': [], 'rounds': 0}
    where = model.where(*key) + ' tile %d, %d features' % (tile, F)

    def go(p):
        r = race_one(p, it) if it[0] == 'race' else value_one(p, it)
        if it[0] == 'race':
            out['rounds'] += getattr(p, 'rounds', 0)
        return r
    votes.collect(out, where, go, 'parallel loop')
    return out


# ------------------------------------------------------------------ public methods
def mitems(tier):
    out = []
    for est in scen.EST:
        for w in (False, True):
            for fit in (False, True):
                out += [('call', est, 'fit', '', w, fit), ('call', est, 'partial_fit', '', w, fit)]
            out += [('call', est, n, f, w, True) for n, f in behave.readers(est) if n in ('predict', 'decision_function', 'evaluate')]
    return out


def stripjobs(t):
    def f(x):
        if x.t[0] == 'entry' and x.t[1] == 'n_jobs':
            return Sym('entry', 'n_jobs', 0)
        return None
    return ai.subst(t, f)


def mscen(path, item):
    _, est, name, form, w, fit = item
    res, made = [], []
    iv0 = dict(path.iv)
    for jobs in (1, 3):
        path.reps = {}
        over = behave.seeded_over(path)
        over['n_jobs'] = jobs
        path.mixed = est.endswith('bitwise') and not form and not (fit and name == 'partial_fit')
        made.append(behave.prepared(path, est, fit, weighted=w, over=over))
    for _, sh, e in made:
        if form:
            o = behave.invoke(path, est, e, name, form, sh, kern.HOOKS)
        else:
            X, y = behave.train_args(path, est, sh)
            o = scen.call_fit(path, est, e, name, X, y, 2, 1, kern.HOOKS)
        b = behave.outcome_bad(o, path)
        if b:
            return b if b[0] == 'und' else ('ok', None)
        res.append((stripjobs(behave.resultterm(o)) if form else scen.status(o), {k: stripjobs(v) for k, v in scen.snap(e).items()}))
    if res[0][0] != res[1][0]:
        return 'bad', 'the result with 3 jobs differs from the result with one'
    ch = behave.changed(res[0][1], res[1][1])
    if ch:
        return 'bad', 'the model after the call differs between one and 3 jobs in %s' % ', '.join('%s%s' % (k, behave.diff(res[0][1][k], res[1][1][k]) or '') for k in ch)
    return 'ok', None


def mlabel(i):
    return 'Tsetlini::%s::%s%s (%sweighted, %s model)' % (scen.EST[i[1]][0], i[2], '/' + i[3] if i[3] else '', '' if i[4] else 'un', 'fitted' if i[5] else 'unfitted')


# ------------------------------------------------------------------ syntax of the parallel regions
def sites():
    """OpenMP regions of the code reachable from the public methods: (tu, fn, node)"""
    out = []
    for t, i in sources.reach(sources.roots(sources.RUNTIME)):
        for x in sources.bodynodes(t.bodies[i]):
            if x[0] == 'omp' and x[3] not in ('simd',):
                out.append((t, i, x))
    return out


def draws(t, n, seen=None, depth=0):
    """some path from this code to a draw from a generator"""
    inner = {v[0] for x in sources.walk(n) if x[0] == 'decl' for v in x[3] if not v[6]}
    for x in sources.walk(n):
        if x[0] in ('mcall', 'opcall', 'call'):
            fi = x[4] if x[0] == 'opcall' else x[3]
            if not isinstance(fi, int) or fi < 0:
                continue
            f = t.fns[fi]
            args = [x[4]] + x[6] if x[0] == 'mcall' else x[5]
            for a in args:
                y = sources.strip(a)
                if not isinstance(y, list) or not y or y[0] not in ('ref', 'member', 'gref'):
                    continue
                ty = t.types[a[2]] if a[0] in ('ref', 'member') and a[2] >= 0 else t.types[y[2]] if y[2] >= 0 else ''
                if sources.OWN.match(ai.bare(ty)) and not (y[0] == 'ref' and y[3] in inner):
                    if x[0] != 'call' and f['k'] == 'cmethod':
                        continue
                    return '%s at line %s' % (f.get('last') or f['q'], x[1])
    return None


def syntax(viol):
    n = 0
    for t, i, x in sites():
        n += 1
        where = sources.where(t, i, x[1])
        body = x[5]
        pv = pragma_vars(x)
        safe = {v for k in PRIVATE for v in pv.get(k, ())}
        d = draws(t, body)
        if d:
            viol.append(dict(where=where, rule='parallel loop', msg='random numbers are drawn inside a parallel region (%s)' % d))
        own = {v[0] for y in sources.walk(body) if y[0] == 'decl' for v in y[3]}
        own |= {v[0] for y in sources.walk(body) if y[0] == 'rfor' for v in [y[3]]}
        iv = set()
        b = body
        while b and b[0] == 'block' and len(b[3]) == 1:
            b = b[3][0]
        if b and b[0] == 'for' and 'for' in x[3].split():
            for y in sources.walk(b[3]):
                if y[0] == 'decl':
                    iv |= {v[0] for v in y[3]}
                if y[0] == 'bin' and y[3] == '=':
                    z = sources.strip(y[4])
                    if z and z[0] == 'ref':
                        iv.add(z[3])
        guarded = set()
        for y in sources.walk(body):
            if y[0] == 'omp' and y[3] in ('atomic', 'critical', 'ordered'):
                guarded |= {id(z) for z in sources.walk(y[5])}
        for y in sources.walk(body):
            tgt = y[4] if y[0] == 'bin' and y[3] in ('=', '+=', '-=', '*=', '/=', '|=', '&=', '^=', '<<=', '>>=', '%=') else y[4] if y[0] == 'un' and y[3] in ('++', '--', '++post', '--post') else None
            if tgt is None or id(y) in guarded:
                continue
            z = tgt
            while isinstance(z, list) and z and z[0] in ('temp',):
                z = z[3]
            if isinstance(z, list) and z and z[0] == 'ref' and z[3] not in own | safe | iv and not (t.types[z[2]] if z[2] >= 0 else '').endswith('&'):
                if any(v[0] == z[3] and v[6] for q in sources.bodynodes(t.bodies[i]) if q[0] == 'decl' for v in q[3]):
                    continue
                viol.append(dict(where=where, rule='parallel loop', msg='the variable %s, shared by all iterations, is written at line %s' % (z[4], y[1])))
    return n


def run(prop, tier):
    viol, und, n = [], [], 0
    ns = syntax(viol)
    kits = kitems(tier)
    kits.sort(key=lambda i: -i[5])
    seen = set()
    rounds = 0
    for r in model.parallel(list(range(len(kits))), lambda k: kernel_item(kits[k])):
        n += r['n']
        und += r['und']
        rounds += r.get('rounds', 0)
        for v in r['viol']:
            if (v['where'].split(' tile')[0], v['msg'][:40]) not in seen:
                seen.add((v['where'].split(' tile')[0], v['msg'][:40]))
                viol.append(v)
    fn = behave.runner(mscen, mlabel)
    fn.rule = 'jobs'
    its = mitems(tier)
    for r in model.parallel(its, fn):
        n += r['n']
        und += r['und']
        viol += [v for v in r['viol'] if v not in viol]
    cov = {'obligations': n + ns, 'discharged': n + ns - len(und), 'checker_cmd': 'python3 checks/run.py C09 %s' % tier, 'parallel_regions': ns, 'loop_iterations_recorded': rounds, 'public_calls': len(its),
           'trusted_base': ['clang 18 type-checked syntax tree', 'call graph (checks/sources.py)', 'interpreter checks/ai.py, checks/lazy.py', 'kernels as functions of all their arguments except n_jobs']}
    if not rounds and ns:
        und.append('no parallel loop was interpreted')
    return dict(coverage=cov, violations=viol, undecided=und, instances=n + ns, floor=40)

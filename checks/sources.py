"""C11: every random draw comes from the model's own seeded generators, and nothing else varies from run to run.

Two deciding steps.  (1) An effect analysis over the call graph reachable from the public entry points: no call to a source
of run-dependent values, no mutable static or global, no generator object other than the ones of a state that is drawn from.
(2) Abstract interpretation of fit and partial_fit: every draw and every generator handed to a kernel is the state's own
(object identity), fit seeds both from random_state before the first draw, and nothing in the result depends on anything else."""
import re
import ai, vt, model, scen, kern, params, behave
from ai import Cell, Ptr, Sym, Obj, Opt, term

SOURCES = re.compile(r'^(::)?(std::)?(rand|srand|rand_r|random|srandom|drand48|erand48|lrand48|nrand48|mrand48|jrand48|arc4random\w*|getrandom|getentropy|'
                     r'time|clock|gettimeofday|clock_gettime|timespec_get|getpid|getppid|gettid|pthread_self|getenv|secure_getenv|omp_get_thread_num|omp_get_wtime|'
                     r'tmpnam|__rdtsc|__builtin_ia32_rdtsc|_rdrand\w*|__builtin_ia32_rdrand\w*|sched_getcpu)$')
CLOCKS = re.compile(r'^std::chrono::(\w+::)*\w*clock::now$|^std::this_thread::get_id$|^std::thread::get_id$|^std::random_device::')
ENGINES = re.compile(r'^std::(random_device|linear_congruential_engine|mersenne_twister_engine|subtract_with_carry_engine|discard_block_engine|shuffle_order_engine|independent_bits_engine)\b')
OWN = re.compile(r'^(basic_IRNG|basic_FRNG|BasePRNG)<')
RUNTIME = ['fit', 'partial_fit', 'predict', 'decision_function', 'evaluate']


def children(n):
    if isinstance(n, list):
        for x in n:
            if isinstance(x, list):
                yield x


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, list):
            continue
        if x and isinstance(x[0], str):
            yield x
        st.extend(c for c in x if isinstance(c, list))


def callees(n):
    """function indices a node may transfer control to (calls, constructions, conversions, references taken, lambda bodies)"""
    k = n[0]
    if k in ('call', 'mcall', 'construct', 'fref', 'lambda'):
        return [n[3]]
    if k == 'opcall':
        return [n[4]]
    if k == 'member' and len(n) > 6:
        return [n[6]]
    if k == 'cast' and len(n) > 6:
        return [n[6]]
    return []


def bodynodes(b):
    for x in walk(b['body']):
        yield x
    for i in b.get('inits') or []:
        for x in walk(i[2]):
            yield x


def reach(roots):
    """(translation unit, function) pairs reachable over the call graph; generic lambdas contribute all their instantiations"""
    P = model.prog()
    seen, st = set(), list(roots)
    while st:
        t, i = st.pop()
        f = t.fns[i]
        if f.get('generic'):
            st += [(t, g) for g in f['generic']]
            continue
        if i not in t.bodies:
            o = P.by_m.get(f['m']) if f['m'] else None
            if o is None or o == (t, i):
                continue
            t, i = o
            f = t.fns[i]
        key = f['m'] or (id(t), i)
        if key in seen:
            continue
        seen.add(key)
        yield t, i
        for n in bodynodes(t.bodies[i]):
            for c in callees(n):
                if isinstance(c, int) and c >= 0:
                    st.append((t, c))


def roots(names):
    P = model.prog()
    out = []
    for est in scen.EST:
        for m in names:
            out += P.find('Tsetlini::%s::%s' % (scen.EST[est][0], m))
        if names is RUNTIME:
            for w in ('fit', 'partial_fit'):
                if scen.EST[est][3]:
                    out.append(P.one('vtapi::%s_%s' % (scen.EST[est][3], w)))
    return out


def is_logger(t, i):
    b = t.bodies.get(i) or {}
    return 'logger' in (b.get('file') or '') or 'ogger' in t.fns[i]['sq']


def name_of(t, i):
    f = t.fns[i]
    return f.get('sq') or f['q']


def where(t, i, line):
    b = t.bodies.get(i) or {}
    return '%s (%s:%s)' % (name_of(t, i), b.get('file', '?'), line)


def strip(n):
    while isinstance(n, list) and n and n[0] in ('cast', 'temp', 'member'):
        n = n[4] if n[0] == 'cast' else n[3]
    return n


def constant(n, t):
    """an initialiser whose value is the same in every run: no variables, calls only to constructors"""
    if n is None:
        return True
    for x in walk(n):
        if x[0] in ('ref', 'this', 'opcall', 'mcall', 'new'):
            return False
        if x[0] == 'call':
            f = t.fns[x[3]] if isinstance(x[3], int) else None
            if f is None or f['pt'] and any(y[0] == 'ref' for y in walk(x[5])):
                return False
        if x[0] == 'lambda' and x[4]:
            return False
    return True


def reset_first(body, vid):
    """a static buffer emptied or overwritten as a whole before any other use in its block"""
    for blk in walk(body):
        if blk[0] != 'block':
            continue
        seen = False
        for s in blk[3]:
            if s and s[0] == 'decl' and any(v[0] == vid for v in s[3]):
                seen = True
                continue
            if not seen:
                continue
            uses = [x for x in walk(s) if x[0] in ('ref', 'gref') and x[3] == vid]
            if not uses:
                continue
            e = s[3] if s[0] == 'expr' else None
            if e and e[0] == 'mcall' and strip(e[4]) in uses and len(uses) == 1:
                return True if e[3] is not None else False
            if e and e[0] == 'opcall' and e[3] == '=' and strip(e[5][0]) in uses and len(uses) == 1:
                return True
            if e and e[0] == 'bin' and e[3] == '=' and strip(e[4]) in uses and len(uses) == 1:
                return True
            return False
    return False


def lint(out):
    """effects of the code reachable from training and inference"""
    n = 0
    viol = []
    for t, i in reach(roots(RUNTIME)):
        if is_logger(t, i):
            continue
        b = t.bodies[i]
        n += 1
        draws = set()
        local = {}
        for p in b['params']:
            ty = t.types[p[2]]
            if not p[3] and OWN.match(ai.bare(ty)):
                local[p[0]] = (p[1], b['line'])
        for x in bodynodes(b):
            k = x[0]
            for c in callees(x):
                if not isinstance(c, int) or c < 0:
                    continue
                f = t.fns[c]
                q = f.get('sq') or f['q']
                if not f['repo'] and (SOURCES.match(q) or CLOCKS.match(q) or ENGINES.match(q) and f['k'] in ('ctor', 'copyctor', 'movector')):
                    viol.append(dict(where=where(t, i, x[1]), rule='entropy source', msg='%s is used while training or predicting' % q))
            if k == 'construct' and ENGINES.match(t.types[x[2]] if x[2] >= 0 else ''):
                viol.append(dict(where=where(t, i, x[1]), rule='entropy source', msg='an object of type %s is created while training or predicting' % t.types[x[2]][:60]))
            if k == 'decl':
                for v in x[3]:
                    vid, name, ti, init, static, binds, isref, isconst = v
                    ty = t.types[ti] if ti >= 0 else ''
                    tls = (t.globals.get(str(vid)) or t.globals.get(vid) or {}).get('tls')
                    if static or tls:
                        if isconst and constant(init, t):
                            continue
                        if isconst or not (('vector' in ty or '[' in ty) and reset_first(b['body'], vid)):
                            viol.append(dict(where=where(t, i, x[1]), rule='hidden state', msg='static variable %s keeps a value from one call to the next' % name))
                    elif not isref and OWN.match(ai.bare(ty)):
                        local[vid] = (name, x[1])
            if k == 'gref':
                g = t.globals.get(x[3]) or t.globals.get(str(x[3]))
                if g and not g['const'] and not g['var'][4]:
                    viol.append(dict(where=where(t, i, x[1]), rule='hidden state', msg='the mutable global %s is used while training or predicting' % x[4]))
            if k == 'lambda':
                for c in x[4]:
                    if c[0] == 'copy' and OWN.match(ai.bare(t.types[c[3][2]] if isinstance(c[3], list) and c[3][2] >= 0 else '')):
                        local[c[1]] = (c[2], x[1])
        if local:
            for x in bodynodes(b):
                if x[0] == 'mcall' and isinstance(x[3], int) and t.fns[x[3]]['k'] == 'method':
                    draws |= {y[3] for y in [strip(x[4])] if isinstance(y, list) and y[0] == 'ref'}
                if x[0] == 'opcall' and x[3] == '()' and isinstance(x[4], int) and t.fns[x[4]]['k'] == 'method':
                    draws |= {y[3] for y in [strip(x[5][0])] if isinstance(y, list) and y[0] == 'ref'}
                if x[0] in ('call', 'mcall', 'construct'):
                    f = t.fns[x[3]] if isinstance(x[3], int) else None
                    args = x[5] if x[0] == 'call' else x[6] if x[0] == 'mcall' else x[4]
                    for j, a in enumerate(args if f else []):
                        ty = t.types[f['pt'][j]] if j < len(f['pt']) else ''
                        y = strip(a)
                        if ty.endswith('&') and not ty.startswith('const ') and isinstance(y, list) and y and y[0] == 'ref':
                            draws.add(y[3])
            for vid in sorted(set(local) & draws):
                viol.append(dict(where=where(t, i, local[vid][1]), rule='own generator', msg='random numbers are drawn from %s, which is not a generator of the model' % local[vid][0]))
    return n, viol


# ------------------------------------------------------------------ interpretation of the training calls
def items(tier):
    out = []
    for est in scen.EST:
        for w in (False, True):
            for fit in (False, True):
                for which in ('fit', 'partial_fit'):
                    for ep in ((1,) if tier == 'quick' else (1, 2)):
                        for L in ((2, 3) if tier != 'quick' and scen.is_clf(est) else (2,)):
                            for bm in ((False, True) if not scen.is_clf(est) else (False,)):
                                out.append(('train', est, which, w, fit, ep, L, bm))
        for seed in ('given', 'absent'):
            for via in ('json', 'args'):
                out.append(('make', est, seed, via, None, None, None, None))
    return out


def foreign(t):
    """leaves of a term that come from outside the model, its parameters and the arguments"""
    bad = []
    for h in ('fresh', 'global', 'extglobal'):
        bad += behave.leaves(t, h)
    return bad


ENTROPY = ('entropy', 'mutable-global', 'write-global')


def train_scen(path, item):
    _, est, which, w, fit, ep, L, bm = item
    over = behave.seeded_over(path)
    if bm:
        over['box_muller'] = True
    path.mixed = est.endswith('bitwise')
    ww, sh, e = behave.prepared(path, est, fit, weighted=w, L=L, over=over)
    X, y = behave.train_args(path, est, sh)
    bad, inits, first = [], [], []
    seed = over['random_state']

    def own(g):
        o = g.get()
        st = scen.state(e)
        for k in ('igen', 'fgen'):
            if st.f[k].get() is o:
                return k
        return None

    def adv(I, real):
        def f(g, how, *extra):
            k = own(g)
            if k is None:
                bad.append('%s draws from a generator that is not the state\'s own (%s)' % (how, I.where()))
            elif k not in inits and k not in first:
                first.append(k)
            return real(g, how, *extra)
        return f

    def spy(I, f, this, args):
        k = own(this)
        if k is None:
            bad.append('a generator other than the state\'s own is seeded (%s)' % I.where())
        else:
            t = term(args[0]) if args else None
            at = ai.atoms(t) | {str(x.t) for x in foreign(t)}
            if at - {'seed'}:
                bad.append('%s is seeded from %s' % (k, ', '.join(sorted(at - {'seed'}))))
            elif 'seed' not in at:
                bad.append('%s is seeded with %s, not from random_state' % (k, t))
            inits.append(k)
        return NotImplemented

    hooks = dict(kern.HOOKS, **{'BasePRNG::init': spy})

    def setup(I):
        I.advance = adv(I, I.advance)
    path.events = [ev for ev in path.events if ev[0] not in ENTROPY]
    o = scen.call_fit(path, est, e, which, X, y, L, ep, hooks, hooksetup=setup)
    b = behave.outcome_bad(o, path)
    if b:
        return b
    if scen.status(o) != 0:
        return 'bad', 'valid data is rejected with status %s' % (scen.status(o),)
    if bad:
        return 'bad', bad[0]
    ev = [x for x in path.events if x[0] in ENTROPY]
    if ev:
        return 'bad', 'uses %s (%s)' % (ev[0][1] if len(ev[0]) > 2 else 'hardware entropy', ev[0][-1])
    seeds = which == 'fit' or not fit
    if seeds:
        for k in ('igen', 'fgen'):
            if k not in inits:
                return 'bad', '%s is not seeded' % k
            if k in first:
                return 'bad', '%s is drawn from before it is seeded' % k
    elif inits:
        return 'bad', 'partial_fit of a trained model seeds %s again' % inits[0]
    st = scen.state(e)
    for k in scen.PARTS:
        f = foreign(term(st.f[k]))
        if f:
            return 'bad', '%s depends on %s' % (k, str(f[0].t)[:120])
    return 'ok', None


def make_scen(path, item):
    _, est, seed, via = item[:4]
    vals = params.sane(est)
    if seed == 'given':
        a = ai.atom('seed')
        path.iv[a] = (0, 2**32 - 1)
        vals['random_state'] = a
    else:
        vals.pop('random_state', None)
    if via == 'args' and seed == 'absent':
        o = params.call_args(path, est, 'defaults', [])
    else:
        o = params.create(path, est, via, vals)
    kind, r = params.result(o)
    if o.kind == 'imprecise':
        return 'und', o.v
    if kind != 'ok':
        return 'bad', 'valid parameters are refused: %s' % (r,)
    e = o.v.v.get()
    mp = scen.state(e).f['m_params'].get()
    ev = [x for x in path.events if x[0] in ENTROPY]
    if seed == 'given':
        if ev:
            return 'bad', 'an explicit random_state is given, yet %s is used (%s)' % (ev[0][0], ev[0][-1])
        v = mp.d['random_state'].get()
        v = v.cell.get() if isinstance(v, ai.Var) else v
        if v != a:
            return 'bad', 'the stored random_state %s is not the one given' % (v,)
    for k, c in mp.d.items():
        if k != 'random_state' and foreign(term(c)):
            return 'bad', 'parameter %s depends on hardware entropy' % k
    for g in ('igen', 'fgen'):
        if foreign(term(scen.state(e).f[g])):
            return 'bad', '%s of a new estimator depends on hardware entropy' % g
    return 'ok', None


def scenario(path, item):
    return make_scen(path, item) if item[0] == 'make' else train_scen(path, item)


def label(i):
    if i[0] == 'make':
        return 'make %s from %s (random_state %s)' % (i[1], i[3], i[2])
    return 'Tsetlini::%s::%s (%sweighted, %s model, %d epochs, %d labels%s)' % (scen.EST[i[1]][0], i[2], '' if i[3] else 'un', 'fitted' if i[4] else 'unfitted', i[5], i[6], ', box_muller' if i[7] else '')


def run(prop, tier):
    n0, viol = lint([])
    its = items(tier)
    fn = behave.runner(scenario, label)
    fn.rule = 'own generators'
    rs = model.parallel(its, fn)
    und, n = [], 0
    for r in rs:
        viol += [v for v in r['viol'] if v not in viol]
        und += r['und']
        n += r['n']
    cov = {'obligations': len(its) + n0, 'discharged': len(its) + n0 - len(und), 'checker_cmd': 'python3 checks/run.py C11 %s' % tier, 'functions_linted': n0, 'paths': n,
           'trusted_base': ['clang 18 type-checked syntax tree', 'call graph over it (checks/sources.py)', 'abstract interpreter checks/ai.py', 'kernels as uninterpreted functions (checks/kern.py)']}
    return dict(coverage=cov, violations=viol, undecided=und, instances=n + n0, floor=100)

"""C21: no integer division or remainder with a zero divisor.

All integer divisions of the code reachable from the public API are enumerated from the syntax trees.  Each must be met while the
scenario families of the other checks (accepted and rejected data, smallest and symbolic dimensions, every training and evaluation
kernel, initialisation, inference) are interpreted, and its divisor must be non-zero there on every path."""
import ai, vt, model, scen, params, kern, behave, inputs, initial, clause, automata, votes, solve, sources
from ai import Cell, Vec, Ptr, Sym, term, atom

INTS = set(ai.SCALARS)


def literal(d):
    while d and d[0] in ('cast', 'temp'):
        d = d[4] if d[0] == 'cast' else d[3]
    return bool(d) and d[0] == 'int' and int(d[3]) != 0


def sites():
    """{(function, line): number of divisions} for divisors that are not non-zero literals"""
    out = {}
    rs = sources.roots(sources.RUNTIME) + sources.roots(['read_params', 'clone_state'])
    P = model.prog()
    for n in ('make_classifier_classic_from_json', 'make_classifier_bitwise_from_json', 'make_regressor_classic_from_json', 'make_regressor_bitwise_from_json', 'to_json_string', 'from_json_string', 'operator=='):
        rs += P.find('Tsetlini::' + n)
    for est in scen.EST:
        rs += [k for k in P.find('vtapi::make_%s_all' % est)]
    for t, i in sources.reach(rs):
        if sources.is_logger(t, i):
            continue
        for x in sources.bodynodes(t.bodies[i]):
            if x[0] == 'bin' and x[3] in ('/', '%', '/=', '%=') and ai.bare(t.types[x[2]]) in INTS and not literal(x[5]):
                out[sources.name_of(t, i), x[1]] = t.bodies[i]['file']
    return out


# ------------------------------------------------------------------ training through the public interface
def fit_items(tier):
    out = []
    for est in scen.EST:
        for fit in (False, True):
            for which in ('fit', 'partial_fit'):
                if scen.is_clf(est):
                    for yk in ('zero', 'three', 'sym', 'first'):
                        for maxl in ('low', 1, 2, 'sym'):
                            for N in (1, 2):
                                out.append(('fit', est, which, fit, yk, maxl, N))
                else:
                    for yk in ('zero', 'T', 'sym'):
                        for N in (1, 2):
                            out.append(('fit', est, which, fit, yk, None, N))
    return out


def fit_scen(path, it):
    _, est, which, fit, yk, maxl, N = it
    clf = scen.is_clf(est)
    path.mixed = est.endswith('bitwise') and not (fit and which == 'partial_fit')
    ck = 'number_of_clauses_per_label' if clf else 'number_of_regressor_clauses'
    over = dict(behave.seeded_over(path))
    over[ck] = 4 if clf else 2
    w, sh, e = behave.prepared(path, est, fit, r=1, L=2, over=over)
    if sh.kind == 'vec':
        sh.F, sh.freps = (1, [0]) if not fit else (sh.F, sh.freps)
    sh.N, sh.nreps = N, list(range(N))
    T = scen.state(e).f['m_params'].get().d['threshold'].get().cell.get()
    lo, hi = {'zero': (0, 0), 'three': (3, 3), 'sym': (0, 100), 'first': (0, 1), 'T': (T, T)}[yk]
    if yk == 'sym' and not clf:
        hi = T
    ys = []
    for k in range(N):
        if lo == hi:
            ys.append(lo)
        else:
            ys.append(w.var('y%d' % k, lo, hi))
    y = Vec(N, [(k, Cell(v)) for k, v in enumerate(ys)], None, scen.INTVEC)
    m = 0
    if clf:
        m = {'low': (scen.INT_MAX * -1 - 1, 0), 'sym': (2, 1000)}.get(maxl)
        m = w.var('maxl', *m) if m else maxl
    path.auto = False
    o = scen.call_fit(path, est, e, which, sh.X(), y, m, 1, kern.HOOKS)
    return o


def coin_scen(path, it):
    F, k = it
    est = 'classifier_classic'
    w, sh, e = behave.prepared(path, est, True, over=behave.seeded_over(path))
    path.auto = False
    st = scen.state(e)
    keys = [x for x in model.prog().find('Tsetlini::CoinTosserExact::tosses%d' % k)]
    if not keys:
        raise vt.Broken('anchor CoinTosserExact::tosses%d' % k)
    drawn = [0]

    def draw(I, f, this, args):
        drawn[0] += 1
        if drawn[0] > F + 2:
            raise ai.Imprecise('enough draws')
        a = atom('draw%d' % drawn[0])
        I.p.iv[a] = (0, 2**32 - 1)
        return a
    return model.run_fn(path, keys[0], [st.f['igen']], {'BasePRNG::rand': draw}, this=Cell(automata.coin(path, F, 0)))


# ------------------------------------------------------------------ families
def families(tier):
    full = tier == 'thorough'
    out = [('fit', i) for i in fit_items(tier)]
    au = [i for i in automata.items('quick') if i[0] in ('clf', 'reg')]
    small = [i for i in au if i[3] in (1, 3)]
    rest = [i for i in au if i[3] not in (1, 3)]
    out += [('train', i) for i in small[::1 if full else 4] + rest[::4 if full else 24]]
    out += [('coin', (F, k)) for F in (1, 2, 5) for k in (1, 2)]
    out += [('volume', i) for i in automata.vitems('quick') if i[2:4] in ((0, 1), (2, 4))]
    out += [('initial', i) for i in initial.items('quick')[::1 if full else 3]]
    out += [('clause', i) for i in clause.items('quick') if i[2] == 16 and i[6] and (i[4] in (1, 3, 17) or i[4] in ((0, 1), (1, 0), (16, 7)))]
    out += [('votes', i) for i in votes.c06_items('quick')[::1 if full else 4]]
    out += [('feedback', i) for i in votes.c07_items('quick')]
    out += [('readers', i) for i in behave.c10_items('quick') if not i[3]]
    out += [('accept', i) for i in inputs.c12_items('quick') if i[3] and i[2] in ('fit', 'partial_fit') and i[5] == 5 and ('mid' in i[4] or 'empty' in i[4] or 'only' in i[4] or 'shorter' in i[4])]
    out += [('refuse', i) for i in inputs.c13_items('quick') if 'empty' in str(i) or 'y' in str(i[3:])]
    return out


def outcome(fam, it):
    """run one scenario for the divisions met on the way"""
    if fam == 'fit':
        try:
            for p, o in ai.explore(lambda p: inputs.scen_guard(fit_scen, p, it), 60):
                yield p
        except ai.PathLimit:
            pass
    elif fam == 'coin':
        try:
            for p, o in ai.explore(lambda p: coin_scen(p, it), 60):
                yield p
        except ai.PathLimit:
            pass
    elif fam == 'train':
        automata.item(it)
    elif fam == 'volume':
        automata.vitem(it)
    elif fam == 'initial':
        initial.item(it)
    elif fam == 'clause':
        clause.item(it)
    elif fam == 'votes':
        votes.c06_item(it)
    elif fam == 'feedback':
        votes.c07_item(it)
    elif fam == 'readers':
        f = behave.runner(behave.c10_scen, behave.label10)
        f.rule = ''
        f(it)
    elif fam == 'accept':
        inputs.one(inputs.c12_scen, 'C12')(it)
    elif fam == 'refuse':
        inputs.one(inputs.c13_scen, 'C13')(it)


def work(x):
    fam, it = x
    ai.DIVS = []
    out = {'n': 0, 'viol': [], 'und': [], 'seen': {}}
    try:
        for _ in outcome(fam, it) or ():
            pass
    except vt.Broken:
        pass
    finally:
        log, ai.DIVS = ai.DIVS, None
    for fn, line, z, b, p in log:
        s = out['seen'].setdefault((fn, line), [0, None, None])
        s[0] += 1
        if z is False:
            continue
        scen_ = '%s %s' % (fam, it)
        if z:
            s[1] = s[1] or 'the divisor is zero (%s)' % scen_[:160]
            continue
        if s[1] is None and s[2] is None:
            try:
                A = solve.witness(p, lambda A: solve.ev(ai.lin(b), A) == 0, [ai.lin(b)], 1500)
            except Exception:
                A = None
            if A is not None and not [k for k in p.memo if k and k[0] != 'num']:
                s[1] = 'the divisor %s can be zero (%s)' % (ai.show(term(b))[:80], scen_[:120])
            else:
                s[2] = 'divisor %s not shown non-zero in %s' % (ai.show(term(b))[:80], scen_[:120])
    return out


def run(prop, tier):
    S = sites()
    fs = families(tier)
    viol, und, n = [], [], 0
    met = {}
    for (fam, it), r in zip(fs, model.parallel(fs, work)):
        for k, (c, bad, u) in r.get('seen', {}).items():
            if k not in S:      # literal divisors, analysis wrappers
                if not any(k[0] == a for a, _ in S) or not bad:
                    continue
            m = met.setdefault(k, [0, None, None])
            m[0] += c
            m[1] = m[1] or bad
            m[2] = m[2] or u
    for (fn, line), f in sorted(S.items()):
        n += 1
        m = met.get((fn, line))
        where = '%s (%s:%s)' % (fn, f, line)
        if m is None:
            und.append('%s: the division is not met in any scenario' % where)
        elif m[1]:
            viol.append(dict(where=where, rule='zero divisor', msg=m[1]))
        elif m[2]:
            und.append('%s: %s' % (where, m[2]))
    cov = {'obligations': n, 'discharged': n - len(und) - len(viol), 'checker_cmd': 'python3 checks/run.py C21 %s' % tier, 'scenarios': len(fs), 'divisions_met': sum(m[0] for m in met.values()),
           'sites': ['%s:%s' % (f, l) for (fn, l), f in sorted(S.items())],
           'trusted_base': ['clang 18 type-checked syntax tree', 'abstract interpreter checks/ai.py', 'scenario families of C01, C05-C07, C10, C12, C13']}
    return dict(coverage=cov, violations=viol, undecided=und, instances=n + len(fs), floor=100,
                assumptions=['dimensions from the smallest accepted upwards; models loaded from edited JSON are outside (C16)'])

"""C20: every accepted enumeration value is implemented; C26: loss functions."""
import itertools
import ai, vt, model, scen, kern, behave, votes, params, solve, initial
from ai import Cell, Vec, Ptr, Sym, Obj, Lin, term, atom

INT_MAX = 2**31 - 1


# ------------------------------------------------------------------ literals of the tree
def literals():
    """string and integer literals appearing in function bodies of the library: candidate enumeration values"""
    strs, ints = set(), set()
    seen = set()

    def walk(n):
        if isinstance(n, list):
            if n and n[0] == 'str' and isinstance(n[-1], str):
                strs.add(n[-1])
            elif n and n[0] == 'int' and isinstance(n[-1], int):
                ints.add(n[-1])
            for x in n:
                if isinstance(x, list):
                    walk(x)
    for tu in model.prog().tus:
        for i, b in tu.bodies.items():
            f = tu.fns[i]
            if not f or not f['repo'] or f['q'] in seen and not f.get('ta'):
                continue
            seen.add(f['q'])
            walk(b['body'])
    return strs, ints


def accepted(est, key, ty, v):
    """outcomes of both construction routes for one value: {'ok', 'err', ...}"""
    out = set()
    for via in ('args', 'json'):
        vals = params.sane(est)
        vals[key] = v
        for p, o in ai.explore(lambda p: params.create(p, est, via, vals), 200):
            out.add(params.result(o)[0])
    return out


# ------------------------------------------------------------------ C20
TYPES = {'int8': 'signed char', 'int16': 'short', 'int32': 'int'}


def c20_counting(it):
    _, est, v = it
    out = {'n': 0, 'viol': [], 'und': []}
    acc = accepted(est, 'counting_type', 'str', v)
    if 'ok' not in acc:
        out['n'] = 1
        return out

    def go(path):
        e, o = initial.start(path, est, {'counting_type': v, 'number_of_states': 100, 'number_of_clauses_per_label' if scen.is_clf(est) else 'number_of_regressor_clauses': 4}, 1, 2, initial.pattern)
        b = behave.outcome_bad(o, path)
        if b:
            return [b]
        t = scen.state(e).f['ta_state'].get().f['matrix'].get().alt
        w = TYPES.get(v)
        if w and t != 'basic_numeric_matrix<%s>' % w:
            return [('bad', "counting_type '%s' gives counters of type %s" % (v, t))]
        if v not in params.COUNTING:
            return [('bad', "counting_type '%s' is accepted but no counter type is chosen for it (%s is used)" % (v, t))]
        return [('ok', '')]
    votes.collect(out, 'initialize_state, %s' % est, go, 'enumeration')
    return out


def lossfn():
    ks = [k for k in model.prog().find('Tsetlini::make_loss_fn')]
    if not ks:
        raise vt.Broken('anchor make_loss_fn')
    return ks


def loss_paths(name, cdom, run=None):
    """[(path, term or Outcome)] of the loss function of that name at error x with constant C1"""
    out = []

    def go(p):
        C, x = atom('C1'), atom('x')
        for a, iv in ((C, cdom), (x, (-1e6, 1e6))):
            p.floats.add(a)
            p.iv[a] = (float(iv[0]), float(iv[1]))
        p.native = True
        key = lossfn()[0]
        pt = kern.ptypes(key[0].fns[key[1]])
        o = model.run_fn(p, key, [name, C][:len(pt)])
        if o.kind != 'ret':
            return o
        o2 = model.guarded(lambda: o.interp.apply(o.v, [Cell(x)]))
        return o2
    for p, o in ai.explore(go, 400):
        out.append((p, o))
    return out


def c20_loss(it):
    _, v = it
    out = {'n': 1, 'viol': [], 'und': []}
    acc = {}
    for est in ('regressor_classic', 'regressor_bitwise'):
        acc[est] = accepted(est, 'loss_fn', 'str', v)
    if not any('ok' in a for a in acc.values()):
        return out
    where = model.where(*lossfn()[0])
    for p, o in loss_paths(v, (0, 1)):
        out['n'] += 1
        if o.kind in ('abort', 'throw'):
            out['viol'].append({'where': where, 'rule': 'enumeration', 'msg': "the accepted loss function '%s' ends in %s: %s" % (v, o.kind, o.v)})
        elif o.kind == 'imprecise':
            out['und'].append("%s: loss function '%s': %s" % (where, v, o.v))
    return out


def c20_same(it):
    _, a, b, same = it
    out = {'n': 1, 'viol': [], 'und': []}
    where = model.where(*lossfn()[0])
    A, B = pieces(a), pieces(b)
    if isinstance(A, str) or isinstance(B, str):
        out['und'].append('%s: %s' % (where, A if isinstance(A, str) else B))
        return out
    d = differ(A, B)
    if same and d:
        out['viol'].append({'where': where, 'rule': 'enumeration', 'msg': "loss functions '%s' and '%s' are two spellings of one function but differ at error %g with constant %g" % (a, b, d[0], d[1])})
    if not same and not d:
        out['viol'].append({'where': where, 'rule': 'enumeration', 'msg': "loss functions '%s' and '%s' are the same function" % (a, b)})
    return out


def differ(A, B):
    for x, C in itertools.product((0.0, 0.25, -0.25, 0.75, -1.0, 1.5, -3.0), (0.0, 0.25, 0.5, 1.0)):
        va, vb = at(A, x, C), at(B, x, C)
        if va is not None and vb is not None and abs(va - vb) > 1e-5 * (1 + abs(va)):
            return x, C
    return None


def c20_tile(it):
    _, v = it
    out = {'n': 0, 'viol': [], 'und': []}
    est = [e for e in params.ESTS if 'ok' in accepted(e, 'clause_output_tile_size', 'int', v)]
    out['n'] = 1
    if not est:
        return out
    for name, npar in (('calculate_clause_output', 7), ('calculate_clause_output_with_pruning', 6)):
        for key in model.prog().find('Tsetlini::' + name):
            if len(key[0].fns[key[1]]['pt']) != npar:
                continue
            where = model.where(*key)

            def go(path):
                hit = []

                def h(I, f, this, args):
                    if f.get('ta') and f['ta'][0].rstrip('Uul').isdigit():
                        hit.append(int(f['ta'][0].rstrip('Uul')))
                        return None
                    return NotImplemented
                hooks = {n: h for n in tiled()}
                args = [Cell(atom('arg%d' % k)) for k in range(npar)]
                args[-1] = Cell(v)
                for a in args[:-1]:
                    path.iv[a.get()] = (1, 1000)
                o = model.run_fn(path, key, args, hooks)
                if o.kind in ('abort', 'throw'):
                    return [('bad', 'clause_output_tile_size %d: %s' % (v, o))]
                if o.kind != 'ret' or not hit:
                    return [('und', 'clause_output_tile_size %d: %s' % (v, o))]
                if hit != [v]:
                    return [('bad', 'the accepted clause_output_tile_size %d is evaluated with tiles of %s' % (v, hit))]
                return [('ok', '')]
            votes.collect(out, where, go, 'enumeration')
    return out


_tiled = None


def tiled():
    """functions of the library instantiated with an integer as first template argument, with a clause evaluation signature"""
    global _tiled
    if _tiled is None:
        _tiled = set()
        for tu in model.prog().tus:
            for f in (tu.fns.values() if isinstance(tu.fns, dict) else tu.fns):
                if f and f['repo'] and f.get('ta') and f['ta'][0].rstrip('Uul').isdigit() and 'clause_output' in f['q']:
                    _tiled.add(f['sq'])
    return _tiled


# ------------------------------------------------------------------ polynomials in a = |x|, C
class Poly(dict):
    def add(self, o, k=1.0):
        r = Poly(self)
        for m, c in o.items():
            r[m] = r.get(m, 0.0) + k * c
        return r.clean()

    def clean(self):
        for m in [m for m, c in self.items() if abs(c) < 1e-9]:
            del self[m]
        return self

    def mul(self, o):
        r = Poly()
        for (a, b), c in self.items():
            for (d, e), f in o.items():
                r[a + d, b + e] = r.get((a + d, b + e), 0.0) + c * f
        return r.clean()

    def sub(self, which, by):
        """replace variable number which (0: a, 1: C) by a polynomial"""
        r = Poly()
        for m, c in self.items():
            t = Poly({(0, m[1]) if which == 0 else (m[0], 0): c})
            for _ in range(m[which]):
                t = t.mul(by)
            r = r.add(t)
        return r

    def val(self, a, C):
        return sum(c * a**m[0] * C**m[1] for m, c in self.items())


A1, C1, ONE = Poly({(1, 0): 1.0}), Poly({(0, 1): 1.0}), Poly({(0, 0): 1.0})


class Unknown(Exception):
    pass


def poly(t, sg):
    """term as a polynomial, x = sg * a"""
    if isinstance(t, (bool, int, float)):
        return Poly({(0, 0): float(t)}).clean()
    if isinstance(t, Lin):
        r = Poly({(0, 0): float(t.c)}).clean()
        for s, k in t.k.items():
            r = r.add(poly(s, sg), k)
        return r
    k, a = t.t[0], t.t[1:]
    if t is atom('x'):
        return Poly({(1, 0): float(sg)})
    if t is atom('C1'):
        return C1
    if k == 'p':
        return poly(a[0], sg)
    if k == 'f+': return poly(a[0], sg).add(poly(a[1], sg))
    if k == 'f-': return poly(a[0], sg).add(poly(a[1], sg), -1.0)
    if k in ('f*', 'mul'): return poly(a[0], sg).mul(poly(a[1], sg))
    if k == 'f/':
        d = poly(a[1], sg)
        if set(d) == {(0, 0)}:
            return poly(a[0], sg).mul(Poly({(0, 0): 1.0 / d[0, 0]}))
    if k in ('abs', 'fabs', 'fn.fabs', 'fn.abs', 'fn.fabsf') or k.startswith('fn.') and k.split('::')[-1].split('.')[-1] in ('abs', 'fabs', 'fabsf'):
        q = poly(a[0], sg)
        if all(c >= 0 for c in q.values()): return q
        if all(c <= 0 for c in q.values()): return Poly({m: -c for m, c in q.items()})
    if k.startswith('fn.') and k.split('.')[-1].split('::')[-1] in ('pow', 'powf') and len(a) == 2 and isinstance(a[1], (int, float)) and a[1] in (0, 1, 2, 3, 4):
        r = ONE
        for _ in range(int(a[1])):
            r = r.mul(poly(a[0], sg))
        return r
    raise Unknown(ai.show(t))


class Piece:
    """sg: sign of x; conds: [(op, Poly)] with op in '==', '<=', '<', '>', '>=', '!=' against 0; f: Poly"""
    def __init__(self, sg, conds, f):
        self.sg, self.conds, self.f = sg, conds, f

    def holds(self, a, C, skip=None):
        for k, (op, d) in enumerate(self.conds):
            if k == skip:
                continue
            v = d.val(a, C)
            if not {'==': abs(v) < 1e-9, '!=': abs(v) >= 1e-9, '<=': v <= 1e-12, '<': v < -1e-12, '>': v > 1e-12, '>=': v >= -1e-12}[op]:
                return False
        return True


NEG = {'<=': '>', '<': '>=', '==': '!='}


def pieces(name, cdom=(0, 1)):
    """pieces of the loss function or a text saying why they could not be derived"""
    out = []
    try:
        for p, o in loss_paths(name, cdom):
            if o.kind != 'ret':
                return '%s: %s' % (name, o)
            num, other = solve.constraints(p)
            if other:
                return '%s: decision %s' % (name, str(other[0])[:100])
            t = term(o.v) if not isinstance(o.v, (int, float)) else o.v
            for sg in (1, -1):
                out.append(Piece(sg, [(op if b else NEG[op], poly(d, sg)) for op, d, b in num], poly(t, sg)))
    except Unknown as e:
        return '%s: term %s' % (name, e)
    except ai.PathLimit:
        return '%s: too many paths' % name
    return out


def at(ps, x, C):
    sg, a = (1 if x >= 0 else -1), abs(x)
    for p in ps:
        if p.sg == sg and p.holds(a, C):
            return p.f.val(a, C)
    return None


CDOM = {'berHu': (0.0, 1000.0), 'L1+2': (0.0, 1.0)}
GRID = [0.0, 1e-3, 0.05, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.99, 1.0, 1.01, 1.25, 1.5, 2.0, 3.0, 5.0, 10.0, 50.0, 400.0]


def c26_item(it):
    _, name = it
    out = {'n': 0, 'viol': [], 'und': []}
    where = model.where(*lossfn()[0])
    dom = CDOM.get(name, (0.0, 1000.0))
    ps = pieces(name, dom)
    if isinstance(ps, str):
        out['n'] = 1
        out['und'].append('%s: %s' % (where, ps))
        return out
    Cs = [c for c in GRID if dom[0] <= c <= dom[1]]
    bad = lambda msg: out['viol'].append({'where': where, 'rule': 'loss-function', 'msg': "loss function '%s' %s" % (name, msg)})
    und = lambda msg: out['und'].append("%s: loss function '%s' %s" % (where, name, msg))
    # zero at zero
    for p in ps:
        z = p.f.sub(0, Poly())
        out['n'] += 1
        if z:
            w = [C for C in Cs if p.holds(0.0, C) and abs(z.val(0, C)) > 1e-6]
            feas = any(p.holds(0.0, C) for C in Cs)
            if w:
                bad('is %g at zero error (constant %g)' % (z.val(0, w[0]), w[0]))
            elif feas:
                und('at zero error')
    # non-negative
    for p in ps:
        out['n'] += 1
        if nonneg(p, dom):
            continue
        w = [(a, C) for a in GRID for C in Cs if p.holds(a, C) and p.f.val(a, C) < -1e-6 * (1 + a * a)]
        if w:
            a, C = w[0]
            bad('is negative (%g) at error %g with constant %g' % (p.f.val(a, C), p.sg * a, C))
        else:
            und('non-negativity of %s' % dict(p.f))
    # continuity across each boundary
    for p, q in itertools.combinations(ps, 2):
        if p.sg != q.sg:
            continue
        out['n'] += 1
        r = boundary(p, q, Cs)
        if r == 'und':
            und('continuity between two of its pieces')
        elif r:
            bad('jumps from %g to %g at error %g with constant %g' % r)
    for p in ps:        # left and right of zero
        for q in ps:
            if p.sg == 1 and q.sg == -1:
                out['n'] += 1
                for C in Cs:
                    if p.holds(0.0, C) and q.holds(0.0, C) and abs(p.f.val(0, C) - q.f.val(0, C)) > 1e-6:
                        bad('jumps at zero error with constant %g' % C)
                        break
    return out


def nonneg(p, dom):
    """non-negative coefficients after a substitution that expresses the region"""
    f = p.f
    cands = [f]
    for op, d in p.conds:
        # a <= C: C = a + t;  a > C: a = C + t
        if set(d) <= {(1, 0), (0, 1)} and d.get((1, 0)) and d.get((0, 1)) and abs(d[1, 0] + d[0, 1]) < 1e-9:
            up = (d[1, 0] > 0) == (op in ('>', '>='))
            # variables reused: after substitution index 0 or 1 stands for t
            cands.append(f.sub(0, C1.add(A1)) if up else f.sub(1, A1.add(C1)))
    if dom == (0.0, 1.0):       # multiply by C + D = 1, D = 1 - C >= 0: Bernstein form in C
        n = max([m[1] for m in f] + [1])
        import math
        ok = True
        for i in sorted({m[0] for m in f}):
            co = [f.get((i, j), 0.0) for j in range(n + 1)]
            bern = [sum(math.comb(k, j) / math.comb(n, j) * co[j] for j in range(k + 1)) for k in range(n + 1)]
            ok = ok and min(bern) >= -1e-9
        if ok:
            return True
    return any(all(c >= 0 for c in g.values()) for g in cands)


def boundary(p, q, Cs):
    """None: continuous or not adjacent; 'und'; or the two values, the error and the constant"""
    d = p.f.add(q.f, -1.0)
    if not d:
        return None
    found = False
    for i, (op, c) in enumerate(p.conds):
        js = [j for j, (o2, c2) in enumerate(q.conds) if not c.add(c2, -1.0) and opposite(op, o2)]
        for j in js:
            found = True
            if set(c) <= {(1, 0), (0, 1), (0, 0)} and c.get((1, 0)):
                k = c[1, 0]
                sol = Poly({m: -v / k for m, v in c.items() if m != (1, 0)}).clean()
                dd = d.sub(0, sol)
                if not dd:
                    continue
                for C in Cs:
                    a = sol.val(0, C)
                    if a >= 0 and abs(dd.val(0, C)) > 1e-5 * (1 + a * a) and p.holds(a, C, i) and q.holds(a, C, j):
                        return p.f.val(a, C), q.f.val(a, C), p.sg * a, C
            else:
                for C in Cs:
                    for a in roots(lambda a: c.val(a, C)):
                        v, w = p.f.val(a, C), q.f.val(a, C)
                        if abs(v - w) > 1e-5 * (1 + a * a) and p.holds(a, C, i) and q.holds(a, C, j):
                            return v, w, p.sg * a, C
                return 'und'
    return None


def roots(f):
    """non-negative places where f changes its sign, located by bisection"""
    pts = [k / 64.0 for k in range(0, 64 * 16)] + [16.0 * 1.05**k for k in range(70)]
    out = []
    for a, b in zip(pts, pts[1:]):
        fa, fb = f(a), f(b)
        if fa == 0:
            out.append(a)
        elif fa * fb < 0:
            for _ in range(200):
                m = (a + b) / 2
                if f(m) * fa > 0:
                    a = m
                else:
                    b = m
            out.append(a)
    return out


def opposite(a, b):
    s = lambda o: {'<=': -1, '<': -1, '>': 1, '>=': 1, '==': 0, '!=': 0}[o]
    return s(a) != s(b) or a != b


# ------------------------------------------------------------------
DISPATCH = {'counting': c20_counting, 'loss': c20_loss, 'same': c20_same, 'tile': c20_tile, 'c26': c26_item}


def item(it):
    return DISPATCH[it[0]](it)


def run(prop, tier):
    model.prog()
    lossfn()
    if prop == 'C26':
        its = [('c26', n) for n in params.LOSSES]
    else:
        strs, ints = literals()
        names = sorted(strs | set(params.LOSSES) | set(params.COUNTING))
        names = [s for s in names if len(s) <= 12 and ' ' not in s]
        its = [('counting', e, s) for e in params.ESTS for s in names]
        its += [('loss', s) for s in names]
        tiles = sorted({i for i in ints if 0 < i < 2**20} | set(range(1, 70 if tier == 'quick' else 260)) | {2**k for k in range(20)} | {2**k - 1 for k in range(1, 12)} | {2**k + 1 for k in range(12)} | {3 * 2**k for k in range(8)})
        its += [('tile', t) for t in tiles]
        its += [('same', 'L1', 'MAE', True), ('same', 'L2', 'MSE', True), ('same', 'L1', 'L2', False), ('same', 'MAE', 'MSE', False)]
        its += [('same', a, b, False) for a, b in (('berHu', 'L1+2'), ('L1', 'berHu'), ('L2', 'berHu'), ('L1', 'L1+2'), ('L2', 'L1+2'))]
    viol, und, n, seen = [], [], 0, set()
    for r in model.parallel(its, item):
        n += r['n']
        und += r['und']
        for v in r['viol']:
            k = (v['where'], v['msg'])
            if k not in seen:
                seen.add(k)
                viol.append(v)
    cov = {'obligations': n, 'discharged': n - len(und) - len(viol), 'checker_cmd': 'checks/run.py %s %s' % (prop, tier),
           'trusted_base': ['clang 18 front end', 'interpreter checks/ai.py'], 'values': len(its)}
    return dict(coverage=cov, violations=viol, undecided=und, instances=n, floor=20 if prop == 'C26' else 60,
                assumptions=['real arithmetic', 'constants: C1 >= 0 for berHu, 0 <= C1 <= 1 for L1+2'] if prop == 'C26' else ['candidate values: every literal of the library and the documented ones'])

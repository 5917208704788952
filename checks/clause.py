"""C05: evaluation of clauses, interpreted for itself at sizes around every tile and word boundary."""
import ai, vt, model, scen, kern, behave, votes, lazy
from ai import Cell, Vec, Ptr, Sym, Obj, Word, term, atom

FULL = lazy.FULL
WIDTHS = {'signed char': (-128, 127), 'short': (-2**15, 2**15 - 1), 'int': (-2**31, 2**31 - 1)}


def kernels():
    out = []
    for name, mode in (('calculate_clause_output', 'train'), ('calculate_clause_output_with_pruning', 'predict')):
        ks = model.prog().find('Tsetlini::' + name)
        for k in ks:
            pt = kern.ptypes(k[0].fns[k[1]])
            if len(pt) == (7 if mode == 'train' else 6):
                out.append((mode, 'bit' if 'bit_vector' in pt[0] else 'cls', k))
    if {(m, r) for m, r, _ in out} != {(m, r) for m in ('train', 'predict') for r in ('bit', 'cls')}:
        raise vt.Broken('clause evaluation entry points not found')
    return out


def sizes(kind, tile, tier):
    """feature counts (classic) or (full words, tail bits)"""
    if kind == 'cls':
        s = {1, 3, tile - 1, tile, tile + 1, 2 * tile - 1, 2 * tile}
        if tile <= 32 or tier == 'thorough':
            s |= {2 * tile + 1, 3 * tile + 5, 2}
        return sorted(s)
    s = {(0, 1), (0, 37), (1, 0), (1, 1), (tile - 1, 0), (tile - 1, 7), (tile, 0), (tile, 63), (2 * tile - 1, 0)}
    if tile <= 32 or tier == 'thorough':
        s |= {(2 * tile, 0), (2 * tile, 5), (0, 63), (2, 33), (tile + 1, 0)}
    return sorted(s)


def spots(F, tile, kind, tier):
    u = tile if kind == 'cls' else tile * 64
    c = {0, 1, F // 2, F - 1, F - 2, u - 1, u, 2 * u - 1, 2 * u}
    if kind == 'bit':
        c |= {63, 64}
    if tile >= 64 and tier != 'thorough':
        c = {0, u - 1, u, F - 1}
    return sorted(x for x in c if 0 <= x < F)


def items(tier):
    out = []
    for mode in ('train', 'predict'):
        for kind in ('cls', 'bit'):
            for tile in (16, 32, 64, 128):
                for w in (WIDTHS if kind == 'cls' else ('signed char',)):
                    for sz in sizes(kind, tile, tier):
                        if w != 'signed char' and (sz not in (1, tile - 1, tile, tile + 1) or tile > 32 and tier != 'thorough'):
                            continue
                        F = sz if kind == 'cls' else sz[0] * 64 + sz[1]
                        for j, t in enumerate(spots(F, tile, kind, tier)):
                            out.append((mode, kind, tile, w, sz, t, j == 0, tier))
    return out


CT = {'signed char': 'int8', 'short': 'int16', 'int': 'int32'}


_layouts = {}


def build(path, kind, w, F):
    """state laid out by the library itself; contents to be filled in (always all of them, so that one layout serves every case)"""
    if (kind, w, F) not in _layouts:
        p = ai.Path([])
        p.auto = True
        _layouts[kind, w, F] = build0(p, kind, w, F) + (p.iv,)
    r = _layouts[kind, w, F]
    path.iv.update(r[3])
    return r[:3]


def build0(path, kind, w, F):
    est = 'classifier_bitwise' if kind == 'bit' else 'classifier_classic'
    e = scen.fitted(path, est, F, 2, {'counting_type': CT[w], 'number_of_clauses_per_label': 4, 'number_of_states': 100})
    st = scen.state(e)
    ts = st.f['ta_state']
    m = ts.get().f['matrix'].get()
    if m.alt != 'basic_numeric_matrix<%s>' % w:
        raise ai.Imprecise('counting type %s gives %s' % (CT[w], m.alt))
    mat = m.cell
    if kind == 'bit':
        return ts, ts.get().f['polarity'], 'basic_bit_matrix<unsigned long>'
    return ts, mat, m.alt


def rowptr(path, cls, mat, r):
    P = model.prog()
    ks = [k for k in P.find(ai.strip_targs(cls) + '::row_data') if k[0].fns[k[1]]['q'].startswith(cls + '::')]
    if not ks:
        raise vt.Broken('anchor %s::row_data' % cls)
    ks = [k for k in ks if not kern.ptypes(k[0].fns[k[1]])[1:]]
    o = model.run_fn(path, ks[0], [r], this=mat)
    if o.kind != 'ret' or not isinstance(o.v, Ptr) or o.v.vec is None or not isinstance(o.v.pos, int):
        raise ai.Imprecise('row_data of row %d: %s' % (r, o))
    return o.v


NROW = 4        # 2 labels x 2 logical clauses, one positive and one negative row each -> 8 rows


class Case:
    """literal classes: f(k) -> (x, pos, neg) with x in 0/1/None and pos/neg in 'in'/'out'/None (any)"""
    def __init__(self, name, f, train, predict, sharp=False):
        self.name, self.f, self.want, self.sharp = name, f, {'train': train, 'predict': predict}, sharp


def sat(x):
    return (1, None, 'out') if x else (0, 'out', None)


PAT = (('0', lambda k: 0), ('1', lambda k: 1), ('alternating', lambda k: k & 1))


def cases(F, t, first, light):
    """the partition of all clause/sample combinations, per tracked literal t"""
    ANY = (None, None, None)
    out = []
    for x, viol in ((0, (0, 'in', None)), (1, (1, None, 'in'))):
        if light:       # every other literal satisfied, included or not: no early exit to follow up
            out.append(Case('literal %d violated (x=%d), others satisfied' % (t, x), lambda k, v=viol: v if k == t else sat(k & 1), 0, 0))
        else:
            out.append(Case('literal %d violated (x=%d)' % (t, x), lambda k, v=viol: v if k == t else ANY, 0, 0))
        v = (0, 'in', 'out') if x == 0 else (1, 'out', 'in')
        out.append(Case('only literal %d violated (x=%d), no other included' % (t, x), lambda k, v=v: v if k == t else (0, 'out', 'out'), 0, 0, True))
        out.append(Case('only literal %d violated (x=%d), all others included' % (t, x), lambda k, v=v: v if k == t else (1, 'in', 'out'), 0, 0, True))
        for nm, g in (PAT[2:] if light else PAT):
            out.append(Case('satisfied, literal %d included (x=%d), others %s' % (t, x, nm), lambda k, g=g, x=x: ((1, 'in', 'out') if x else (0, 'out', 'in')) if k == t else sat(g(k)), 1, 1))
        v = (0, 'out', 'in') if x == 0 else (1, 'in', 'out')
        out.append(Case('only literal %d included (x=%d)' % (t, x), lambda k, v=v: v if k == t else (1 - v[0], 'out', 'out'), 1, 1, True))
    if first:
        for nm, g in (PAT[2:] if light else PAT):
            out.append(Case('satisfied, sample %s' % nm, lambda k, g=g: sat(g(k)), 1, None))
            out.append(Case('all literals included and satisfied, sample %s' % nm, lambda k, g=g: (1, 'in', 'out') if g(k) else (0, 'out', 'in'), 1, 1, True))
            out.append(Case('empty clause, sample %s' % nm, lambda k, g=g: (g(k), 'out', 'out'), 1, 0, True))
        out.append(Case('empty clause', lambda k: (None, 'out', 'out'), 1, 0))
    return out


def fill(path, kind, w, ts, mat, cls, F, case, row):
    lo, hi = WIDTHS[w]
    vec = mat.get().f['m_v'].get()
    if kind == 'cls':
        vec.cells = [(i, Cell(-1)) for i in range(vec.size)]
    else:
        vec.cells = [(i, Cell(0)) for i in range(vec.size)]
    vec.content = None
    pp, pn = rowptr(path, cls, mat, 2 * row), rowptr(path, cls, mat, 2 * row + 1)

    def ctr(name, c):
        if c == 'out' and case.sharp: return -1
        if c == 'in' and case.sharp: return 0
        a = atom(name)
        path.iv[a] = {'in': (0, hi), 'out': (lo, -1), None: (lo, hi)}[c]
        return a
    if kind == 'cls':
        xs = []
        for k in range(F):
            x, p, n = case.f(k)
            if x is None:
                a = atom('x%d' % k)
                path.iv[a] = (0, 1)
                x = a
            xs.append(x)
            vec.cells[pp.pos + k][1].set(ctr('p%d' % k, p))
            vec.cells[pn.pos + k][1].set(ctr('n%d' % k, n))
        return votes.arr(xs, votes.CHARS)
    words = (F + 63) // 64
    xw = []
    for b in range(words):
        k1, k0 = [0, 0, 0], [0, 0, 0]
        for i in range(64):
            k = b * 64 + i
            if k >= F:
                for z in range(3):
                    k0[z] |= 1 << i
                continue
            x, p, n = case.f(k)
            for z, v in enumerate((x, 1 if p == 'in' else 0 if p == 'out' else None, 1 if n == 'in' else 0 if n == 'out' else None)):
                if v == 1: k1[z] |= 1 << i
                elif v == 0: k0[z] |= 1 << i
        mk = lambda z: k1[z] if k1[z] | k0[z] == FULL else Word(k1[z], k0[z])
        xw.append(mk(0))
        vec.cells[pp.pos + b][1].set(mk(1))
        vec.cells[pn.pos + b][1].set(mk(2))
    v = votes.arr(xw, scen.WORDVEC)
    return Obj(scen.BITVEC, {'m_bit_length': Cell(F), 'm_vector': Cell(v)})


def one(path, item, key, F, case):
    mode, kind, tile, w, sz = item[:5]
    ts, mat, cls = build(path, kind, w, F)
    row = 2
    X = fill(path, kind, w, ts, mat, cls, F, case, row)
    outs = [atom('old%d' % i) for i in range(NROW)]
    out = votes.arr(outs, votes.CHARS)
    before = term(mat)
    jobs = 1
    args = [X, out, row, row + 1, ts, jobs, tile] if mode == 'train' else [X, out, NROW, ts, jobs, tile]
    I = lazy.Lazy(model.prog(), path, dict(model.BASE))
    tu, i = key
    o = model.guarded(lambda: I.call(tu, i, None, [a if isinstance(a, Cell) else Cell(a) for a in args]))
    b = behave.outcome_bad(o, path)
    for e in path.events:
        if e[0] == 'out-of-range' and e[1].lstrip('-').isdigit():
            return [('bad', 'element %s outside of the sample or the state is accessed at %s: %s' % (e[1], e[2][:120], case.name))]
    if b:
        return [b]
    res = []
    want = case.want[mode]
    got = out.cells[row][1].get()
    if want is not None:
        r = I.tri(I.boolean(got)) if not isinstance(got, int) else bool(got)
        if isinstance(got, (int, Sym)) and not lazy.isbool(got) and not isinstance(got, bool):
            lo, hi = path.ival(got)
            if hi > 1 or lo < 0:
                r = None
                if lo > 1 or hi < 0:
                    return [('bad', 'the output %s is neither 0 nor 1 (%s)' % (got, case.name))]
        if r is None:
            res.append(('bad?' if case.sharp else 'und', 'output %s, expected %d: %s' % (ai.show(term(got))[:60], want, case.name)))
        elif r != bool(want):
            res.append(('bad', 'the clause outputs %d instead of %d: %s' % (r, want, case.name)))
        else:
            res.append(('ok', ''))
    for k in range(NROW):
        v = out.cells[k][1].get()
        if k == row:
            continue
        if mode == 'train' and v is not outs[k]:
            res.append(('bad', 'the output of clause %d outside of the range is written' % k))
        if mode == 'predict' and v not in (0, False):
            res.append(('bad' if v in (1, True) or v is outs[k] else 'und', 'the empty clause %d outputs %s' % (k, ai.show(term(v)))))
    return res


def item(it):
    mode, kind, tile, w, sz, t, first, tier = it
    F = sz if kind == 'cls' else sz[0] * 64 + sz[1]
    out = {'n': 0, 'viol': [], 'und': []}
    ks = [k for m, r, k in kernels() if m == mode and r == kind]
    for key in ks:
        where = '%s (%s, %d features, tile %d, %s)' % (model.where(*key), 'bit-packed' if kind == 'bit' else 'classic', F, tile, w)
        for c in cases(F, t, first, tile >= 64 and tier != 'thorough'):
            if c.want[mode] is None:
                continue
            votes.collect(out, where, lambda p: one(p, it, key, F, c), 'clause-output')
            if len(out['viol']) > 3:
                return out
    return out


def run(prop, tier):
    its = items(tier)
    its.sort(key=lambda it: -(it[4] if it[1] == 'cls' else it[4][0] + 1))
    res = model.parallel(its, item)
    viol, und, n, seen = [], [], 0, set()
    for r in res:
        n += r['n']
        und += r['und']
        for v in r['viol']:
            k = (v['where'], v['msg'][:50])
            if k not in seen:
                seen.add(k)
                viol.append(v)
    cov = {'obligations': n, 'discharged': n - len(und) - len(viol), 'checker_cmd': 'checks/run.py %s %s' % (prop, tier),
           'trusted_base': ['clang 18 front end', 'interpreter checks/ai.py, checks/lazy.py'], 'sizes': len(its)}
    return dict(coverage=cov, violations=viol, undecided=und, instances=n, floor=len(its),
                assumptions=['sample values 0/1 (C12, C13)', 'include bits beyond the last feature are 0 (C03, C08)', 'sizes up to three tiles'])


def access(tier):
    """(obligations, violations, undecided) of C08: what evaluation reads and writes"""
    its = [i for i in items(tier) if (i[2] == 16 or i[2] == 64 and i[0] == 'train') and (i[3] == 'signed char' or i[2] == 16) and i[6]]
    its.sort(key=lambda it: -(it[4] if it[1] == 'cls' else it[4][0] + 1))
    n, viol, und, seen = 0, [], [], set()
    for r in model.parallel(its, item):
        n += r['n']
        und += r['und']
        for v in r['viol']:
            k = (v['where'].split(' (')[0], v['msg'][:30])
            if ('outside' in v['msg'] or 'ends with' in v['msg']) and k not in seen:
                seen.add(k)
                viol.append(dict(v, rule='access'))
    return n, viol, und

"""C17-C20: construction of estimators (abstract interpretation of the factories and parameter code)."""
import ai, vt
from ai import Cell, Vec, Ptr, Sym, Obj, Map, Var, Ei, Opt, Js, term
import model
from model import run_fn, f32

INT_MIN, INT_MAX = -2**31, 2**31 - 1
FMAX = 3.4028234663852886e+38
INF = float('inf')
NAN = float('nan')
ESTS = ['classifier_classic', 'classifier_bitwise', 'regressor_classic', 'regressor_bitwise']
COMMON = [('number_of_states', 'int'), ('s', 'float'), ('threshold', 'int'), ('weighted', 'bool'), ('max_weight', 'int'),
          ('boost_true_positive_feedback', 'int'), ('n_jobs', 'int'), ('verbose', 'bool'), ('counting_type', 'str'),
          ('clause_output_tile_size', 'int'), ('random_state', 'uint')]
REG = [('loss_fn', 'str'), ('loss_fn_C1', 'float'), ('box_muller', 'bool')]
STR = 'std::basic_string<char>'
ALT = {'int': 'int', 'uint': 'unsigned int', 'float': 'float', 'bool': 'bool', 'str': STR}
COUNTING = ['auto', 'int8', 'int16', 'int32']
TILES = [16, 32, 64, 128]
LOSSES = ['L2', 'MSE', 'MAE', 'L1', 'berHu', 'L1+2']


def keys(est):
    if est.startswith('classifier'):
        return [('number_of_clauses_per_label', 'int')] + COMMON
    return [('number_of_regressor_clauses', 'int')] + COMMON + REG


def domain(key, v):
    """is the concrete value inside the documented domain"""
    if key == 'n_jobs': return v == -1 or v >= 1
    if key in ('number_of_states', 'threshold', 'max_weight'): return v >= 1
    if key == 's': return v == v and v >= 1 and v not in (INF, -INF)
    if key == 'number_of_clauses_per_label': return v >= 1 and v % 4 == 0
    if key == 'number_of_regressor_clauses': return v >= 1 and v % 2 == 0
    if key == 'boost_true_positive_feedback': return v in (0, 1)
    if key == 'counting_type': return v in COUNTING
    if key == 'clause_output_tile_size': return v in TILES
    if key == 'loss_fn': return v in LOSSES
    return True


class Val:
    """an abstract argument: value (constant or atom expression), the intervals of its atoms, membership in the domain"""
    def __init__(self, v, good, iv=None, label=None):
        self.v, self.good, self.iv, self.label = v, good, iv or {}, label or repr(v)


def partition(key, ty):
    """classes of values that cover the whole type; the good flag is uniform within a class"""
    out = []
    if ty == 'int':
        singles = set(range(-9, 13)) | {INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1}
        if key == 'clause_output_tile_size':
            singles |= {t + d for t in TILES for d in (-1, 0, 1)} | {24, 48, 96, 256, 512}
        if key == 'number_of_clauses_per_label':
            singles |= {14, 18, 30, 1026, 2147483644}
        for v in sorted(singles):
            out.append(Val(v, domain(key, v)))
        cuts = sorted(x for x in singles if x >= 12)
        segs = [(INT_MIN // 4, -3)] + [(3, INT_MAX // 4)]
        if key == 'clause_output_tile_size':
            segs = [(INT_MIN // 4, -3), (33, INT_MAX // 4)]
            out += [Val(v, domain(key, v)) for v in range(13, 132) if v not in singles]
        for lo, hi in segs:
            for r in range(4):
                a = ai.atom('q')
                v = ai.unlin(ai.ladd(ai.Lin(r, {a: 4}), ai.Lin(0, {})))
                good = domain(key, 4 * max(lo, 40) + r) if lo > 0 else domain(key, -4000 + r)
                out.append(Val(v, good, {a: (lo, hi)}, '4q+%d, q in [%d,%d]' % (r, lo, hi)))
    elif ty == 'float':
        for v in (NAN, INF, -INF, -FMAX, -2.0, -1.0, -0.5, -1e-38, -0.0, 0.0, 1e-38, 0.5, 0.99999994, 1.0, 1.0000001, 2.0, 3.9, 1e10, FMAX):
            out.append(Val(f32(v), domain(key, f32(v))))
        for lo, hi in ((-FMAX, -1e-30), (1e-30, 0.9999), (1.0001, FMAX)):
            a = ai.atom('x')
            out.append(Val(a, domain(key, (lo + hi) / 2), {a: (lo, hi)}, 'x in [%g,%g]' % (lo, hi)))
    elif ty == 'str':
        good = {'counting_type': COUNTING, 'loss_fn': LOSSES}[key]
        for v in good:
            out.append(Val(v, True))
        for v in ('', 'none', 'Auto', 'int64', 'int4', 'int', 'int88', 'INT8', 'uint8', 'l2', 'L', 'L3', 'mse', 'MSEE', 'Huber', 'berhu', 'L1+', 'L2+1', ' MSE', 'auto '):
            out.append(Val(v, False))
        out.append(Val(Sym('str', key), None, {}, 'any string'))
    elif ty == 'bool':
        out = [Val(True, True), Val(False, True)]
    elif ty == 'uint':
        out = [Val(v, True) for v in (0, 1, 2**31, 2**32 - 1)]
        a = ai.atom('seed')
        out.append(Val(a, True, {a: (0, 2**32 - 1)}, 'seed'))
    return out


def sane(est):
    """in-domain constants for every parameter, pairwise different"""
    d = {'number_of_states': 107, 's': 3.5, 'threshold': 19, 'weighted': True, 'max_weight': 23, 'boost_true_positive_feedback': 1, 'n_jobs': 3,
         'verbose': False, 'counting_type': 'int16', 'clause_output_tile_size': 64, 'random_state': 12345}
    if est.startswith('classifier'):
        d['number_of_clauses_per_label'] = 28
    else:
        d.update(number_of_regressor_clauses=34, loss_fn='berHu', loss_fn_C1=0.25, box_muller=True)
    return d


def js(v, ty):
    if ty == 'bool': return Js('bool', v)
    if ty == 'str': return Js('str', v)
    if ty == 'float': return Js('float', v)
    if isinstance(v, int): return Js('uint' if v >= 0 else 'int', v)
    return Js('int', v)


def create(path, est, via, vals, ivs=()):
    """interpret one factory call; vals: key -> value"""
    for a, b in dict(ivs).items():
        path.iv[a] = b
    ks = keys(est)
    if via == 'args':
        args = [bool(vals[k]) if k == 'boost_true_positive_feedback' and isinstance(vals[k], int) else vals[k] for k, _ in ks]
        return run_fn(path, model.prog().one('vtapi::make_%s_all' % est), args)
    if via == 'json':
        doc = Js('obj', {k: Cell(js(vals[k], t)) for k, t in ks if k in vals})
        return from_json(path, est, doc)
    raise ValueError(via)


def from_json(path, est, doc, fn='make_%s_from_json'):
    t = Sym('jsontext', 'input')

    def setup(I):
        I.docs[t] = doc if isinstance(doc, str) else ai.clone(doc)
    return run_fn(path, model.prog().one('Tsetlini::' + fn % est), [t], setup=setup)


def result(o):
    """('ok', params map) | ('err', code) | (kind, text)"""
    if o.kind != 'ret':
        return o.kind, o.v
    r = o.v
    if not isinstance(r, Ei):
        return 'imprecise', 'factory did not return an either value'
    if r.left:
        c = r.v.get()
        code = c.f['first'].get() if isinstance(c, Obj) and 'first' in c.f else None
        return 'err', code
    e = r.v.get()
    if isinstance(e, Map):
        return 'ok', e
    try:
        st = e.f['m_state_p'].get()
        st = st.cell.get() if isinstance(st, Ptr) else st
        return 'ok', st.f['m_params'].get()
    except (KeyError, AttributeError) as x:
        return 'imprecise', 'estimator object without parameters (%s)' % x


def opaque(path, ivs):
    """an undecided branch on the examined value itself was taken both ways"""
    return any(ai.contains(Sym('k', *k) if isinstance(k, tuple) else k, a) for k in path.memo for a in ivs)


def explain(path):
    return 'path: ' + (', '.join(path.why) or 'straight')


# ------------------------------------------------------------------ C17
def c17_one(item):
    est, via, key, k = item
    ty = dict(keys(est))[key]
    val = partition(key, ty)[k]
    vals = sane(est)
    vals[key] = val.v
    out = {'n': 0, 'viol': [], 'und': [], 'ok': 0, 'rej': 0}
    where = 'Tsetlini::make_%s%s' % (est, '_from_json' if via == 'json' else '')
    try:
        for path, o in ai.explore(lambda p: create(p, est, via, vals, val.iv), 300):
            out['n'] += 1
            kind, r = result(o)
            lab = '%s=%s' % (key, val.label)
            if kind in ('imprecise',):
                out['und'].append('%s %s: %s' % (where, lab, r))
            elif kind == 'ok':
                out['ok'] += 1
                good = val.good
                if good is None:
                    eq = [s for a, s in path.streq.items() if a is val.v]
                    good = bool(eq) and all(domain(key, s) for s in eq)
                if not good:
                    if opaque(path, val.iv):
                        out['und'].append('%s %s: accepted on an undecided path' % (where, lab))
                    else:
                        out['viol'].append(dict(where=where, rule='accepted-value-outside-domain', msg='creation succeeds with %s' % lab))
                else:
                    m = r.d
                    if key in m:
                        s = m[key].get()
                        w = s.cell.get() if isinstance(s, Var) else s
                        if isinstance(w, (int, float, str)) and not domain(key, w):
                            out['viol'].append(dict(where=where, rule='stored-value-outside-domain', msg='creation with %s stores %s=%r' % (lab, key, w)))
            elif kind == 'err':
                out['rej'] += 1
                if r == 0:
                    out['viol'].append(dict(where=where, rule='rejected-without-error-status', msg='creation with %s fails with status 0' % lab))
            else:
                out['und'].append('%s %s: %s %s' % (where, lab, kind, r))
    except ai.PathLimit:
        out['und'].append('%s %s=%s: path limit' % (where, key, val.label))
    return out


def c17(tier):
    items = [(e, via, k, i) for e in ESTS for via in ('args', 'json') for k, ty in keys(e) for i in range(len(partition(k, ty)))
             if not (via == 'args' and k == 'boost_true_positive_feedback') and not (via == 'json' and ty == 'float' and partition(k, ty)[i].v in (INF, -INF)) and not (via == 'json' and ty == 'float' and partition(k, ty)[i].v != partition(k, ty)[i].v)]
    return items, c17_one


# ------------------------------------------------------------------ C18
READERS = {'number_of_physical_classifier_clauses_per_label': ('number_of_clauses_per_label', 1), 'number_of_classifier_clause_outputs_per_label': ('number_of_clauses_per_label', 2),
           'number_of_physical_regressor_clauses': ('number_of_regressor_clauses', 1), 'number_of_regressor_clause_outputs': ('number_of_regressor_clauses', 2),
           'number_of_states': ('number_of_states', 1), 's': ('s', 1), 'threshold': ('threshold', 1), 'weighted': ('weighted', 1), 'max_weight': ('max_weight', 1),
           'boost_true_positive_feedback': ('boost_true_positive_feedback', 1), 'n_jobs': ('n_jobs', 1), 'verbose': ('verbose', 1), 'counting_type': ('counting_type', 1),
           'clause_output_tile_size': ('clause_output_tile_size', 1), 'random_state': ('random_state', 1), 'loss_fn_name': ('loss_fn', 1), 'loss_fn_C1': ('loss_fn_C1', 1),
           'box_muller': ('box_muller', 1)}


def eqval(path, a, b):
    if a is b:
        return True
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return int(a) == int(b)
    if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
        return a == b
    k = path.known('==', a, b)
    return bool(k)


def stored(m, key):
    if key not in m.d:
        return None, None
    v = m.d[key].get()
    return (v.alt, v.cell.get()) if isinstance(v, Var) else ('?', v)


def compare_maps(path, est, ma, mb, given, na, nb, skip=()):
    """differences of the documented entries of two parameter maps"""
    out = []
    for k, ty in keys(est):
        ta, va = stored(ma, k)
        tb, vb = stored(mb, k)
        if ta is None or tb is None:
            out.append('parameter %s is missing when created by %s' % (k, na if ta is None else nb))
            continue
        if ta != tb and k not in skip:
            out.append('parameter %s is stored as %s by %s but as %s by %s' % (k, ta, na, tb, nb))
        elif ta != ALT[ty] and k not in skip:
            out.append('parameter %s is stored as %s, documented type %s' % (k, ta, ALT[ty]))
        elif k not in skip and not eqval(path, va, vb):
            out.append('parameter %s is %s by %s but %s by %s' % (k, ai.show(term(va)), na, ai.show(term(vb)), nb))
        elif k in given and not (k == 'n_jobs' and given[k] == -1) and not eqval(path, va, given[k]):
            out.append('parameter %s is stored as %s, given %s' % (k, ai.show(term(va)), ai.show(term(given[k]))))
    return out


def readers():
    P = model.prog()
    return [(n, P.find('Tsetlini::Params::' + n)) for n in READERS]


def check_readers(path, est, m):
    out = []
    for n, fs in readers():
        key, div = READERS[n]
        if len(fs) != 1 or key not in dict(keys(est)):
            continue
        o = run_fn(path, fs[0], [Cell(m)])
        if o.kind in ('throw', 'abort'):
            out.append('Params::%s cannot read %s: %s' % (n, key, o.v))
        elif o.kind == 'ret':
            ta, va = stored(m, key)
            want = va
            if div == 2:
                l = ai.lin(va)
                if l is None or l.c % 2 or any(v % 2 for v in l.k.values()):
                    continue
                want = ai.unlin(ai.Lin(l.c // 2, {k: v // 2 for k, v in l.k.items()}))
            if not eqval(path, o.v, want):
                if isinstance(o.v, Sym) and div == 2:
                    continue
                out.append('Params::%s returns %s for stored %s' % (n, ai.show(term(o.v)), ai.show(term(va))))
    return out


def call_args(path, est, suffix, args):
    P = model.prog()
    fs = P.find('vtapi::make_%s_%s' % (est, suffix))
    if len(fs) != 1:
        return model.Outcome('imprecise', 'wrapper %s missing' % suffix)
    return run_fn(path, fs[0], args)


def c18_scen(path, item):
    """returns list of messages (violations) or raises Undecided"""
    est, kind = item[0], item[1]
    fam = 'make_' + est
    if kind == 'defaults':
        oa = call_args(path, est, 'defaults', [])
        ob = from_json(path, est, Js('obj', {}))
        given, na, nb, skip = {}, fam + '()', fam + '_from_json("{}")', ('random_state',)
    elif kind == 'family':
        other = est.replace('classic', 'bitwise')
        oa, ob = from_json(path, est, Js('obj', {})), from_json(path, other, Js('obj', {}))
        given, na, nb, skip = {}, fam + '_from_json("{}")', 'make_%s_from_json("{}")' % other, ('random_state',)
    elif kind == 'all':
        vals, iv = allsym(est)
        for a, b in iv.items():
            path.iv[a] = b
        ks = keys(est)
        args = [vals[k] for k, _ in ks]
        oa = call_args(path, est, item[2], args)
        ob = create(path, est, 'json', vals)
        given, na, nb, skip = vals, fam + '(all arguments, %s order)' % item[2], fam + '_from_json(all keys)', ()
    elif kind == 'one':
        key, k = item[2], item[3]
        ty = dict(keys(est))[key]
        val = partition(key, ty)[k]
        for a, b in val.iv.items():
            path.iv[a] = b
        v = val.v
        arg = bool(v) if key == 'boost_true_positive_feedback' and isinstance(v, int) else v
        oa = call_args(path, est, 'only_' + ('clauses' if key.startswith('number_of_') and 'clauses' in key else key), [arg])
        ob = from_json(path, est, Js('obj', {key: Cell(js(v, ty))}))
        given, na, nb, skip = {key: v}, '%s(%s=%s)' % (fam, key, val.label), 'JSON', () if key == 'random_state' else ('random_state',)
    ra, rb = result(oa), result(ob)
    for r in (ra, rb):
        if r[0] not in ('ok', 'err'):
            return None, '%s: %s %s' % (na, r[0], r[1])
    if ra[0] != rb[0]:
        return ['%s is %s but %s is %s' % (na, 'accepted' if ra[0] == 'ok' else 'rejected', nb, 'accepted' if rb[0] == 'ok' else 'rejected')], None
    if ra[0] == 'err':
        if kind in ('defaults', 'family', 'all'):
            return ['%s is rejected with status %s' % (na, ra[1])], None
        return [], None
    ms = compare_maps(path, est, ra[1], rb[1], given, na, nb, skip)
    for m in (ra[1], rb[1]):
        ms += check_readers(path, est, m)
    return ms, None


def allsym(est):
    vals, iv = {}, {}
    for k, ty in keys(est):
        a = ai.atom('p_' + k)
        if ty == 'int':
            iv[a] = (1, INT_MAX)
        elif ty == 'uint':
            iv[a] = (0, 2**32 - 1)
        elif ty == 'float':
            iv[a] = (1.5, 1e30)
        vals[k] = a
    for k in ('number_of_clauses_per_label', 'number_of_regressor_clauses'):
        if k in vals:
            q = ai.atom('q_clauses')
            vals[k] = ai.unlin(ai.Lin(0, {q: 4}))
            iv[q] = (1, 2**29 - 1)
    s = sane(est)
    for k in ('weighted', 'verbose', 'counting_type', 'clause_output_tile_size', 'loss_fn', 'boost_true_positive_feedback', 'box_muller'):
        if k in vals:
            vals[k] = s[k]
    return vals, iv


def c18_one(item):
    out = {'n': 0, 'viol': [], 'und': []}
    iv = {}
    if item[1] == 'one':
        iv = partition(item[2], dict(keys(item[0]))[item[2]])[item[3]].iv
    box = {}

    def go(p):
        box['r'] = c18_scen(p, item)
        return box['r']
    try:
        for path, (ms, und) in ai.explore(go, 300):
            out['n'] += 1
            if ms is None:
                out['und'].append('%s: %s' % (item, und))
            elif ms and opaque(path, iv):
                out['und'].append('%s: differs on an undecided path: %s' % (item, ms[0]))
            else:
                for m in ms:
                    v = dict(where='Tsetlini::make_' + item[0], rule='json-args-equivalence', msg=m)
                    if v not in out['viol']:
                        out['viol'].append(v)
    except ai.PathLimit:
        out['und'].append('%s: path limit' % (item,))
    return out


def c18(tier):
    items = []
    for e in ESTS:
        items.append((e, 'defaults'))
        if 'classic' in e:
            items.append((e, 'family'))
        items += [(e, 'all', o) for o in ('all', 'rev', 'const')]
        for k, ty in keys(e):
            for i, v in enumerate(partition(k, ty)):
                if ty == 'float' and (v.v in (INF, -INF) or v.v != v.v):
                    continue
                if k == 'boost_true_positive_feedback' and v.v not in (0, 1):
                    continue
                items.append((e, 'one', k, i))
    if sum(len(f) == 1 for _, f in readers()) < 14:
        raise vt.Broken('C18: parameter readers vanished')
    return items, c18_one


# ------------------------------------------------------------------ C19
def docs_c19():
    """(label, document, must be an error for est?)"""
    A = lambda *x: Js('arr', Vec(len(x), [(i, Cell(j)) for i, j in enumerate(x)], None, 'json[]'))
    at = ai.atom('u')
    vals = [('null', Js('null')), ('true', Js('bool', True)), ('false', Js('bool', False)), ('-1', Js('int', -1)), ('0', Js('uint', 0)), ('1', Js('uint', 1)),
            ('4', Js('uint', 4)), ('2^31', Js('uint', 2**31)), ('2^64-1', Js('uint', 2**64 - 1)), ('-2^63', Js('int', -2**63)), ('0.5', Js('float', 0.5)),
            ('1e300', Js('float', 1e300)), ('-1e300', Js('float', -1e300)), ('""', Js('str', '')), ('"x"', Js('str', 'x')), ('"1"', Js('str', '1')), ('"auto"', Js('str', 'auto')),
            ('[]', A()), ('[1]', A(Js('uint', 1))), ('["auto"]', A(Js('str', 'auto'))), ('{}', Js('obj', {})), ('{"a":1}', Js('obj', {'a': Cell(Js('uint', 1))}))]
    return vals


def c19_items():
    names = []
    for e in ESTS:
        names.append(('make_%s_from_json' % e, e))
    names += [('make_classifier_params_from_json', 'classifier'), ('make_regressor_params_from_json', 'regressor')]
    items = []
    V = docs_c19()
    for fn, e in names:
        items.append((fn, e, 'bad', None, None))
        items.append((fn, e, 'bad-range', None, None))
        for l, v in V:
            items.append((fn, e, 'top', None, l))
        ks = [k for k, _ in keys(e if '_' in e else e + '_classic')] + ['number_of_labels', 'number_of_features', 'unknown', '']
        other = [k for k, _ in keys('regressor_classic' if e.startswith('class') else 'classifier_classic')]
        ks += [k for k in other if k not in ks]
        for k in ks:
            for l, v in V:
                items.append((fn, e, 'key', k, l))
        for k2 in ('unknown', 'threshold'):
            items.append((fn, e, 'two', k2, '"x"'))
    return items


def must_fail(est, key, label, ty):
    """clear-cut cases in which success would mean the malformed value was not reported"""
    j = dict(docs_c19())[label]
    if key in ('unknown', ''):
        return True
    if ty is None:
        return False
    if j.k in ('arr', 'obj'):
        return True
    if j.k == 'str':
        return ty != 'str'
    if ty == 'str':
        return True
    return False


def c19_one(item):
    fn, est, kind, key, label = item
    out = {'n': 0, 'viol': [], 'und': []}
    V = dict(docs_c19())
    ty = dict(keys(est if '_' in est else est + '_classic')).get(key)
    if kind.startswith('bad'):
        doc, fail, what = kind, True, 'text that is not JSON' if kind == 'bad' else 'text with a number that overflows (1e999)'
    elif kind == 'top':
        doc, fail, what = V[label], V[label].k != 'obj' or label != '{}', 'the document %s' % label
    elif kind == 'key':
        doc, fail, what = Js('obj', {key: Cell(V[label])}), must_fail(est, key, label, ty), '{"%s": %s}' % (key, label)
    else:
        doc, fail, what = Js('obj', {'n_jobs': Cell(Js('str', 'x')), key: Cell(V[label])}), True, '{"n_jobs": "x", "%s": "x"}' % key
    try:
        for path, o in ai.explore(lambda p: from_json(p, '', doc, fn.replace('%', '%%') + '%s'), 300):
            out['n'] += 1
            k, r = result(o)
            w = 'Tsetlini::' + fn
            if k == 'throw':
                out['viol'].append(dict(where=w, rule='escaping-exception', msg='%s makes an exception escape: %s' % (what, r)))
            elif k == 'abort':
                out['viol'].append(dict(where=w, rule='abort', msg='%s aborts: %s' % (what, r)))
            elif k == 'imprecise':
                out['und'].append('%s %s: %s' % (fn, what, r))
            elif k == 'ok' and fail:
                out['viol'].append(dict(where=w, rule='malformed-accepted', msg='%s is accepted' % what))
            elif k == 'err' and r == 0:
                out['viol'].append(dict(where=w, rule='error-with-ok-status', msg='%s is rejected with status 0' % what))
    except ai.PathLimit:
        out['und'].append('%s %s: path limit' % (fn, what))
    return out


def c19(tier):
    return c19_items(), c19_one


def run(prop, tier):
    items, fn = {'C17': c17, 'C18': c18, 'C19': c19}[prop](tier)
    rs = model.parallel(items, fn)
    viol, und, n = [], [], 0
    for r in rs:
        viol += [v for v in r['viol'] if v not in viol]
        und += r['und']
        n += r['n']
    if prop == 'C17' and not (sum(r['ok'] for r in rs) and sum(r['rej'] for r in rs)):
        raise vt.Broken('C17: no accepted or no rejected creation analysed')
    cov = {'obligations': len(items), 'discharged': len(items) - len(und), 'checker_cmd': 'python3 checks/run.py %s %s' % (prop, tier),
           'trusted_base': ['clang 18 type-checked syntax tree', 'abstract interpreter checks/ai.py incl. models of std and nlohmann::json'],
           'paths': n}
    return dict(coverage=cov, violations=viol, undecided=und, instances=n, floor=50)

"""C32: what a caller passes to a factory is input only.

Every instantiation of the factories with variables (wrap/api.cpp passes named variables, in two orders, constants, and each
argument alone) and the JSON factories are interpreted with the caller's variables under observation.  A violation is an
operation reached from the factory that may take the contents of such a variable - a move construction, move assignment or
any other constructor or member function of the standard library that binds it to an rvalue reference - or that leaves
another value in it.
"""
import ai, model, params, vt
from ai import Cell, Sym
from model import run_fn

WAYS = ['all', 'rev', 'const']


def items(tier):
    its = []
    P = model.prog()
    for e in params.ESTS:
        for w in WAYS:
            its.append((e, w, None, True))
            for k, ty in params.keys(e):
                bad = [v for v in params.partition(k, ty) if v.good is False and not v.iv]
                for b in bad[:None if tier == 'thorough' else 2]:
                    its.append((e, w, (k, b.v), True))
        for k, ty in params.keys(e):
            its.append((e, 'only_' + (k if 'clauses' not in k else 'clauses'), None, True))
        its.append((e, 'json', None, True))
        its.append((e, 'json', 'bad', True))
    return its


def same(a, b):
    if isinstance(a, (int, float, str, bool)) and isinstance(b, (int, float, str, bool)):
        return a == b or a != a and b != b
    return a is b or a == b


def one(item):
    est, way, what, _ = item
    out = {'n': 0, 'viol': [], 'und': [], 'seen': 0}
    P = model.prog()
    vals = params.sane(est)
    if isinstance(what, tuple):
        vals = dict(vals, **{what[0]: what[1]})
    ks = params.keys(est)
    val = {k: (bool(vals[k]) if k == 'boost_true_positive_feedback' and isinstance(vals[k], int) else vals[k]) for k, _ in ks}
    if way == 'json':
        key = P.one('Tsetlini::make_%s_from_json' % est)
        text = Sym('jsontext', 'input')
        args = [Cell(text)]
    elif way.startswith('only_'):
        key = P.one('vtapi::make_%s_%s' % (est, way))
        k = way[5:]
        args = [Cell(v) for q, v in val.items() if q == k or k == 'clauses' and 'clauses' in q]
    else:
        key = P.one('vtapi::make_%s_%s' % (est, way))
        args = [Cell(val[k]) for k, _ in ks]

    def scen(path):
        def setup(I):
            if way == 'json':
                I.docs[text] = 'bad' if what == 'bad' else ai.Js('obj', {k: Cell(params.js(val[k], t)) for k, t in ks})
                I.watch = [(args[0], 'json_params', text)]
            else:
                I.watch_locals = True
        if way == 'json':
            tu, i = key
            b = tu.bodies.get(i)
            if not b or not b['params'] or not b['params'][0][3]:
                return ('ok', [], 1)        # a copy of the caller's text
        o = run_fn(path, key, args, setup=setup)
        if o.kind in ('imprecise', 'abort'):
            return ('und', str(o.v))
        I = o.interp
        bad = ['%s: the contents of %s may be taken' % (wh, nm) for nm, wh in I.stolen]
        for c, nm, v in I.watch:
            if not same(c.get(), v):
                bad.append('%s no longer has its value (%r, now %r)' % (nm, v, c.get()))
        return ('ok', bad, len(I.watch))
    try:
        for path, r in ai.explore(scen, 300):
            out['n'] += 1
            if r[0] == 'und':
                out['und'].append('%s %s %s: %s' % (est, way, what, r[1]))
                continue
            out['seen'] += r[2]
            for m in r[1]:
                v = dict(where='Tsetlini::make_%s%s' % (est, '_from_json' if way == 'json' else ''), rule='arguments-are-inputs', msg=m)
                if v not in out['viol']:
                    out['viol'].append(v)
    except ai.PathLimit:
        out['und'].append('%s: path limit' % (item,))
    return out


def run(prop, tier):
    its = items(tier)
    rs = model.parallel(its, one)
    viol, und = [], []
    for r in rs:
        viol += [v for v in r['viol'] if v not in viol]
        und += r['und']
    seen = sum(r.get('seen', 0) for r in rs)
    if not seen and not und:
        raise vt.Broken('C32: no argument of a caller was observed')
    cov = {'obligations': len(its), 'discharged': len(its) - len([r for r in rs if r['und'] or r['viol']]), 'checker_cmd': 'python3 checks/run.py %s %s' % (prop, tier),
           'trusted_base': ['clang 18 type-checked syntax tree', 'abstract interpreter checks/ai.py incl. models of std and nlohmann::json'],
           'observed_variables': seen, 'paths': sum(r['n'] for r in rs)}
    return dict(coverage=cov, violations=viol, undecided=und, instances=seen, floor=50)

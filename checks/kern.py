"""Uninterpreted stand-ins for the computational kernels: each writes terms over its inputs into what it may modify."""
import ai, model
from ai import Cell, Vec, Ptr, Sym, Obj, Map, Var, Ei, Opt, Tup, term

_where = {}


def ptypes(f):
    """parameter types of a function entry"""
    if not _where:
        for tu in model.prog().tus:
            for g in (tu.fns.values() if isinstance(tu.fns, dict) else tu.fns):
                if g:
                    _where[id(g)] = tu
    return [_where[id(f)].types[x] for x in f['pt']]


def cellof(c):
    v = c.get()
    return v.cell if isinstance(v, Ptr) and v.cell is not None and v.vec is None else c


IRRELEVANT = ('_number_of_jobs_tag', '_clause_output_tile_size_tag')


def havoc(v, mk, path=()):
    """replace every mutable sequence reachable from a value by a term"""
    if isinstance(v, Vec):
        if v.size == 0:
            return
        v.content, v.cells = mk(path), None
    elif isinstance(v, Obj):
        for k, c in sorted(v.f.items()):
            havoc(c.get(), mk, path + (k,))
    elif isinstance(v, Var):
        havoc(v.cell.get(), mk, path + ('alt',))


def inputs(f, args, skip=()):
    """terms of the arguments that may influence the result, named by position"""
    out = []
    for k, (t, c) in enumerate(zip(ptypes(f), args)):
        if k in skip or any(x in t for x in IRRELEVANT):
            continue
        out.append(term(c))
    return out


def log(I, name, f, args):
    I.p.calls = getattr(I.p, 'calls', [])
    I.p.calls.append((name, [(t, term(c)) for t, c in zip(ptypes(f), args)], I.where()))


def spread(v, mk):
    """write one term per position when the size is a small constant"""
    if isinstance(v.size, int) and v.size <= 64:
        v.cells, v.content = [(i, Cell(mk(i))) for i in range(v.size)], None
    else:
        v.cells, v.content = None, mk('all')


def clause_output(name):
    def h(I, f, this, args):
        log(I, name, f, args)
        pt = ptypes(f)
        out = args[1].get()
        if name.endswith('pruning'):
            D = inputs(f, args, (1,))
            spread(out, lambda i: ranged(I, Sym(name, i, *D), 0, 1))
            return None
        b, e = args[2].get(), args[3].get()
        D = inputs(f, args, (1, 2, 3))
        if isinstance(b, int) and isinstance(e, int) and out.cells is None and isinstance(out.size, int):
            spread(out, lambda i: Sym('elem', out.content, i))
        if isinstance(b, int) and isinstance(e, int) and out.cells is not None and all(isinstance(i, int) for i, _ in out.cells):
            for i, c in out.cells:
                if b <= i < e:
                    c.set(ranged(I, Sym(name, i, *D), 0, 1))
            return None
        old = term(out)
        out.content, out.cells = ranged(I, Sym(name, term(b), term(e), old, *D), 0, 1), None
        return None
    return h


def ranged(I, s, lo, hi):
    I.p.iv.setdefault(s, (lo, hi))
    return s


def all_votes(I, f, this, args):
    log(I, 'sum_up_all_label_votes', f, args)
    D = inputs(f, args, (2,))
    spread(args[2].get(), lambda i: ranged(I, Sym('votes', i, *D), -2**31 + 1, 2**31 - 1))


def one_vote(I, f, this, args):
    log(I, 'sum_up_label_votes', f, args)
    D = inputs(f, args, (2, 3))
    ls, t = args[2].get(), args[3].get()
    v = ranged(I, Sym('votes', term(t), *D), -2**31 + 1, 2**31 - 1)
    if ls.cells is not None and isinstance(t, int):
        for i, c in ls.cells:
            if i == t:
                c.set(v)
                return
        I.p.events.append(('out-of-range', I.where()))
        return
    old = term(ls)
    ls.content, ls.cells = Sym('upd', old, term(t), v), None


def reg_votes(I, f, this, args):
    log(I, 'sum_up_regressor_votes', f, args)
    T = args[1].get()
    lo, hi = I.p.ival(unwrap(T))
    return ranged(I, Sym('rvotes', *inputs(f, args)), 0, hi)


def unwrap(v):
    while isinstance(v, Obj) and len(v.f) == 1:
        v = list(v.f.values())[0].get()
    return v


def feedback(I, f, this, args):
    log(I, 'feedback', f, args)
    D = inputs(f, args, (0,))
    spread(args[0].get(), lambda i: Sym('feedback', i, *D))
    I.advance(args[7], 'feedback')


def train(name):
    def h(I, f, this, args):
        pt = ptypes(f)
        if 'numeric_matrix' in pt[0]:
            return NotImplemented if False else _train(I, f, args, name, pt)
        return _train(I, f, args, name, pt)
    return h


def _train(I, f, args, name, pt):
    log(I, name, f, args)
    D = inputs(f, args)
    X = Sym(name, *D)
    for k, (t, c) in enumerate(zip(pt, args)):
        if t.endswith('&') and not t.startswith('const'):
            if 'IRNG' in t or 'FRNG' in t:
                I.advance(c, name, X)
            else:
                havoc(c.get(), lambda p, k=k: Sym('part', k, X, *p))


HOOKS = {
    'calculate_clause_output': clause_output('calculate_clause_output'),
    'calculate_clause_output_with_pruning': clause_output('calculate_clause_output_with_pruning'),
    'sum_up_all_label_votes': all_votes, 'sum_up_label_votes': one_vote, 'sum_up_regressor_votes': reg_votes,
    'calculate_classifier_feedback_to_clauses': feedback,
    'train_classifier_automata': train('train_classifier_automata'), 'train_regressor_automata': train('train_regressor_automata'),
}

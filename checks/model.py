"""Scenario helpers shared by the checks that interpret the library's syntax trees abstractly (ai.py)."""
import concurrent.futures as cf
import os, struct, sys
import ai, vt
from ai import Cell, Vec, Ptr, Sym, Obj, Map, Var, Ei, Opt, Js, term

TUS = ['tsetlini', 'tsetlini_params', 'tsetlini_state', 'tsetlini_state_json', 'estimator_state', 'estimator_state_cache', 'ta_state', 'loss_fn']
_prog = None


def units():
    """every translation unit of the library: the named ones first, then whatever else is there"""
    have = sorted(f[:-4] for f in os.listdir(os.path.join(vt.REPO, 'lib/src')) if f.endswith('.cpp') and f != 'dummy.cpp')
    return [n for n in TUS if n in have] + [n for n in have if n not in TUS]


def prog():
    global _prog
    if _prog is None:
        _prog = ai.load(units(), [os.path.join(vt.VERIF, 'wrap', 'api.cpp')])
        for c in list(_prog.records):
            if 'PRNG' in c or c.startswith(('basic_IRNG', 'basic_FRNG')):
                for a in ('aRES', 'aMT'):
                    _prog.array_size[(c, a)] = 4992
    return _prog


def _buf(field):
    def h(I, f, this, args):
        c = this.get().f.get(field)
        if c is None:
            return NotImplemented
        return Ptr(vec=c.get(), pos=0)
    return h


def _draw(I, f, this, args):
    """one opaque draw: a function of the whole generator state, which moves on"""
    o = this.get()
    if not (isinstance(o, Obj) and 'index' in o.f):
        return NotImplemented
    v = Sym('draw', term(o))
    isf = 'FRNG' in o.cls
    if isf:
        I.p.floats.add(v)
    I.p.iv.setdefault(v, (0.0, 1.0) if isf else (0, 2**32 - 1))
    I.p.draws = getattr(I.p, 'draws', 0) + 1
    I.advance(this, 'rand')
    return v


BASE = {'BasePRNG::rand': _draw, 'RESp': _buf('aRES'), 'MTp': _buf('aMT')}


class Outcome:
    """what a public call did on one path"""
    def __init__(self, kind, v=None):
        self.kind, self.v = kind, v     # ret | throw | abort | imprecise

    def __repr__(self):
        return '%s(%s)' % (self.kind, self.v)


def guarded(fn):
    try:
        return Outcome('ret', fn())
    except ai.CppThrow as e:
        return Outcome('throw', '%s at %s' % (e.ty, e.where))
    except ai.Abort as e:
        return Outcome('abort', e.what)
    except ai.Imprecise as e:
        return Outcome('imprecise', str(e))


def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return float('inf') if x > 0 else float('-inf')


def run_fn(path, key, args, hooks=None, setup=None, this=None):
    """interpret one definition; args are values"""
    I = ai.Models(prog(), path, dict(BASE, **(hooks or {})))
    if setup:
        setup(I)
    tu, i = key
    o = guarded(lambda: I.call(tu, i, this, [a if isinstance(a, Cell) else Cell(a) for a in args]))
    o.interp = I
    return o


def parallel(items, fn, jobs=None):
    """fork workers (the parsed program is inherited); fn returns picklable results"""
    prog()
    jobs = jobs or vt.JOBS
    global _work, _fn
    _work, _fn = list(items), fn
    if jobs == 1 or len(_work) < 4:
        return [fn(x) for x in _work]
    import gc
    import multiprocessing as mp
    gc.collect()
    gc.freeze()         # keep the shared program out of the workers' collections
    with mp.get_context('fork').Pool(jobs) as pool:
        return pool.map(_one, range(len(_work)), chunksize=max(1, len(_work) // (jobs * 6)))


class Slow(BaseException):
    pass


ITEM_LIMIT = 40


def _one(k):
    import signal

    def h(*a):
        raise Slow()
    signal.signal(signal.SIGALRM, h)
    signal.alarm(ITEM_LIMIT)
    try:
        return _fn(_work[k])
    except Slow:
        return {'n': 0, 'viol': [], 'und': ['%s: analysis time limit' % (_work[k],)], 'ok': 0, 'rej': 0}
    except vt.Broken:
        raise
    except Exception as e:          # a shape of code the analysis cannot follow: no verdict on this item
        import traceback
        t = traceback.extract_tb(e.__traceback__)[-1]
        if os.environ.get('VT_STRICT'):
            traceback.print_exc()
        return {'n': 0, 'viol': [], 'und': ['%s: %s %s at %s:%s' % (str(_work[k])[:200], type(e).__name__, e, os.path.basename(t.filename), t.lineno)], 'ok': 0, 'rej': 0}
    finally:
        signal.alarm(0)


def where(tu, i):
    f = tu.fns[i]
    b = tu.bodies.get(i) or {}
    return '%s (%s:%s)' % (f['sq'], b.get('file', '?'), b.get('line', '?'))

"""Evaluation of snapshot terms under an assignment, and bounded search for an assignment satisfying the decisions of a path.

Used to confirm that a path on which an obligation fails is feasible, before a violation is reported."""
import math, random
import ai
from ai import Sym, Lin

INF = math.inf


class Unknown(Exception):
    pass


def ev(t, A):
    if isinstance(t, (bool, int, float)):
        return t
    if isinstance(t, Lin):
        return t.c + sum(k * ev(a, A) for a, k in t.k.items())
    if isinstance(t, Sym):
        if t in A:
            return A[t]
        k = t.t[0]
        r = [x for x in t.t[1:]]
        if k == 'p':
            return ev(r[0], A)
        if k == 'f+': return ev(r[0], A) + ev(r[1], A)
        if k == 'f-': return ev(r[0], A) - ev(r[1], A)
        if k in ('f*', 'mul'): return ev(r[0], A) * ev(r[1], A)
        if k == 'f/':
            d = ev(r[1], A)
            return ev(r[0], A) / d if d else math.nan
        if k in ('div', 'rem'):
            a, b = ev(r[0], A), ev(r[1], A)
            if b == 0: raise Unknown('zero divisor')
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0): q = -q
            return q if k == 'div' else a - q * b
        if k == 'min': return min(ev(x, A) for x in r)
        if k == 'max': return max(ev(x, A) for x in r)
        if k == 'clamp':
            v, lo, hi = (ev(x, A) for x in r)
            return lo if v < lo else hi if hi < v else v
        if k == 'abs': return abs(ev(r[0], A))
        if k == 'fn.floor': return math.floor(ev(r[0], A))
        if k == 'fn.ceil': return math.ceil(ev(r[0], A))
        if k == 'fn.round': return math.floor(abs(ev(r[0], A)) + 0.5) * (1 if ev(r[0], A) >= 0 else -1)
        if k == 'fn.sqrt': return math.sqrt(ev(r[0], A))
        if k == 'fn.pow': return ev(r[0], A) ** ev(r[1], A)
        if k in ('fn.fmin',): return min(ev(x, A) for x in r)
        if k in ('fn.fmax',): return max(ev(x, A) for x in r)
        if k in ('wrap', 'trunc'):
            v = ev(r[1], A)
            lo, hi = ai.SCALARS[r[0]]
            v = int(v)
            return (v - lo) % (hi - lo + 1) + lo if k == 'wrap' or lo <= v <= hi else (_ for _ in ()).throw(Unknown('trunc'))
        if k == 'usub':
            return ev(r[0], A) % 2**32
    raise Unknown(t)


def leaf(t, out, seen):
    """free variables of a term"""
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Lin):
            st.extend(x.k)
        elif isinstance(x, Sym) and x not in seen:
            seen.add(x)
            if x.t[0] in ('p', 'f+', 'f-', 'f*', 'mul', 'f/', 'div', 'rem', 'min', 'max', 'clamp', 'abs', 'wrap', 'trunc', 'usub') or x.t[0].startswith('fn.'):
                st.extend(y for y in x.t[1:] if not isinstance(y, str))
            else:
                out.add(x)
        elif isinstance(x, tuple):
            st.extend(x)


def constraints(p):
    """[(op, Lin, truth)] of the numeric decisions of a path; other decisions are returned separately"""
    num, other = [], []
    for k, b in p.memo.items():
        if k and k[0] == 'num':
            num.append((k[1], Lin(k[2][0], dict(k[2][1])), b))
        else:
            other.append((k, b))
    return num, other


def holds(num, A):
    for op, d, b in num:
        v = ev(d, A)
        if v != v:
            return False
        r = v == 0 if op == '==' else v <= 0 if op == '<=' else v < 0
        if r != b:
            return False
    return True


def witness(p, want, extra=(), tries=6000, seed=1, span=None):
    """assignment of the free variables that satisfies every numeric decision of the path, their intervals and want(A)"""
    num, _ = constraints(p)
    vs, seen = set(), set()
    for _, d, _ in num:
        leaf(d, vs, seen)
    for t in extra:
        leaf(t, vs, seen)
    vs = sorted(vs, key=ai.skey)
    rnd = random.Random(seed)
    dom = {}
    for v in vs:
        lo, hi = p.aival(v)
        if v in p.floats:
            lo, hi = max(lo, -1e6), min(hi, 1e6)
            dom[v] = (lo, hi, True)
        else:
            lo, hi = int(max(lo, -2**63)), int(min(hi, 2**63 - 1))
            if lo > hi:
                return None
            dom[v] = (lo, hi, False)
    for k in range(tries):
        A = {}
        scale = rnd.choice((2, 4, 10, 100, 10**6, 2**31, 2**62)) if span is None else span
        for v in vs:
            lo, hi, f = dom[v]
            if f:
                A[v] = rnd.choice((lo, hi, rnd.uniform(lo, hi), rnd.uniform(max(lo, -2), min(hi, 2))))
            else:
                c = rnd.random()
                if c < 0.1: A[v] = lo
                elif c < 0.2: A[v] = hi
                elif c < 0.25: A[v] = max(lo, min(hi, 0))
                else:
                    a, b = max(lo, -scale), min(hi, scale)
                    if a > b:
                        a, b = lo, hi
                    A[v] = rnd.randint(a, b)
        try:
            if holds(num, A) and want(A):
                return A
        except (Unknown, OverflowError, ZeroDivisionError):
            continue
    return None

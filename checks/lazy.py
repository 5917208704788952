"""Interpretation with undecided values kept as ranges instead of branching: comparisons yield three-valued booleans, conditional
expressions join both alternatives, machine words carry known bits and an unsigned range.  Branches are taken only by statements."""
import ai
from ai import Sym, Lin, Word, Ptr, Cell, term, lin, bare

FULL = (1 << 64) - 1
BOOLS = ('cmpt', 'wcmp', 'and', 'or', 'notb')
NEG = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}
MIRROR = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}


def isbool(v):
    return isinstance(v, Sym) and v.t[0] in BOOLS


class Peek(Exception):
    pass


class Lazy(ai.Models):
    MAXTRIP = 10**9
    STEPS = 6000000
    TRIPS = 10**6

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.words = getattr(self.p, 'words', None)
        if self.words is None:
            self.words = self.p.words = []

    # ---- words
    def wordterm(self, w):
        if isinstance(w, int):
            return w
        if not hasattr(w, 'idx'):
            w.idx = len(self.words)
            self.words.append(w)
        return Sym('w', w.idx)

    def word(self, t):
        return self.words[t.t[1]] if isinstance(t, Sym) else t

    def wrange(self, w):
        if isinstance(w, int):
            return w, w
        return max(getattr(w, 'lo', 0), w.k1), min(getattr(w, 'hi', FULL), ~w.k0 & FULL)

    def wknown(self, op, a, b):
        la, ha = self.wrange(a)
        lb, hb = self.wrange(b)
        if op in ('>', '>='):
            return self.wknown({'>': '<', '>=': '<='}[op], b, a)
        if op == '<':
            return True if ha < lb else False if la >= hb else None
        if op == '<=':
            return True if ha <= lb else False if la > hb else None
        r = None
        if la == ha == lb == hb:
            r = True
        elif ha < lb or hb < la:
            r = False
        elif isinstance(b, int) and isinstance(a, Word) and (a.k1 & ~b or a.k0 & b):
            r = False
        return r if r is None or op == '==' else not r

    def wassume(self, op, a, b):
        """narrow the ranges of two words by a op b; returns how to undo it"""
        la, ha = self.wrange(a)
        lb, hb = self.wrange(b)
        if op in ('>', '>='):
            return self.wassume(MIRROR[op], b, a)
        ra, rb = (la, ha), (lb, hb)
        if op == '<':
            ra, rb = (la, min(ha, hb - 1)), (max(lb, la + 1), hb)
        elif op == '<=':
            ra, rb = (la, min(ha, hb)), (max(lb, la), hb)
        elif op == '==':
            ra = rb = (max(la, lb), min(ha, hb))
        else:
            if lb == hb == la: ra = (la + 1, ha)
            elif lb == hb == ha: ra = (la, ha - 1)
        undo = []
        for w, r in ((a, ra), (b, rb)):
            if isinstance(w, Word):
                undo.append((w, getattr(w, 'lo', 0), getattr(w, 'hi', FULL)))
                w.lo, w.hi = r
        return undo

    # ---- three-valued booleans
    def compare(self, op, a, b):
        if isbool(b) and not isbool(a):
            a, b, op = b, a, MIRROR[op]
        if isbool(a):
            if isinstance(b, (bool, int)) and int(b) in (0, 1) and op in ('==', '!='):
                return a if bool(b) == (op == '==') else self.neg(a)
            a, b = self.num(a), self.num(b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return super().compare(op, a, b)
        if isinstance(a, Word) or isinstance(b, Word):
            if not isinstance(a, (int, Word)) or not isinstance(b, (int, Word)):
                self.note('word comparison')
            r = self.wknown(op, a, b)
            return r if r is not None else Sym('wcmp', op, self.wordterm(a), self.wordterm(b))
        if lin(a) is None or lin(b) is None:
            return super().compare(op, a, b)
        r = self.p.known(op, a, b)
        return r if r is not None else Sym('cmpt', op, term(a), term(b))

    def neg(self, v):
        if isinstance(v, bool):
            return not v
        k = v.t[0]
        if k in ('cmpt', 'wcmp'):
            return Sym(k, NEG[v.t[1]], v.t[2], v.t[3])
        if k == 'notb':
            return v.t[1]
        return Sym('notb', v)

    def tri(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Sym):
            k = v.t[0]
            if k == 'cmpt':
                r = self.p.known(*v.t[1:])
                if r is None:
                    d = self.p.decide

                    def peek(key, why=''):
                        if key in self.p.memo:
                            return self.p.memo[key]
                        raise Peek()
                    self.p.decide = peek
                    try:
                        r = self.p.cmp(*v.t[1:])
                    except Peek:
                        r = None
                    finally:
                        del self.p.decide
                return r
            if k == 'wcmp':
                return self.wknown(v.t[1], self.word(v.t[2]), self.word(v.t[3]))
            if k in ('and', 'or'):
                a, b = self.tri(v.t[1]), self.tri(v.t[2])
                s = k == 'or'
                return s if a is s or b is s else (not s) if a is (not s) and b is (not s) else None
            if k == 'notb':
                r = self.tri(v.t[1])
                return None if r is None else not r
        if isinstance(v, Word):
            return self.wknown('!=', v, 0)
        if lin(v) is not None:
            return self.p.known('!=', v, 0)
        return self.truth(v)

    def truth(self, v):
        if isinstance(v, Word):
            v = self.compare('!=', v, 0)
        if isbool(v):
            r = self.tri(v)
            if r is not None:
                return r
            k = v.t[0]
            if k == 'cmpt':
                return self.p.cmp(*v.t[1:])
            if k == 'wcmp':
                n = getattr(self.p, 'nfork', 0)
                self.p.nfork = n + 1
                r = self.p.decide(('wfork', n))
                self.wassume(v.t[1] if r else NEG[v.t[1]], self.word(v.t[2]), self.word(v.t[3]))
                return r
            if k == 'and':
                return self.truth(v.t[1]) and self.truth(v.t[2])
            if k == 'or':
                return self.truth(v.t[1]) or self.truth(v.t[2])
            return not self.truth(v.t[1])
        return super().truth(v)

    def boolean(self, v):
        if isinstance(v, bool) or isbool(v):
            return v
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, Word) or lin(v) is not None:
            return self.compare('!=', v, 0)
        return self.truth(v)

    def num(self, v):
        if isbool(v):
            r = self.tri(v)
            if r is not None:
                return int(r)
            s = Sym('b2i', v)
            self.p.iv.setdefault(s, (0, 1))
            return s
        return int(v) if isinstance(v, bool) else v

    # ---- expressions
    def binop(self, n, env, tu):
        op = n[3]
        if op in ('&&', '||'):
            s = op == '||'
            a = self.boolean(self.eval(n[4], env, tu))
            t = self.tri(a)
            if t is s:
                return s
            b = self.boolean(self.eval(n[5], env, tu))
            if t is not None:
                return b
            u = self.tri(b)
            if u is s:
                return s
            return a if u is not None else Sym('or' if s else 'and', a, b)
        return super().binop(n, env, tu)

    def unop(self, n, env, tu):
        if n[3] == '!':
            v = self.boolean(self.eval(n[4], env, tu))
            t = self.tri(v)
            return (not t) if t is not None else self.neg(v)
        if n[3] in ('~', '-', '+'):
            v = self.eval(n[4], env, tu)
            if isbool(v) or isinstance(v, bool):
                v = self.num(v)
                return self.arith('-', {'~': -1, '-': 0, '+': 0}[n[3]], v, 'int') if n[3] != '+' else v
            if n[3] == '~' and isinstance(v, Word):
                return Word(v.k0, v.k1)
            n = n[:4] + [['value', n[1], n[4][2], v]] + n[5:]
        return super().unop(n, env, tu)

    def eval(self, n, env, tu):
        if n is not None:
            if n[0] == 'value':
                return n[3]
            if n[0] == 'cond':
                return self.conditional(n, env, tu)
        return super().eval(n, env, tu)

    def lval(self, n, env, tu):
        if n[0] == 'cond':
            return Cell(self.conditional(n, env, tu))
        return super().lval(n, env, tu)

    def conditional(self, n, env, tu):
        c = self.boolean(self.eval(n[3], env, tu))
        t = self.tri(c)
        if t is not None:
            return self.eval(n[4] if t else n[5], env, tu)
        out = []
        for b, e in ((True, n[4]), (False, n[5])):
            undo = self.assume(c, b)
            v = self.eval(e, env, tu)
            out.append((v, self.shape(v)))
            self.undo(undo)
        return self.join(*out)

    def assume(self, c, b):
        k = c.t[0]
        if k == 'notb':
            return self.assume(c.t[1], not b)
        if k in ('and', 'or'):
            if b == (k == 'and'):
                return [u for x in c.t[1:] if isbool(x) for u in self.assume(x, b)]
            # one alternative left?
            rest = [x for x in c.t[1:] if self.tri(x) is None]
            return self.assume(rest[0], b) if len(rest) == 1 else []
        op = c.t[1] if b else NEG[c.t[1]]
        if k == 'wcmp':
            return self.wassume(op, self.word(c.t[2]), self.word(c.t[3]))
        x, y = c.t[2], c.t[3]
        undo = []
        if op in ('>', '>='):
            op, x, y = MIRROR[op], y, x
        (lx, hx), (ly, hy) = self.p.ival(x), self.p.ival(y)
        if op == '<': nx, ny = (lx, hy - 1), (lx + 1, hy)
        elif op == '<=': nx, ny = (lx, hy), (lx, hy)
        elif op == '==': nx, ny = (ly, hy), (lx, hx)
        else:
            nx = (lx + (ly == hy == lx), hx - (ly == hy == hx))
            ny = (ly + (lx == hx == ly), hy - (lx == hx == hy))
        for v, (lo, hi) in ((x, nx), (y, ny)):
            if isinstance(v, Sym) and v not in self.p.floats:
                old = self.p.iv.get(v)
                undo.append((v, old))
                a, z = old if old else (-ai.INF, ai.INF)
                self.p.iv[v] = (max(a, lo), min(z, hi))
                if v.t[0] == 'b2i' and self.p.iv[v][0] == self.p.iv[v][1]:
                    undo += self.assume(v.t[1], bool(self.p.iv[v][0]))
        return undo

    def undo(self, us):
        for u in reversed(us):
            if len(u) == 3:
                u[0].lo, u[0].hi = u[1], u[2]
            elif u[1] is None:
                self.p.iv.pop(u[0], None)
            else:
                self.p.iv[u[0]] = u[1]

    def shape(self, v):
        if isinstance(v, bool):
            return ('n', int(v), int(v))
        if isbool(v):
            t = self.tri(v)
            return ('n', 0, 1) if t is None else ('n', int(t), int(t))
        if isinstance(v, Word):
            return ('w', v.k1, v.k0) + self.wrange(v)
        if isinstance(v, (int, Sym, Lin)):
            return ('n',) + tuple(self.p.ival(v))
        return ('o', v)

    def join(self, a, b):
        (v, s), (w, t) = a, b
        if s[0] == 'w' or t[0] == 'w':
            f = lambda x, q: q if q[0] == 'w' else ('w', x, ~x & FULL, x, x) if isinstance(x, int) else self.note('join of a word and %r' % (x,))
            s, t = f(v, s), f(w, t)
            r = Word(s[1] & t[1], s[2] & t[2])
            r.lo, r.hi = min(s[3], t[3]), max(s[4], t[4])
            return r
        if s[0] == 'n' and t[0] == 'n':
            if s[1] == s[2] == t[1] == t[2]:
                return s[1]
            if isinstance(v, (Sym, Lin, int)) and isinstance(w, (Sym, Lin, int)) and term(v) == term(w) and s == t:
                return v
            n = self.p.nfin = getattr(self.p, 'nfin', 0) + 1
            x = Sym('fin', n)
            self.p.iv[x] = (min(s[1], t[1]), max(s[2], t[2]))
            return x
        if v is w:
            return v
        self.note('join of %r and %r' % (type(v).__name__, type(w).__name__))

    def wordop(self, op, a, b):
        k = [x.idx if isinstance(self.wordterm(x), Sym) else ('c', x) for x in (a, b)] if all(isinstance(x, (int, Word)) for x in (a, b)) else None
        if k is None:
            return self.wordop0(op, a, b)
        if op in '&|^':
            k.sort(key=str)
        k = (op, k[0], k[1])
        m = self.p.__dict__.setdefault('wordmemo', {})
        if k not in m:
            m[k] = self.wordop0(op, a, b)      # same operands, same result: assumptions about one hold for the other
        return m[k]

    def wordop0(self, op, a, b):
        if op in ('+', '-', '*', '/', '%'):
            self.note('word arithmetic ' + op)
        if op in ('>>', '<<') and isinstance(b, (Sym, Lin)):
            lo, hi = self.p.ival(b)
            if lo < 0 or hi > 63:
                self.note('shift')
            rs = [super(Lazy, self).wordop(op, a, k) for k in range(int(lo), int(hi) + 1)]
            k1, k0 = FULL, FULL
            for r in rs:
                x, y = (r.k1, r.k0) if isinstance(r, Word) else (r, ~r & FULL)
                k1, k0 = k1 & x, k0 & y
            return Word(k1, k0)
        return super().wordop(op, a, b)

    def arith(self, op, a, b, t, n=None):
        if op in ai.CMP:
            return self.compare(op, a, b)
        if isbool(a): a = self.num(a)
        if isbool(b): b = self.num(b)
        if op in ('|', '&', '^', '<<', '>>', '*', '%', '/') and not isinstance(a, (Word, Ptr)) and not isinstance(b, (Word, Ptr)) and (isinstance(a, (Sym, Lin)) or isinstance(b, (Sym, Lin))):
            (la, ha), (lb, hb) = self.p.ival(a), self.p.ival(b)
            if (ha - la + 1) * (hb - lb + 1) <= 64 and not (op in '/%' and lb <= 0 <= hb):
                if term(a) == term(b) and la != ha:
                    vs = [self.carith(op, x, x, t) for x in range(int(la), int(ha) + 1)]
                else:
                    vs = [self.carith(op, x, y, t) for x in range(int(la), int(ha) + 1) for y in range(int(lb), int(hb) + 1)]
                if min(vs) == max(vs):
                    return vs[0]
                s = Sym('op' + op, term(a), term(b)) if not op in '*/%' else super().arith(op, a, b, t, n)
                if isinstance(s, Sym):
                    x, y = self.p.iv.get(s, (-ai.INF, ai.INF))
                    self.p.iv[s] = (max(x, min(vs)), min(y, max(vs)))
                return s
        return super().arith(op, a, b, t, n)

    def cast(self, n, env, tu):
        if n[3] in ('IntegralToBoolean', 'FloatingToBoolean'):
            v = self.boolean(self.eval(n[4], env, tu))
            t = self.tri(v)
            return v if t is None else t
        return super().cast(n, env, tu)

    def toint(self, v, t, fromfloat=False):
        if isbool(v):
            return v
        if isinstance(v, Word) and t in ai.SCALARS:
            lo, hi = ai.SCALARS[t]
            if lo == 0 and hi < FULL:
                r = Word(v.k1 & hi, (v.k0 | ~hi) & FULL)
                return r.k1 if r.k1 | r.k0 == FULL else r
            if lo < 0 and hi < FULL >> 1 and v.k0 & ~hi & FULL != ~hi & FULL:
                self.note('word to ' + t)
        return super().toint(v, t, fromfloat)

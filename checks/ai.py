"""Abstract interpreter over the type-checked syntax tree (vtast output).

Values are provenance terms: every input of a scenario is an atom with an interval or a known set of facts; data structures are
summarised by representative elements; loops over summarised data run once per representative, other loops zero times or once with
a generic index; branches whose condition the domain does not decide are analysed both ways.  Anything outside the modelled
vocabulary makes the affected path imprecise, and imprecise paths never produce a violation.
"""
import struct
import json, math, os, re, sys
import vt

sys.setrecursionlimit(20000)
INF = float('inf')
I32 = (-2**31, 2**31 - 1)
U32 = (0, 2**32 - 1)
SIZE = (0, 2**31 - 1)


def strip_targs(q):
    o, d, i = '', 0, 0
    q = q.replace('(anonymous namespace)::', '')
    m = re.search(r'operator\s*(<=>|<<=|>>=|<<|>>|<=|>=|->|<|>)', q)
    tail = ''
    if m and m.end() == len(q):
        tail = 'operator' + m.group(1)
        q = q[:m.start()]
    for ch in q:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            o += ch
    return o + tail


# ------------------------------------------------------------------ program
class TU:
    def __init__(self, path):
        d = json.load(open(path))
        self.types, self.fns, self.records = d['types'], d['fns'], d['records']
        self.bodies = {int(k): v for k, v in d['bodies'].items()}
        self.globals = {int(k): v for k, v in d['globals'].items()}
        for r in self.records.values():
            if r:
                r['bases'] = [self.types[b] for b in r.get('bases', [])]
                r['fields'] = [[f[0], self.types[f[1]], f[2], f[3], f[4], self] for f in r.get('fields', [])]
        for f in self.fns:
            f['sq'] = strip_targs(f['q'])
            f['last'] = f['sq'].rsplit('::', 1)[-1]


class Program:
    def __init__(self, paths):
        self.tus = [TU(p) for p in paths]
        self.by_m, self.records = {}, {}
        for t in self.tus:
            for i in t.bodies:
                m = t.fns[i]['m']
                if m:
                    self.by_m.setdefault(m, (t, i))
            for r, v in t.records.items():
                if v and (r not in self.records or v.get('fields')):
                    self.records[r] = v

        self.user_copy, self.user_assign, self.default_ctor, self.methods, self.array_size = {}, {}, {}, {}, {}
        self.eqs = {}
        for t in self.tus:
            for i, b in t.bodies.items():
                f = t.fns[i]
                if 'rec' in f:
                    c = t.types[f['rec']]
                    self.methods.setdefault((c, f['last']), (t, i))
                    if not f['defaulted'] and not f['implicit']:
                        if f['k'] in ('copyctor',):
                            self.user_copy.setdefault(c, (t, i))
                        if f['last'] == 'operator=' and len(f['pt']) == 1 and bare(t.types[f['pt'][0]]) == c:
                            self.user_assign.setdefault(c, (t, i))
                        if f['k'] == 'ctor' and b.get('body') is not None and (not f['pt'] or (len(f['pt']) == 1 and self.dflt(c))):
                            if not f['pt'] or c not in self.default_ctor:
                                self.default_ctor[c] = (t, i)
                elif f['last'] == 'operator==' and len(f['pt']) == 2:
                    self.eqs.setdefault(bare(t.types[f['pt'][0]]), (t, i))

    def dflt(self, c):
        return 'PRNG' in c or 'IRNG' in c or 'FRNG' in c

    def method(self, cls, name):
        return self.methods.get((cls, name))

    def free_eq(self, cls):
        return self.eqs.get(cls)

    def json_fn(self, name, ty, tu=None):
        k = (name, ty)
        if not hasattr(self, '_js'):
            self._js = {}
            for t in self.tus:
                for i in t.bodies:
                    f = t.fns[i]
                    if f['last'] in ('to_json', 'from_json') and len(f['pt']) == 2 and 'basic_json' in t.types[f['pt'][0]]:
                        self._js.setdefault((f['last'], bare(t.types[f['pt'][1]])), (t, i))
        return self._js.get(k)

    def find(self, sq, pred=None):
        """function definitions with this qualified name (template arguments and anonymous namespaces stripped)"""
        out, seen = [], set()
        for t in self.tus:
            for i in t.bodies:
                f = t.fns[i]
                if f['sq'] == sq and (pred is None or pred(t, f)) and f['m'] not in seen:
                    seen.add(f['m'])
                    out.append((t, i))
        return out

    def one(self, sq, pred=None):
        r = self.find(sq, pred)
        if len(r) != 1:
            raise vt.Broken('anchor %s: %d definitions' % (sq, len(r)))
        return r[0]


def load(names, extra=()):
    """dump the given lib/src translation units (and wrappers) of the current tree"""
    vt.build_tools(['vtast'])
    srcs = [(n, os.path.join(vt.REPO, 'lib/src', n + '.cpp')) for n in names] + [(os.path.basename(e).split('.')[0] + '_w', e) for e in extra]

    def one(s):
        n, src = s
        out = os.path.join(vt.scratch(), n + '.ast.json')
        r = vt.sh([vt.tool('vtast'), os.path.join(vt.REPO, 'lib'), src, '-w', '-resource-dir=/usr/lib/llvm-18/lib/clang/18', '-fopenmp'] + vt.INC)
        if r.returncode != 0 or not r.stdout.strip():
            raise vt.Broken('parsing %s: %s' % (src, r.stderr[-2000:]))
        open(out, 'w').write(r.stdout)
        return out
    return Program(vt.pool(srcs, one))


# ------------------------------------------------------------------ terms and values
class Sym:
    """hash-consed provenance term"""
    __slots__ = ('t', '_h', 'n', '_r')
    table = {}

    def __new__(cls, *t):
        s = Sym.table.get(t)
        if s is None:
            s = object.__new__(cls)
            s.t, s._h, s.n, s._r = t, hash(t), len(Sym.table), None
            Sym.table[t] = s
        return s

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        if self._r is None:
            self._r = '...'
            r = '%s(%s)' % (self.t[0], ','.join(map(show, self.t[1:])))
            self._r = r if len(r) < 400 else r[:390] + '...)'
        return self._r


def skey(x):
    """arbitrary but consistent total order on snapshots"""
    if isinstance(x, Sym):
        return (1, x.n, '')
    if isinstance(x, tuple):
        return (2, 0, str([skey(y) for y in x]))
    if isinstance(x, Lin):
        return (2, 0, str([skey(y) for y in x.key()]))
    return (0, 0, repr(x))


def show(x):
    if isinstance(x, Sym):
        if x.t[0] == 'atom':
            return x.t[1]
        r = repr(x)
        return r if len(r) < 160 else r[:150] + '..)'
    return repr(x) if isinstance(x, str) else str(x)


class Lin:
    """c + sum(k * atom), integers"""
    __slots__ = ('c', 'k', '_k')

    def __init__(self, c, k):
        self.c, self.k, self._k = c, k, None

    def key(self):
        if self._k is None:
            self._k = (self.c, tuple(sorted(((a, v) for a, v in self.k.items()), key=lambda x: x[0].n)))
        return self._k

    def __eq__(self, o):
        return isinstance(o, Lin) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '(%s%s)' % (self.c, ''.join(' + %s*%s' % (v, show(k)) for k, v in self.k.items()))


def lin(v):
    if isinstance(v, bool):
        return Lin(int(v), {})
    if isinstance(v, (int, float)):
        return Lin(v, {})
    if isinstance(v, Sym):
        return Lin(0, {v: 1})
    if isinstance(v, Lin):
        return v
    return None


def unlin(l):
    if not l.k:
        return l.c
    if l.c == 0 and len(l.k) == 1:
        (a, k), = l.k.items()
        if k == 1:
            return a
    return l


def ladd(a, b, s=1):
    k = dict(a.k)
    for x, v in b.k.items():
        k[x] = k.get(x, 0) + s * v
        if k[x] == 0:
            del k[x]
    return Lin(a.c + s * b.c, k)


def add(a, b, s=1):
    return unlin(ladd(lin(a), lin(b), s))


class Word:
    """machine word of which some bits are known to be one (k1) or zero (k0)"""
    def __init__(self, k1, k0, bits=64):
        self.k1, self.k0, self.bits = k1, k0, bits


class Cell:
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class FnCell:
    """glvalue computed on access"""
    def __init__(self, g, s=None):
        self.g, self.s = g, s

    def get(self):
        return self.g()

    def set(self, v):
        if self.s is None:
            raise Imprecise('assignment to a computed value')
        self.s(v)


class Obj:
    def __init__(self, cls, f=None):
        self.cls, self.f = cls, f if f is not None else {}

    def __repr__(self):
        return 'Obj(%s)' % self.cls[:40]


class Vec:
    """sequence: either cells [(index term, Cell)] covering every equivalence class of positions, or one content term"""
    def __init__(self, size, cells=None, content=None, ty=''):
        self.size, self.cells, self.content, self.ty = size, cells, content, ty

    def __repr__(self):
        return 'Vec(%s,%s,%s)' % (self.size, self.cells and len(self.cells), self.content)


class Ptr:
    """pointer or iterator: to a cell, or into a sequence at a position"""
    def __init__(self, cell=None, vec=None, pos=0):
        self.cell, self.vec, self.pos = cell, vec, pos


class Lam:
    def __init__(self, tu, fn, env, loc=''):
        self.tu, self.fn, self.env, self.loc = tu, fn, env, loc


class Native:
    """a callable supplied by a scenario"""
    def __init__(self, fn):
        self.fn = fn


class Fn:
    def __init__(self, tu, fn):
        self.tu, self.fn = tu, fn


class Ei:
    def __init__(self, left, v):
        self.left, self.v = left, Cell(v)


class Var:
    def __init__(self, alt, v):
        self.alt, self.cell = alt, Cell(v)


class Opt:
    def __init__(self, has, v=None):
        self.has, self.cell = has, Cell(v)


class Map:
    def __init__(self, d=None):
        self.d = d if d is not None else {}


class Tup:
    def __init__(self, items):
        self.items = items          # [(type, Cell)]


class Js:
    """json value; k in null,bool,int,uint,float,str,arr,obj"""
    def __init__(self, k, v=None):
        self.k, self.v = k, v


NULLOPT = Sym('nullopt')


def mkpair(a, b):
    return Obj('std::pair', {'first': Cell(a), 'second': Cell(b)})


class CppThrow(Exception):
    def __init__(self, ty, where=''):
        self.ty, self.where = ty, where


class Abort(Exception):
    def __init__(self, what):
        self.what = what


class Imprecise(Exception):
    pass


class Return_(Exception):
    def __init__(self, v):
        self.v = v


class Break_(Exception):
    pass


class Continue_(Exception):
    pass


SCALARS = {'bool': (0, 1), 'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255), 'short': (-32768, 32767), 'unsigned short': (0, 65535),
           'int': (-2**31, 2**31 - 1), 'unsigned int': (0, 2**32 - 1), 'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1),
           'long long': (-2**63, 2**63 - 1), 'unsigned long long': (0, 2**64 - 1)}
FLOATS = ('float', 'double', 'long double')


def f32(x):
    """x rounded to single precision"""
    if x != x or abs(x) == INF:
        return float(x)
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.copysign(INF, x)




def term(v):
    """hashable snapshot of a value"""
    if hasattr(v, 'get') and not isinstance(v, dict):
        v = v.get()
    if isinstance(v, float) and v != v:
        return 'nan'
    if v is None or isinstance(v, (bool, int, float, str, Sym)):
        return v
    if isinstance(v, Lin):
        return unlin(v)
    if isinstance(v, Obj):
        return Sym('obj', v.cls, *[Sym('field', k, term(c)) for k, c in sorted(v.f.items())])
    if isinstance(v, Vec):
        if v.cells is not None:
            return Sym('vec', term(v.size), *[Sym('at', term(i), term(c)) for i, c in v.cells])
        return Sym('vecc', term(v.size), v.content)
    if isinstance(v, Ptr):
        return Sym('ptr', term(v.cell) if v.cell else None, term(v.vec) if v.vec else None, term(v.pos))
    if isinstance(v, Ei):
        return Sym('either', 'L' if v.left else 'R', term(v.v))
    if isinstance(v, Var):
        return Sym('var', v.alt, term(v.cell))
    if isinstance(v, Opt):
        return Sym('opt', v.has, term(v.cell) if v.has else None)
    if isinstance(v, Map):
        return Sym('map', *[Sym('entry', k, term(c)) for k, c in sorted(v.d.items())])
    if isinstance(v, Js):
        if v.k == 'obj':
            return Sym('jsobj', *[Sym('entry', k, term(c)) for k, c in sorted(v.v.items())])
        return Sym('js', v.k, term(v.v))
    if isinstance(v, Word):
        return Sym('word', v.k1, v.k0)
    if isinstance(v, Lam):
        return Sym('lambda', v.loc, *[Sym('cap', k, term(c)) for k, c in sorted(v.env.items(), key=str) if isinstance(k, int)])
    if isinstance(v, Fn):
        return Sym('fn', v.tu.fns[v.fn]['q'])
    if isinstance(v, Tup):
        return Sym('tuple', *[term(c) for _, c in v.items])
    return Sym('?', str(type(v)))


def clone(v):
    if isinstance(v, Obj):
        return Obj(v.cls, {k: Cell(clone(c.get())) for k, c in v.f.items()})
    if isinstance(v, Vec):
        return Vec(v.size, [(i, Cell(clone(c.get()))) for i, c in v.cells] if v.cells is not None else None, v.content, v.ty)
    if isinstance(v, Ei):
        return Ei(v.left, clone(v.v.get()))
    if isinstance(v, Var):
        return Var(v.alt, clone(v.cell.get()))
    if isinstance(v, Opt):
        return Opt(v.has, clone(v.cell.get()))
    if isinstance(v, Map):
        return Map({k: Cell(clone(c.get())) for k, c in v.d.items()})
    if isinstance(v, Js):
        if v.k == 'obj':
            return Js('obj', {k: Cell(clone(c.get())) for k, c in v.v.items()})
        return Js(v.k, clone(v.v) if isinstance(v.v, Vec) else v.v)
    if isinstance(v, Ptr):
        return Ptr(v.cell, v.vec, v.pos)
    return v


def atoms(t):
    """names of all atoms occurring in a snapshot"""
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, Sym):
            if x in seen:
                continue
            seen.add(x)
            if x.t[0] == 'atom':
                out.add(x.t[1])
            st.extend(x.t[1:])
        elif isinstance(x, Lin):
            st.extend(x.k)
        elif isinstance(x, tuple):
            st.extend(x)
    return out


def subst(t, f, memo=None):
    """rebuild a term bottom-up, f(sym) -> replacement or None"""
    if memo is None:
        memo = {}
    if isinstance(t, Sym):
        if t in memo:
            return memo[t]
        r = f(t)
        if r is None:
            r = Sym(t.t[0], *[subst(x, f, memo) for x in t.t[1:]]) if len(t.t) > 1 and any(isinstance(x, (Sym, Lin)) for x in t.t[1:]) else t
        memo[t] = r
        return r
    if isinstance(t, Lin):
        o = Lin(t.c, {})
        for a, k in t.k.items():
            b = lin(subst(a, f, memo))
            if b is None:
                return t
            o = ladd(o, Lin(b.c * k, {x: v * k for x, v in b.k.items()}))
        return unlin(o)
    return t


def atom(name):
    return Sym('atom', name)


def bare(ty):
    """type string without cv/ref"""
    t = ty.strip()
    while True:
        u = t
        for p in ('const ', 'volatile '):
            if u.startswith(p):
                u = u[len(p):]
        u = u.rstrip('&').strip()
        if u.endswith(' const'):
            u = u[:-6]
        if u == t:
            return t
        t = u


# ------------------------------------------------------------------ paths
DIVS = None         # when a list: log of the integer divisions met


class Path:
    def __init__(self, replay):
        self.replay, self.taken, self.why = replay, [], []
        self.iv = {}                # atom -> interval
        self.memo = {}
        self.distinct = set()
        self.streq = {}
        self.notes = []             # unmodelled constructs met on this path
        self.events = []            # client events
        self.steps = 0
        self.floats = set()
        self.auto = False           # set-up phase: undecided branches take their first alternative
        self.trace = []

    def choose(self, why=''):
        if self.auto:
            if self.auto == 'alt':          # one representative path with mixed decisions
                self.nalt = getattr(self, 'nalt', 0) + 1
                return bin(self.nalt).count('1') % 2 == 1
            return True
        i = len(self.taken)
        b = self.replay[i] if i < len(self.replay) else True
        self.taken.append(b)
        self.why.append(why)
        return b

    def aival(self, a):
        x, y = self.iv.get(a, (-INF, INF))
        k = a.t[0]
        if k in ('min', 'max'):
            ivs = [self.ival(z) for z in a.t[1:]]
            f = min if k == 'min' else max
            x, y = max(x, f(i[0] for i in ivs)), min(y, f(i[1] for i in ivs))
        elif k == 'idx':
            x = max(x, 0)
            y = min(y, self.ival(a.t[1])[1] - 1)
        elif k == 'rem':
            lo, hi = self.ival(a.t[2])
            if lo > 0 and self.ival(a.t[1])[0] >= 0:
                x, y = max(x, 0), min(y, hi - 1)
        elif k in ('size',):
            x = max(x, 0)
        elif k == 'elem':
            lo, hi = self.elemiv(a.t[1])
            x, y = max(x, lo), min(y, hi)
        elif k in ('mul', 'div'):
            l1, h1 = self.ival(a.t[1])
            l2, h2 = self.ival(a.t[2])
            if l1 >= 0 and l2 >= 0:
                if k == 'mul':
                    x = max(x, l1 * l2 if l1 and l2 else 0)
                    y = min(y, h1 * h2 if h1 and h2 else 0)
                elif l2 > 0:
                    x = max(x, 0)
                    y = min(y, h1 / l2)
        return (x, y)

    def elemiv(self, content):
        return self.iv.get(Sym('elems', content), (-INF, INF))

    def ival(self, v):
        l = lin(v)
        if l is None:
            return (-INF, INF)
        lo = hi = l.c
        for a, k in l.k.items():
            x, y = self.aival(a)
            if k < 0:
                x, y = y, x
            lo += k * x
            hi += k * y
        for a, k in l.k.items():      # idx(b) <= b - 1
            if a.t[0] == 'idx' and isinstance(a.t[1], (Sym, Lin)):
                m = dict(l.k)
                del m[a]
                b = lin(a.t[1])
                r = ladd(Lin(l.c - k, m), Lin(b.c * k, {x: v * k for x, v in b.k.items()}))
                if all(x.t[0] != 'idx' or x in m for x in r.k) and len(r.k) < len(l.k) + (0 if len(l.k) > 1 else 0):
                    x, y = self.ival(unlin(r))
                    if k > 0:
                        hi = min(hi, y)
                    else:
                        lo = max(lo, x)
        return (lo, hi)

    def tight(self, v):
        """bounds of a linear value that also use one decided linear inequality each"""
        lo, hi = self.ival(v)
        l = lin(v)
        for k, b in self.memo.items():
            if k and k[0] == 'num' and k[1] == '<=':
                d = Lin(k[2][0], dict(k[2][1]))
                # d <= 0, or -d + 1 <= 0
                up = d if b else Lin(1 - d.c, {a: -c for a, c in d.k.items()})
                if any(a in self.floats for a in up.k):
                    continue
                hi = min(hi, self.ival(unlin(ladd(l, up, -1)))[1])
                lo = max(lo, self.ival(unlin(ladd(l, up)))[0])
        return lo, hi

    def refine(self, a, lo, hi):
        x, y = self.iv.get(a, (-INF, INF))
        self.iv[a] = (max(x, lo), min(y, hi))

    def decide(self, key, why=''):
        if key in self.memo:
            return self.memo[key]
        b = self.choose(why or key)
        self.memo[key] = b
        return b

    def known(self, op, a, b):
        """decide a comparison without branching; None when undecided"""
        la, lb = lin(a), lin(b)
        if la is None or lb is None:
            return None
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
            return op == '!='
        d = ladd(la, lb, -1)
        if op in ('>', '>='):
            d = Lin(-d.c, {k: -v for k, v in d.k.items()})
            op = {'>': '<', '>=': '<='}[op]
        x = self.minmax(d) if op in ('<', '<=') else None
        if x is not None:
            every, ds = x
            rs = [self.known(op, unlin(y), 0) for y in ds]
            if every:
                return False if False in rs else True if all(rs) else None
            return True if True in rs else False if not any(r is None for r in rs) else None
        lo, hi = self.ival(unlin(d))
        if op == '<':
            return True if hi < 0 else False if lo >= 0 else None
        if op == '<=':
            return True if hi <= 0 else False if lo > 0 else None
        r = None
        if lo == hi == 0: r = True
        elif lo > 0 or hi < 0: r = False
        else:
            ks = list(d.k.items())
            if d.c == 0 and len(ks) == 2 and ks[0][1] == -ks[1][1] and self.differs(ks[0][0], ks[1][0]):
                r = False
            elif ks and all(isinstance(v, int) for _, v in ks) and isinstance(d.c, int) and not any(k in self.floats for k, _ in ks):
                g = 0
                for _, v in ks:
                    g = math.gcd(g, v)
                if g > 1 and d.c % g:
                    r = False
        if r is None:
            return None
        return r == (op == '==')

    def minmax(self, d):
        """d contains min/max of several terms: (all/any, d with each alternative)"""
        for a, k in d.k.items():
            if a.t[0] in ('min', 'max') and all(lin(x) is not None for x in a.t[1:]):
                m = dict(d.k)
                del m[a]
                r = Lin(d.c, m)
                ds = []
                for x in a.t[1:]:
                    l = lin(x)
                    ds.append(ladd(r, Lin(l.c * k, {y: v * k for y, v in l.k.items()})))
                return (a.t[0] == 'max') == (k > 0), ds
        return None

    def cmp(self, op, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        if isinstance(a, str) and isinstance(b, str):
            return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        if isinstance(b, str) and isinstance(a, Sym):
            a, b = b, a
        if isinstance(a, str) and isinstance(b, Sym) and op in ('==', '!='):
            if b in self.streq:
                return (self.streq[b] == a) == (op == '==')
            if frozenset((a, b)) in self.distinct:
                return op == '!='
            r = self.decide(('streq', b, a))
            if r:
                self.streq[b] = a
            return r == (op == '==')
        if isinstance(a, Sym) and a.t[0] == 'usub' and b == 0 and op in ('==', '!='):
            return self.cmp(op, a.t[1], 0)
        la, lb = lin(a), lin(b)
        if la is None or lb is None:
            ta, tb = term(a), term(b)
            if op in ('==', '!='):
                if ta == tb:
                    return op == '=='
                if self.differs(ta, tb):
                    return op == '!='
                k = ('eq',) + tuple(sorted((ta, tb), key=skey))
                return self.decide(k) == (op == '==')
            return self.decide(('cmp', op, ta, tb))
        r = self.known(op, a, b)
        if r is not None:
            return r
        d = ladd(la, lb, -1)
        if op in ('>', '>='):
            d = Lin(-d.c, {k: -v for k, v in d.k.items()})
            op = {'>': '<', '>=': '<='}[op]
        if op in ('<', '<='):
            x = self.minmax(d)
            if x is not None:
                every, ds = x
                for y in ds:
                    if self.cmp(op, unlin(y), 0) != every:
                        return not every
                return every
        if op == '!=':
            return not self._num('==', d)
        return self._num(op, d)

    def _num(self, op, d):
        isf = any(k in self.floats for k in d.k)
        if op == '==':
            n = Lin(-d.c, {k: -v for k, v in d.k.items()})
            if skey(n.key()) < skey(d.key()):
                d = n
        elif not isf:
            n = Lin(-d.c, {k: -v for k, v in d.k.items()})
            # d < 0 <=> not(-d <= 0); canonical form: '<=' on the smaller key
            if op == '<':
                d, op = Lin(d.c + 1, d.k), '<='
            n = Lin(1 - d.c, {k: -v for k, v in d.k.items()})
            if skey(n.key()) < skey(d.key()):
                return not self._leaf('<=', n)
        return self._leaf(op, d)

    def _leaf(self, op, d):
        r = self.decide(('num', op, d.key()))
        if len(d.k) == 1:
            (a, k), = d.k.items()
            eps = 0 if a in self.floats else 1
            q = -d.c / k
            if op == '==':
                if r:
                    self.refine(a, q, q) if q != int(q) or eps == 0 else self.refine(a, int(q), int(q))
                elif eps:
                    lo, hi = self.aival(a)
                    if lo == q: self.refine(a, int(q) + 1, INF)
                    if hi == q: self.refine(a, -INF, int(q) - 1)
            elif eps:
                # k*a + c <= 0
                if (k > 0) == r:
                    self.refine(a, -INF, math.floor(q) if r else math.ceil(q) - 1)
                else:
                    self.refine(a, math.ceil(q) if r else math.floor(q) + 1, INF)
            else:
                if (k > 0) == r: self.refine(a, -INF, q)
                else: self.refine(a, q, INF)
        return r

    def differs(self, a, b):
        """the two snapshots are known to denote different values"""
        if a is b:
            return False
        if frozenset((a, b)) in self.distinct:
            return True
        if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
            return a != b
        if isinstance(a, Sym) and isinstance(b, Sym):
            ka, kb = a.t[0], b.t[0]
            if ka in ('obj', 'vec', 'vecc', 'var', 'map', 'opt', 'js', 'jsobj', 'entry', 'field', 'at', 'either') and kb == ka:
                if ka == 'map' or ka == 'jsobj':
                    if len(a.t) != len(b.t) or [x.t[1] for x in a.t[1:]] != [x.t[1] for x in b.t[1:]]:
                        return True
                if ka in ('var', 'js', 'either', 'opt') and a.t[1] != b.t[1]:
                    return True
                if len(a.t) != len(b.t):
                    return False
                return any(self.differs(x, y) for x, y in zip(a.t[1:], b.t[1:]) if x is not y)
        if lin(a) is not None and lin(b) is not None:
            return self.known('==', a, b) is False if not (isinstance(a, Sym) and isinstance(b, Sym)) else False
        return False


def explore(run, limit=4000):
    """run(path) for every sequence of undecided branches; yields (path, outcome)"""
    stack, n = [[]], 0
    while stack:
        rep = stack.pop()
        p = Path(rep)
        out = run(p)
        n += 1
        for i in range(len(rep), len(p.taken)):
            stack.append(p.taken[:i] + [not p.taken[i]])
        yield p, out
        if n > limit:
            raise PathLimit(n)


class PathLimit(Exception):
    pass


# ------------------------------------------------------------------ interpreter
CMP = ('<', '<=', '>', '>=', '==', '!=')
STD_EXC = ('std::', 'nlohmann::')


class Interp:
    MAXTRIP = 40
    STEPS = 400000
    TRIPS = 200
    EXPLICIT = 16       # sequences up to this length get one cell per element

    def __init__(self, prog, path, hooks=None):
        self.P, self.p, self.hooks = prog, path, hooks or {}
        self.watch, self.watch_locals, self.stolen = [], False, []      # variables of the caller whose contents must not be taken
        self.intercept = getattr(path, 'intercept', None)
        self.native = getattr(path, 'native', False)    # kernels interpreted for themselves: fork on clamp/min/max, watch for overflow
        self.globals = {}
        self.statics = path.__dict__.setdefault('statics', {})        # shared by all calls of a history
        self.depth, self.loops = 0, []
        self.docs = {}
        self.journal = None
        self.overrides = {}
        self.fresh = 0
        self.callstack, self.line = [], 0

    # ---- helpers
    def note(self, what):
        what = '%s @%s:%s' % (what, self.where(), self.line)
        self.p.notes.append(what)
        raise Imprecise(what)

    def uniq(self, *t):
        self.fresh += 1
        return Sym('fresh', self.fresh, *t)

    def ty(self, tu, i):
        return tu.types[i] if isinstance(i, int) and i >= 0 else ''

    # ---- object copies
    def copy(self, v):
        if isinstance(v, Obj) and v.cls in self.P.user_copy:
            tu, i = self.P.user_copy[v.cls]
            o = Cell(self.default_obj(v.cls, init=False))
            self.call(tu, i, o, [Cell(v)])
            return o.get()
        if isinstance(v, Obj):
            return Obj(v.cls, {k: Cell(self.copy(c.get())) for k, c in v.f.items()})
        if isinstance(v, Vec):
            if v.cells is None:
                return clone(v)
            return Vec(v.size, [(i, Cell(self.copy(c.get()))) for i, c in v.cells], None, v.ty)
        if isinstance(v, Ei):
            return Ei(v.left, self.copy(v.v.get()))
        if isinstance(v, Var):
            return Var(v.alt, self.copy(v.cell.get()))
        if isinstance(v, Opt):
            return Opt(v.has, self.copy(v.cell.get()))
        if isinstance(v, Map):
            return Map({k: Cell(self.copy(c.get())) for k, c in v.d.items()})
        return clone(v)

    def assign(self, cell, v, cls=None):
        """defaulted assignment: honours user-provided operator= of bases and members"""
        old = cell.get()
        if isinstance(v, Obj) and isinstance(old, Obj) and v.cls == old.cls and self.P.user_assign:
            self.assign_obj(cell, v, v.cls)
        else:
            cell.set(self.copy(v))

    def assign_obj(self, cell, v, cls):
        if cls in self.P.user_assign:
            tu, i = self.P.user_assign[cls]
            self.call(tu, i, cell, [Cell(v)])
            return
        rec = self.P.records.get(cls)
        if rec is None:
            cell.set(self.copy(v))
            return
        for b in rec['bases']:
            self.assign_obj(cell, v, b)
        o = cell.get()
        for f in rec['fields']:
            if f[0] in v.f:
                self.assign(o.f[f[0]], v.f[f[0]].get())

    def fields(self, cls):
        rec = self.P.records.get(cls)
        if rec is None:
            return []
        out = []
        for b in rec['bases']:
            out += self.fields(b)
        return out + rec['fields']

    def default_value(self, ty):
        t = bare(ty)
        if t in SCALARS:
            return 0 if t != 'bool' else False
        if t in FLOATS:
            return 0.0
        if t.endswith('*'):
            return Ptr()
        if t.startswith('std::vector<'):
            return Vec(0, [], None, t)
        if t.startswith('std::basic_string<') or t == 'std::string':
            return ''
        if t.startswith('std::unordered_map<') or t.startswith('std::map<'):
            return Map()
        if t.startswith('std::variant<'):
            a = targs(t)[0]
            return Var(a, self.default_value(a))
        if t.startswith('std::optional<'):
            return Opt(False)
        if t.startswith('std::pair<'):
            a = targs(t)
            return mkpair(self.default_value(a[0]), self.default_value(a[1]))
        if t.startswith('nlohmann::basic_json'):
            return Js('null')
        if t.startswith('strong::type<'):
            return self.default_value(targs(t)[0])
        if t in self.P.records:
            return self.construct_default(t)
        return Sym('default', t)

    def construct_default(self, t):
        c = self.P.default_ctor.get(t)
        if c:
            cell = Cell(self.default_obj(t, init=False))
            args = []
            tu, i = c
            if tu.fns[i]['pt']:
                args = [Cell(self.defarg(tu, i, k)) for k in range(len(tu.fns[i]['pt']))]
            self.call(tu, i, cell, args)
            return cell.get()
        return self.default_obj(t)

    def defarg(self, tu, i, k):
        return 1        # BasePRNG(int seed = 1) is the only defaulted constructor parameter reached this way

    def default_obj(self, t, init=True):
        o = Obj(t)
        for f in self.fields(t):
            m = re.match(r'(.*)\[(\d+)\]$', f[1])
            if m:
                n = self.P.array_size.get((t, f[0]), int(m.group(2)))
                o.f[f[0]] = Cell(Vec(n, None, Sym('indeterminate', f[0]), 'array<%s>' % m.group(1)))
            elif f[3] is not None and init:
                o.f[f[0]] = Cell(self.eval(f[3], {}, f[5]))
            else:
                o.f[f[0]] = Cell(self.default_value(f[1]))
        return o

    # ---- calls
    def call(self, tu, i, this, args):
        """args: cells (one per parameter)"""
        f = tu.fns[i]
        if self.intercept is not None:
            r = self.intercept(self, tu, f, this, args)
            if r is not NotImplemented:
                return r
        if f['sq'] in self.hooks or f['last'] in self.hooks:
            h = self.hooks.get(f['sq']) or self.hooks[f['last']]
            r = h(self, f, this, args)
            if r is not NotImplemented:
                return r
        body = tu.bodies.get(i)
        if body is None or body.get('body') is None:
            r = self.P.by_m.get(f['m']) if f['m'] else None
            if r:
                tu, i = r
                body = tu.bodies[i]
        if body is None:
            if f.get('defaulted') or f.get('implicit'):
                return self.defaulted(tu, i, this, args)
            self.note('no body for ' + f['q'])
        if body.get('body') is None and 'inits' not in body:
            return self.defaulted(tu, i, this, args)
        return self.run_body(tu, i, body, this, args)

    def run_body(self, tu, i, body, this, args, env=None):
        f = tu.fns[i]
        if self.depth > 60:
            self.note('call depth')
        env = dict(env) if env else {}
        env['this'] = this if this is not None else env.get('this')
        env['fn'] = f
        for k, (pid, name, ti, isref) in enumerate(body['params']):
            if k >= len(args):
                self.note('missing argument in call of ' + f['q'])
            a = args[k]
            env[pid] = a if isref else Cell(a.get())
            if self.watch_locals and self.depth == 0:
                self.watch.append((env[pid], name, a.get()))
        self.depth += 1
        self.callstack.append(f['sq'])
        try:
            for ini in body.get('inits') or []:
                if ini[0] == 'member':
                    v = self.eval(ini[2], env, tu) if ini[2] is not None else None
                    if ini[2] is not None and ini[2][0] == 'zero' or v is None:
                        continue
                    fld = this.get().f.get(ini[1])
                    if fld is None:
                        this.get().f[ini[1]] = Cell(v)
                    elif isinstance(v, Vec) and fld.get().__class__ is Vec and fld.get().ty.startswith('array<'):
                        pass
                    else:
                        fld.set(v)
                elif ini[0] == 'base':
                    n = ini[2]
                    if n[0] == 'construct':
                        self.call(tu, n[3], this, self.bind(tu, n[3], n[4], env))
                elif ini[0] == 'delegate':
                    n = ini[2]
                    if n[0] == 'construct':
                        self.call(tu, n[3], this, self.bind(tu, n[3], n[4], env))
            try:
                if body['body'] is not None:
                    self.exec(body['body'], env, tu)
            except Return_ as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.callstack.pop()

    def defaulted(self, tu, i, this, args):
        f = tu.fns[i]
        k = f['k']
        if k in ('copyctor', 'movector'):
            this.set(self.copy(args[0].get()))
            return None
        if f['last'] == 'operator=':
            self.assign(this, args[0].get())
            return this
        if k in ('ctor', 'dtor'):
            return None
        self.note('defaulted ' + f['q'])

    def bind(self, tu, fn, argnodes, env):
        f = tu.fns[fn]
        out = []
        for k, a in enumerate(argnodes):
            t = self.ty(tu, f['pt'][k]) if k < len(f['pt']) else ''
            if t.endswith('&') or not t:
                out.append(self.lval(a, env, tu))
            else:
                out.append(Cell(self.eval(a, env, tu)))
        return out

    def ctype(self, v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Vec):
            return v.ty
        if isinstance(v, Js):
            return 'nlohmann::basic_json<>'
        if isinstance(v, Var):
            return 'std::variant<'
        return ''

    def apply(self, f, args):
        """call a callable with cells"""
        if isinstance(f, Cell) or isinstance(f, FnCell):
            f = f.get()
        if isinstance(f, Ptr) and f.cell:
            f = f.cell.get()
        if isinstance(f, Fn):
            args = [a if self.ty(f.tu, t).endswith('&') else Cell(self.copy(a.get())) for a, t in zip(args, f.tu.fns[f.fn]['pt'])]
            return self.call(f.tu, f.fn, None, args)
        if isinstance(f, Lam):
            tu, i = f.tu, f.fn
            g = tu.fns[i].get('generic')
            if g is not None:
                g = [x for x in g if x in tu.bodies]
                if len(g) > 1:
                    want = [self.ctype(a.get()) for a in args]

                    def ok(x):
                        pt = [bare(self.ty(tu, t)) for t in tu.fns[x]['pt']]
                        return len(pt) == len(want) and all(not w or p == w or p.startswith(w) for p, w in zip(pt, want))
                    g = [x for x in g if ok(x)]
                if len(g) != 1:
                    self.note('generic lambda with %d candidate instantiations' % len(g))
                i = g[0]
            body = tu.bodies.get(i)
            if body is None:
                self.note('lambda without body')
            args = [a if self.ty(tu, t).endswith('&') else Cell(self.copy(a.get())) for a, t in zip(args, tu.fns[i]['pt'])]
            return self.run_body(tu, i, body, None, args, f.env)
        if isinstance(f, Obj):
            m = self.P.method(f.cls, 'operator()')
            if m:
                return self.call(m[0], m[1], Cell(f), args)
        if isinstance(f, Native):
            return f.fn(self, args)
        self.note('call of %r' % (f,))

    # ---- glvalues
    def lval(self, n, env, tu):
        k = n[0]
        if k == 'ref':
            c = env.get(n[3])
            if c is None:
                self.note('unbound variable ' + n[4])
            return c
        if k == 'temp':
            s = n[3]
            if s[0] in ('ref', 'member', 'index'):
                v = self.eval(s, env, tu)
                return Cell(v)
            return self.lval(s, env, tu)
        if k == 'cast':
            if n[3] in ('NoOp', 'LValueToRValue', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion'):
                return self.lval(n[4], env, tu)
            return Cell(self.eval(n, env, tu))
        if k == 'member':
            return self.member(n, env, tu)
        if k == 'gref':
            return self.gref(n, env, tu)
        if k == 'index':
            b = self.eval(n[3], env, tu)
            i = self.eval(n[4], env, tu)
            return self.deref(self.padd(b, i))
        if k == 'un' and n[3] == '*':
            return self.deref(self.eval(n[4], env, tu))
        if k == 'un' and n[3] in ('++', '--'):
            c = self.lval(n[4], env, tu)
            c.set(self.incdec(c.get(), 1 if n[3] == '++' else -1, n, tu))
            return c
        if k == 'bin' and n[3].endswith('=') and n[3] not in CMP:
            return self.assignop(n, env, tu)
        if k == 'bin' and n[3] == ',':
            self.eval(n[4], env, tu)
            return self.lval(n[5], env, tu)
        if k == 'cond':
            c = self.truth(self.eval(n[3], env, tu))
            return self.lval(n[4] if c else n[5], env, tu)
        if k == 'this':
            return Cell(Ptr(env['this']))
        if k in ('call', 'mcall', 'opcall'):
            r = self.docall(n, env, tu)
            return r if isinstance(r, (Cell, FnCell)) or hasattr(r, 'get') and hasattr(r, 'set') else Cell(r)
        return Cell(self.eval(n, env, tu))

    def member(self, n, env, tu):
        if n[6] is not None and n[6] != -1 and n[4] == '':
            pass
        if n[5]:
            b = self.eval(n[3], env, tu)
            if isinstance(b, Ptr):
                bc = self.deref(b)
            else:
                self.note('-> on %r' % (b,))
        else:
            bc = self.lval(n[3], env, tu)
        o = bc.get()
        name = n[4]
        if isinstance(o, Ei):
            if name == 'isLeft':
                return Cell(o.left)
            if name in ('leftValue', 'rightValue'):
                if o.left != (name == 'leftValue'):
                    self.note('wrong side of an Either')
                return o.v
        if isinstance(o, Obj):
            if name in o.f:
                return o.f[name]
        if isinstance(o, Tup) and name in ('first', 'second') and len(o.items) == 2:
            return o.items[name == 'second'][1]
        self.note('member %s of %s' % (name, type(o).__name__))

    def gref(self, n, env, tu):
        q = n[4]
        if q in ('std::nullopt',):
            return Cell(NULLOPT)
        if (id(tu), n[3]) in self.statics:
            return self.statics[(id(tu), n[3])]
        if q in self.globals:
            return self.globals[q]
        g = tu.globals.get(n[3])
        t = tu
        if g is None:
            for t in self.P.tus:
                for x in t.globals.values():
                    if x['q'] == q and x['var'][3] is not None:
                        g = x
                        break
                if g:
                    break
        if g is None:
            if q.startswith('std::') or 'logger' in q:
                return Cell(Sym('extglobal', q))
            self.note('global ' + q)
        v = g['var']
        if not g['const']:
            c = Cell(Sym('global', q))
            self.p.events.append(('mutable-global', q, self.where()))
        else:
            c = Cell(self.eval(v[3], {'fn': None, 'this': None}, t) if v[3] is not None else self.default_value(self.ty(t, v[2])))
        self.globals[q] = c
        return c

    def where(self):
        return ' < '.join(reversed(self.callstack[-4:]))

    def padd(self, p, i):
        if isinstance(p, Vec):
            p = Ptr(vec=p)
        if isinstance(p, Ptr) and p.vec is not None:
            return Ptr(None, p.vec, add(p.pos, i))
        if isinstance(p, Ptr) and i == 0:
            return p
        self.note('pointer arithmetic on %r' % (p,))

    def deref(self, p):
        if isinstance(p, Ptr):
            if p.cell is not None:
                return p.cell
            if p.vec is not None:
                return self.at(p.vec, p.pos)
            self.note('null dereference')
        if isinstance(p, Opt):
            return p.cell
        if isinstance(p, FnCell) or isinstance(p, Cell):
            return p
        self.note('dereference of %r' % (type(p).__name__,))

    def at(self, v, pos):
        """cell of the element of sequence v at position pos"""
        if isinstance(v, Map):
            self.note('map element by position')
        if v.cells is not None:
            if isinstance(pos, int) and 0 <= pos < len(v.cells) and v.cells[pos][0] == pos and isinstance(v.cells[pos][0], int):
                return v.cells[pos][1]
            for i, c in v.cells:
                if i is pos or i == pos and type(i) == type(pos) or (isinstance(i, Lin) and isinstance(pos, Lin) and i == pos):
                    return c
            cands = [(i, c) for i, c in v.cells if self.p.known('==', i, pos) is not False]
            if not cands:
                self.p.events.append(('out-of-range', str(pos), self.where()))
                self.note('index %s outside the representatives' % (pos,))
            for i, c in cands[:-1]:
                if self.p.decide(('at', Sym('p', pos), Sym('p', i)), 'element at %s is the one at %s' % (pos, i)):
                    return c
            return cands[-1][1]
        p = term(pos)
        return FnCell(lambda: self.read(v.content, p), lambda x: self.write(v, p, x))

    def write(self, v, pos, x):
        if self.journal is not None:
            self.journal.append(v)
        v.content = Sym('set', v.content, pos, term(x))

    def read(self, C, pos):
        while isinstance(C, Sym):
            k = C.t[0]
            if k == 'fill':
                return C.t[1]
            if k == 'set':
                r = self.p.known('==', C.t[2], pos) if C.t[2] is not pos else True
                if r or C.t[2] == pos:
                    return C.t[3]
                if r is False:
                    C = C.t[1]
                    continue
                break
            if k == 'gen':          # for every idx: value
                return subst(C.t[2], lambda s: pos if s is C.t[1] else None)
            if k == 'iota':
                return add(C.t[1], pos)
            if k == 'slice':
                pos = term(add(C.t[2], pos))
                C = C.t[1]
                continue
            if k == 'sset':
                off, ln = C.t[2], C.t[3]
                d = add(pos, off, -1) if lin(pos) and lin(off) else None
                if d is not None:
                    a, b = self.p.known('>=', d, 0), self.p.known('<', d, ln)
                    if a and b:
                        pos = term(add(C.t[5], d))
                        C = C.t[4]
                        continue
                    if a is False or b is False:
                        C = C.t[1]
                        continue
                break
            break
        return Sym('elem', C, term(pos))

    # ---- values
    def eval(self, n, env, tu):
        if n is None:
            return None
        self.p.steps += 1
        if self.p.steps > self.STEPS:
            self.note('step limit')
        k = n[0]
        if k == 'int':
            v = int(n[3])
            return v
        if k == 'bool':
            return bool(int(n[3]))
        if k == 'float':
            return float(n[3])
        if k == 'str':
            return n[3]
        if k == 'null':
            return Ptr()
        if k in ('ref', 'member', 'index', 'gref'):
            return self.lval(n, env, tu).get()
        if k == 'temp':
            return self.eval(n[3], env, tu)
        if k == 'this':
            return Ptr(env['this'])
        if k == 'cast':
            return self.cast(n, env, tu)
        if k == 'fref':
            return Fn(tu, n[3])
        if k in ('call', 'mcall', 'opcall'):
            r = self.docall(n, env, tu)
            return r.get() if hasattr(r, 'get') and hasattr(r, 'set') else r
        if k == 'construct':
            return self.construct(n, env, tu)
        if k == 'new':
            init = n[4]
            if n[5]:
                v = self.eval(init, env, tu) if init is not None else None
                for a in n[5]:
                    p = self.eval(a, env, tu)
                    if isinstance(p, Ptr):
                        self.deref(p).set(v)
                        return p
                self.note('placement new')
            v = self.eval(init, env, tu) if init is not None else self.default_value(self.ty(tu, n[3]))
            return Ptr(Cell(v))
        if k == 'delete':
            return None
        if k == 'initlist':
            return self.initlist(n, env, tu)
        if k == 'stdinit':
            return self.eval(n[3], env, tu)
        if k == 'zero':
            return self.default_value(self.ty(tu, n[2]))
        if k == 'bin':
            return self.binop(n, env, tu)
        if k == 'un':
            return self.unop(n, env, tu)
        if k == 'cond':
            c = self.truth(self.eval(n[3], env, tu))
            return self.eval(n[4] if c else n[5], env, tu)
        if k == 'throw':
            t = bare(self.ty(tu, n[3][2])) if n[3] is not None else 'rethrow'
            if n[3] is None:
                raise CppThrow(env.get('exc', 'std::exception'), self.where())
            raise CppThrow(t, self.where())
        if k == 'lambda':
            e = {'this': None, 'fn': env.get('fn')}
            for c in n[4]:
                if c[0] == 'this':
                    e['this'] = env['this']
                elif c[0] == 'ref':
                    e[c[1]] = self.lval(c[3], env, tu) if c[3] else env[c[1]]
                elif c[0] == 'copy':
                    e[c[1]] = Cell(self.copy(self.eval(c[3], env, tu)))
                else:
                    self.note('capture')
            return Lam(tu, n[3], e, self.ty(tu, n[2]))
        self.note('expression kind %s %s' % (k, n[3] if len(n) > 3 and isinstance(n[3], str) else ''))

    def initlist(self, n, env, tu):
        t = bare(self.ty(tu, n[2]))
        vals = [self.eval(x, env, tu) for x in n[3]]
        if t in self.P.records and self.fields(t):
            o = self.default_obj(t)
            for f, v in zip(self.fields(t), vals):
                o.f[f[0]] = Cell(v)
            return o
        if t in SCALARS or t in FLOATS:
            return vals[0] if vals else self.default_value(t)
        return Vec(len(vals), [(i, Cell(v)) for i, v in enumerate(vals)], None, t)

    def cast(self, n, env, tu):
        ck = n[3]
        if ck in ('UserDefinedConversion',):
            return self.eval(n[4], env, tu)
        if ck == 'ToVoid':
            self.eval(n[4], env, tu)
            return None
        v = self.eval(n[4], env, tu)
        t = bare(self.ty(tu, n[2]))
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            return self.truth(v)
        if ck in ('IntegralCast', 'FloatingToIntegral', 'BooleanToSignedIntegral'):
            return self.toint(v, t, ck == 'FloatingToIntegral')
        if ck == 'IntegralToFloating':
            if isinstance(v, bool):
                return float(v)
            return (f32(v) if t == 'float' else float(v)) if isinstance(v, int) else v
        if ck == 'FloatingCast' and t == 'float' and isinstance(v, float):
            return f32(v)
        if ck == 'ArrayToPointerDecay':
            if isinstance(v, str):
                return v
            if isinstance(v, Vec):
                return Ptr(None, v, 0)
        return v

    def toint(self, v, t, fromfloat=False):
        if isinstance(v, bool):
            return int(v)
        if t not in SCALARS:
            return v
        lo, hi = SCALARS[t]
        if isinstance(v, float):
            if v != v or v in (INF, -INF):
                return Sym('trunc', t, term(v))
            v = int(v)
        if isinstance(v, int):
            if lo <= v <= hi:
                return v
            m = hi - lo + 1
            return (v - lo) % m + lo
        if isinstance(v, Word):
            return v
        if fromfloat and isinstance(v, (Sym, Lin)):
            a = Sym('trunc', t, term(v))
            self.p.iv.setdefault(a, (lo, hi))
            return a
        if isinstance(v, (Sym, Lin)):
            x, y = self.p.ival(v)
            if self.native and (x < lo or y > hi) and x > -INF and y < INF:
                x, y = self.p.tight(v)
            if x >= lo and y <= hi or (x == -INF and y == INF):
                return v
            if isinstance(v, Sym) and v.t[0] == 'usub':
                return v
            m = hi - lo + 1
            if x > -INF and y < INF:
                sh = int((x - lo) // m) * m
                if sh and x - sh >= lo and y - sh <= hi:
                    return unlin(ladd(lin(v), lin(sh), -1))
            a = Sym('wrap', t, term(v))
            self.p.iv.setdefault(a, (lo, hi))
            return a
        return v

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, Opt):
            return v.has
        if isinstance(v, Ptr):
            return v.cell is not None or v.vec is not None
        if isinstance(v, Word):
            if v.k1:
                return True
            if v.k0 == (1 << v.bits) - 1:
                return False
            return self.p.decide(('word', id(v)))
        if isinstance(v, Sym) and v.t[0] == 'cmpt':
            return self.p.cmp(v.t[1], v.t[2], v.t[3])
        if isinstance(v, (Lam, Fn)):
            return True
        return self.p.cmp('!=', v, 0)

    def compare(self, op, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrcmp(op, a, b)
        if isinstance(a, Word) or isinstance(b, Word):
            if isinstance(b, Word):
                a, b = b, a
            if isinstance(b, int) and op in ('==', '!='):
                if a.k1 & ~b or (a.k0 & b):
                    return op == '!='
                if (a.k1 | a.k0) == (1 << a.bits) - 1:
                    return op == '=='
                return self.p.decide(('word', id(a), b)) == (op == '==')
            self.note('word comparison')
        return self.p.cmp(op, a, b)

    def ptrcmp(self, op, a, b):
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            self.note('pointer comparison')
        if a.vec is not None and b.vec is not None and a.vec is b.vec:
            return self.p.cmp(op, a.pos, b.pos)
        if op in ('==', '!='):
            same = (a.cell is not None and a.cell is b.cell) or (a.cell is None and b.cell is None and a.vec is None and b.vec is None)
            if a.cell is not None and b.cell is not None and a.cell is not b.cell and a.cell.get() is b.cell.get() and isinstance(a.cell.get(), Obj):
                same = True
            return same == (op == '==')
        self.note('pointer comparison')

    def binop(self, n, env, tu):
        op = n[3]
        if op == '&&':
            return self.truth(self.eval(n[4], env, tu)) and self.truth(self.eval(n[5], env, tu))
        if op == '||':
            return self.truth(self.eval(n[4], env, tu)) or self.truth(self.eval(n[5], env, tu))
        if op == ',':
            self.eval(n[4], env, tu)
            return self.eval(n[5], env, tu)
        if op.endswith('=') and op not in CMP:
            return self.assignop(n, env, tu).get()
        a = self.eval(n[4], env, tu)
        b = self.eval(n[5], env, tu)
        return self.arith(op, a, b, bare(self.ty(tu, n[2])), n)

    def arith(self, op, a, b, t, n=None):
        if op in CMP:
            return self.compare(op, a, b)
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == '+':
                return self.padd(a, b) if isinstance(a, Ptr) else self.padd(b, a)
            if op == '-':
                if isinstance(b, Ptr):
                    if a.vec is b.vec and a.vec is not None:
                        return add(a.pos, b.pos, -1)
                    self.note('pointer difference')
                return self.padd(a, unlin(ladd(lin(0), lin(b), -1)))
            self.note('pointer ' + op)
        isf = t in FLOATS
        if DIVS is not None and op in ('/', '%') and not isf and not isinstance(a, float) and not isinstance(b, float):
            self.divlog(b, n)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return self.carith(op, a, b, t)
        if isinstance(a, Word) or isinstance(b, Word):
            return self.wordop(op, a, b)
        if op in ('/', '%') and not isf:
            z = self.p.known('==', b, 0)
            if z is not False:
                self.p.events.append(('divisor', term(b), self.p.ival(b), self.where(), n[1] if n else 0))
                if z:
                    raise Abort('division by zero')
        if isf or isinstance(a, float) or isinstance(b, float):
            ta, tb = term(a), term(b)
            if op in '+*' and skey(ta) > skey(tb):
                ta, tb = tb, ta
            return Sym('f' + op, ta, tb)
        la, lb = lin(a), lin(b)
        if la is None or lb is None:
            return Sym('op' + op, term(a), term(b))
        if op in '+-':
            r = unlin(ladd(la, lb, 1 if op == '+' else -1))
            if t in SCALARS and SCALARS[t][0] == 0 and op == '-' and isinstance(r, (Sym, Lin)):
                lo, hi = self.p.ival(r)
                if lo < 0:
                    s = Sym('usub', r)
                    self.p.iv.setdefault(s, SCALARS[t])
                    return s
            if isinstance(r, int) and t in SCALARS:
                if self.native:
                    self.overflow(r, t)
                return self.toint(r, t)
            if self.native:
                self.overflow(r, t)
            return r
        if op == '*':
            if isinstance(a, int): a, b, la, lb = b, a, lb, la
            if isinstance(b, int):
                r = unlin(Lin(la.c * b, {k: v * b for k, v in la.k.items()})) if b else 0
                if self.native:
                    self.overflow(r, t)
                return r
            ta, tb = term(a), term(b)
            if skey(ta) > skey(tb):
                ta, tb = tb, ta
            return Sym('mul', ta, tb)
        if op in ('>>', '<<', '&') and isinstance(b, int) and la.k and self.p.ival(a)[0] >= 0:
            if op != '&' and 0 <= b < 63:
                return self.arith('/' if op == '>>' else '*', a, 1 << b, t, n)
            if op == '&' and b > 0 and b & (b + 1) == 0:
                return self.arith('%', a, b + 1, t, n)
        if op in '/%' and isinstance(b, int) and b != 0:
            if all(isinstance(v, int) and v % b == 0 for v in la.k.values()):
                lo, hi = self.p.ival(a)
                c = la.c
                if op == '%':
                    if c % b == 0: return 0
                    if lo >= 0: return c % b
                    if hi <= 0: return -((-c) % b)
                    return self.p.decide(('sign', Sym('p', term(a)))) and c % b or -((-c) % b)
                if lo >= 0:
                    return unlin(Lin(c // b, {k: v // b for k, v in la.k.items()}))
        if op == '%':
            if self.p.ival(a)[0] >= 0 and self.p.known('<', a, b):
                return a
            return Sym('rem', term(a), term(b))
        if op == '/':
            return Sym('div', term(a), term(b))
        return Sym('op' + op, term(a), term(b))

    def overflow(self, r, t):
        if t in ('int', 'long', 'long long'):
            lo, hi = self.p.ival(r)
            if lo < SCALARS[t][0] and lo > -INF or hi > SCALARS[t][1] and hi < INF:
                self.p.events.append(('overflow', t, term(r), (lo, hi), self.where()))

    def divlog(self, b, n):
        """note an integer division or remainder and whether its divisor can be zero here"""
        if isinstance(b, Word):
            z = False if b.k1 else None
        else:
            z = self.p.known('==', b, 0)
        DIVS.append((self.callstack[-1] if self.callstack else '?', n[1] if n else self.line, z, b, self.p))

    def carith(self, op, a, b, t):
        if op == '+': r = a + b
        elif op == '-': r = a - b
        elif op == '*': r = a * b
        elif op in '/%':
            if t in FLOATS or isinstance(a, float) or isinstance(b, float):
                if b == 0:
                    return float('nan') if a == 0 else math.copysign(INF, a)
                r = a / b
            else:
                if b == 0:
                    self.p.events.append(('divisor', 0, (0, 0), self.where(), 0))
                    raise Abort('division by zero')
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0): q = -q
                r = q if op == '/' else a - q * b
        elif op == '&': r = a & b
        elif op == '|': r = a | b
        elif op == '^': r = a ^ b
        elif op == '<<': r = a << b
        elif op == '>>': r = a >> b
        else:
            self.note('operator ' + op)
        if t == 'float' and isinstance(r, (int, float)):
            return f32(r)
        if isinstance(r, int) and t in SCALARS:
            if self.native and op in '+-*':
                self.overflow(r, t)
            return self.toint(r, t)
        return r

    def wordop(self, op, a, b):
        full = (1 << 64) - 1

        def w(x):
            if isinstance(x, Word): return x
            if isinstance(x, int): return Word(x & full, ~x & full)
            self.note('word operator on %r' % (x,))
        a, b = w(a), w(b)
        if op == '&': r = Word(a.k1 & b.k1, a.k0 | b.k0)
        elif op == '|': r = Word(a.k1 | b.k1, a.k0 & b.k0)
        elif op == '^':
            k = (a.k1 | a.k0) & (b.k1 | b.k0)
            r = Word((a.k1 ^ b.k1) & k, ~(a.k1 ^ b.k1) & k)
        elif op in ('>>', '<<') and (b.k1 | b.k0) == full:
            s = b.k1
            if s > 63: self.note('shift')
            if op == '>>': r = Word(a.k1 >> s, (a.k0 >> s) | (full & ~(full >> s)))
            else: r = Word((a.k1 << s) & full, ((a.k0 << s) | ((1 << s) - 1)) & full)
        else:
            self.note('word operator ' + op)
        if (r.k1 | r.k0) == full:
            return r.k1
        return r

    def incdec(self, v, d, n, tu):
        if isinstance(v, Ptr):
            return self.padd(v, d)
        if isinstance(v, bool):
            v = int(v)
        return self.arith('+' if d > 0 else '-', v, 1, bare(self.ty(tu, n[2])))

    def unop(self, n, env, tu):
        op = n[3]
        if op in ('++', '--'):
            return self.lval(n, env, tu).get()
        if op in ('++post', '--post'):
            c = self.lval(n[4], env, tu)
            v = c.get()
            c.set(self.incdec(v, 1 if op[0] == '+' else -1, n, tu))
            return v
        if op == '*':
            return self.lval(n, env, tu).get()
        if op == '&':
            if n[4][0] == 'fref':
                return Fn(tu, n[4][3])
            if n[4][0] == 'index':
                b = self.eval(n[4][3], env, tu)
                return self.padd(b, self.eval(n[4][4], env, tu))
            return Ptr(self.lval(n[4], env, tu))
        v = self.eval(n[4], env, tu)
        t = bare(self.ty(tu, n[2]))
        if op == '!':
            return not self.truth(v)
        if op == '+':
            return v
        if op == '-':
            if isinstance(v, bool): v = int(v)
            if isinstance(v, (int, float)):
                return self.toint(-v, t) if isinstance(v, int) else -v
            if t in FLOATS:
                return Sym('f-', 0.0, term(v))
            return unlin(ladd(lin(0), lin(v), -1)) if lin(v) else Sym('neg', term(v))
        if op == '~':
            if isinstance(v, bool): v = int(v)
            if isinstance(v, int):
                return self.toint(~v, t)
            if isinstance(v, Word):
                return Word(v.k0, v.k1)
            return Sym('not', term(v))
        self.note('unary ' + op)

    def assignop(self, n, env, tu):
        op = n[3]
        if op == '=':
            v = self.eval(n[5], env, tu)
            c = self.lval(n[4], env, tu)
            self.store(c, v)
            return c
        c = self.lval(n[4], env, tu)
        a = c.get()
        b = self.eval(n[5], env, tu)
        if isinstance(a, str) or isinstance(b, str) and op == '+=':
            self.store(c, self.concat(a, b))
            return c
        t = bare(self.ty(tu, n[2]))
        v = self.arith(op[:-1], a, b, t if t in FLOATS or not isinstance(b, float) else 'float', n)
        if t in SCALARS and not isinstance(v, Word):
            v = self.toint(v, t, isinstance(v, float) or isinstance(v, Sym) and v.t[0][0] == 'f' and v.t[0][1:] in ('+', '-', '*', '/'))
        self.store(c, v)
        return c

    def store(self, c, v):
        for q, g in self.globals.items():
            if g is c:
                self.p.events.append(('write-global', q, self.where()))
        c.set(v)

    def concat(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        return Sym('cat', term(a), term(b))

    # ---- statements
    def exec(self, s, env, tu):
        if s is None:
            return
        k = s[0]
        self.p.steps += 1
        self.line = s[1]
        if k == 'expr':
            e = s[3]
            if self.islog(e, tu):
                return
            if e[0] in ('ref', 'member', 'gref'):
                return
            if e[0] in ('call', 'mcall', 'opcall'):
                self.docall(e, env, tu)
            elif e[0] in ('un', 'bin') and e[2] >= 0:
                if e[0] == 'un' and e[3] in ('++', '--') or e[0] == 'bin' and e[3].endswith('=') and e[3] not in CMP:
                    self.lval(e, env, tu)
                else:
                    self.eval(e, env, tu)
            else:
                self.eval(e, env, tu)
        elif k == 'block':
            for x in s[3]:
                self.exec(x, env, tu)
        elif k == 'decl':
            for v in s[3]:
                self.decl(v, env, tu)
        elif k == 'if':
            self.exec(s[3], env, tu)
            self.exec(s[4], env, tu)
            if self.truth(self.eval(s[5], env, tu)):
                self.exec(s[6], env, tu)
            else:
                self.exec(s[7], env, tu)
        elif k == 'return':
            rt = self.ty(tu, env['fn']['ret']) if env.get('fn') else ''
            if s[3] is None:
                raise Return_(None)
            if rt.endswith('&'):
                raise Return_(self.lval(s[3], env, tu))
            raise Return_(self.eval(s[3], env, tu))
        elif k == 'for':
            self.exec(s[3], env, tu)
            self.loop(s[4], s[5], s[6], env, tu, s)
        elif k == 'while':
            self.loop(s[3], None, s[4], env, tu, s)
        elif k == 'do':
            try:
                self.exec(s[3], env, tu)
            except Continue_:
                pass
            except Break_:
                return
            self.loop(s[4], None, s[3], env, tu, s)
        elif k == 'rfor':
            self.rfor(s, env, tu)
        elif k == 'break':
            raise Break_()
        elif k == 'continue':
            raise Continue_()
        elif k == 'nop':
            pass
        elif k == 'try':
            try:
                self.exec(s[3], env, tu)
            except CppThrow as e:
                for ty, var, body in s[4]:
                    if ty is None or self.catches(self.ty(tu, ty), e.ty):
                        if var is not None:
                            env[var[0]] = Cell(Obj('exception', {'what': Cell(Sym('what', e.ty))}))
                        env['exc'] = e.ty
                        self.exec(body, env, tu)
                        return
                raise
        elif k == 'omp':
            self.exec(s[5], env, tu)
        elif k == 'switch':
            self.switch(s, env, tu)
        elif k in ('case', 'default'):
            self.exec(s[-1], env, tu)
        else:
            self.note('statement ' + k)

    def islog(self, e, tu):
        x, d = e, 0
        while isinstance(x, list) and d < 60:
            d += 1
            if x[0] == 'opcall' and x[3] == '<<':
                x = x[5][0]
            elif x[0] == 'mcall' and x[3] is not None and x[3] >= 0 and tu.fns[x[3]]['last'] == 'operator<<':
                x = x[4]
            elif x[0] in ('temp', 'cast'):
                x = x[3] if x[0] == 'temp' else x[4]
            elif x[0] == 'cond':
                x = x[4]
            else:
                break
        if not isinstance(x, list):
            return False
        if x[0] in ('construct', 'call', 'mcall') and x[3] is not None and x[3] >= 0:
            q = tu.fns[x[3]]['q']
            return 'log' in q.lower() and 'logic' not in q.lower()
        if x[0] == 'gref' and x[4] in ('std::cerr', 'std::cout', 'std::clog'):
            return True
        return False

    def catches(self, want, ty):
        want = bare(want)
        if want == ty:
            return True
        if want == 'std::exception':
            return ty.startswith(STD_EXC)
        if want.startswith('nlohmann::') and want.endswith('exception') and ty.startswith('nlohmann::'):
            return True
        if want == 'std::runtime_error':
            return ty in ('std::range_error', 'std::overflow_error', 'std::underflow_error', 'std::system_error')
        if want == 'std::logic_error':
            return ty in ('std::out_of_range', 'std::invalid_argument', 'std::length_error', 'std::domain_error')
        return False

    def switch(self, s, env, tu):
        v = self.eval(s[3], env, tu)
        body = s[4][3] if s[4] is not None and s[4][0] == 'block' else [s[4]]
        flat = []
        for x in body:
            while x is not None and x[0] in ('case', 'default'):
                flat.append(('label', x[3] if x[0] == 'case' else None))
                x = x[-1]
            flat.append(('stmt', x))
        start = None
        for i, (k, x) in enumerate(flat):
            if k == 'label' and x is not None and self.compare('==', v, self.eval(x, env, tu)):
                start = i
                break
        if start is None:
            for i, (k, x) in enumerate(flat):
                if k == 'label' and x is None:
                    start = i
        if start is None:
            return
        try:
            for k, x in flat[start:]:
                if k == 'stmt':
                    self.exec(x, env, tu)
        except Break_:
            pass

    def decl(self, v, env, tu):
        vid, name, ti, init, static, binds, isref, isconst = v
        if static:
            key = (id(tu), vid)
            if key not in self.statics:
                self.statics[key] = Cell(self.eval(init, env, tu) if init is not None else self.default_value(self.ty(tu, ti)))
                if not isconst:
                    self.p.events.append(('static-local', name, self.where()))
            env[vid] = self.statics[key]
            return
        if binds is not None:
            c = self.lval(init, env, tu) if isref else Cell(self.eval(init, env, tu))
            o = c.get()
            if isinstance(o, Obj) and o.cls == 'std::pair':
                cs = [o.f['first'], o.f['second']]
            elif isinstance(o, Obj):
                cs = [o.f[f[0]] for f in self.fields(o.cls)]
            elif isinstance(o, Tup):
                cs = [c for _, c in o.items]
            else:
                self.note('structured binding of %r' % (o,))
            env[vid] = c
            for b, x in zip(binds, cs):
                env[b[0]] = x
            return
        if isref:
            env[vid] = self.lval(init, env, tu)
            return
        t = self.ty(tu, ti)
        if init is None:
            env[vid] = Cell(self.default_value(t))
        else:
            env[vid] = Cell(self.eval(init, env, tu))

    # ---- loops
    def body(self, b, env, tu):
        """one iteration; True when the loop was left by break"""
        try:
            self.exec(b, env, tu)
        except Continue_:
            pass
        except Break_:
            return True
        return False

    def induction(self, cond, inc, env, tu):
        """(declid, bound node, op) of a counting loop"""
        c = cond
        while c is not None and c[0] in ('cast', 'temp'):
            c = c[4] if c[0] == 'cast' else c[3]
        if c is None or inc is None:
            return None
        if c[0] == 'opcall' and c[3] in ('<', '!=', '<='):
            op, l, r = c[3], c[5][0], c[5][1]
        elif c[0] == 'bin' and c[3] in ('<', '!=', '<=', '>', '>='):
            op, l, r = c[3], c[4], c[5]
        else:
            return None

        def var(x):
            while x[0] in ('cast', 'temp'):
                x = x[4] if x[0] == 'cast' else x[3]
            return x[3] if x[0] == 'ref' else None

        def inced(x):
            if x[0] == 'un' and x[3].startswith('++'):
                return var(x[4]), 1
            if x[0] == 'opcall' and x[3] == '++':
                return var(x[5][0]), 1
            if x[0] == 'bin' and x[3] == '+=':
                return var(x[4]), self.eval(x[5], env, tu)
            return None, 0
        iv, step = inced(inc)
        if iv is None:
            return None
        if var(l) == iv:
            return iv, r, op, step
        if var(r) == iv and op in ('>', '>=', '!='):
            return iv, l, {'>': '<', '>=': '<=', '!=': '!='}[op], step
        return None

    def loop(self, cond, inc, body, env, tu, s):
        trips = 0
        ind = self.induction(cond, inc, env, tu) if inc is not None else None
        while True:
            if ind is not None:
                v = env[ind[0]].get()
                b = self.eval(ind[1], env, tu)
                if isinstance(v, (int, Lin, Sym)) and not isinstance(v, bool) and (not isinstance(b, int) or isinstance(v, int) and b - v > self.MAXTRIP or not isinstance(v, int)):
                    if lin(b) is not None:
                        if ind[2] == '<=':
                            b = add(b, 1)
                        return self.counted(env, tu, ind, v, b, body)
                if isinstance(v, Ptr) and isinstance(b, Ptr) and v.vec is not None and v.vec is b.vec and not (isinstance(v.pos, int) and isinstance(b.pos, int)):
                    return self.iterated(env, tu, ind, v, b, body)
            r = self.truth(self.eval(cond, env, tu)) if cond is not None else True
            if not r:
                return
            trips += 1
            if trips > self.TRIPS:
                self.note('loop without recognised bound')
            if self.body(body, env, tu):
                return
            if inc is not None:
                self.exec(['expr', 0, -1, inc], env, tu)
            if ind is None and trips >= 3 and not self.concrete_progress(cond):
                pass

    def concrete_progress(self, cond):
        return True

    def reps_for(self, lo, bound):
        """positions standing for the range [lo, bound) when some sequence of that length is described by representatives"""
        return self.p.reps.get(term(bound)) if hasattr(self.p, 'reps') else None

    def counted(self, env, tu, ind, lo, bound, body):
        cell = env[ind[0]]
        step = ind[3]
        if not self.p.cmp('<', lo, bound):
            return
        reps = self.reps_for(lo, bound) if step == 1 else None
        if reps is not None:
            for i in reps:
                if self.p.known('>=', i, lo) is False:
                    continue
                cell.set(i)
                if self.body(body, env, tu):
                    return
            cell.set(bound)
            return
        # one generic iteration
        base = Sym('idx', term(bound), len(self.loops), ind[0] if not isinstance(lo, int) else lo)
        i = base
        if step != 1:
            i = Sym('idx', term(bound), len(self.loops), 'step', term(step))
        if isinstance(lo, int) and lo:
            self.p.refine(i, lo, INF)
        elif isinstance(lo, (Sym, Lin)):
            l, h = self.p.ival(lo)
            self.p.refine(i, l, INF)
        cell.set(i)
        self.loops.append(i)
        outer, self.journal = self.journal, []
        outside = [(c, c.get()) for k, c in list(env.items()) if type(c) is Cell and k != ind[0]]
        outside = [(c, v) for c, v in outside if isinstance(v, (int, float, Sym, Lin))]
        try:
            brk = self.body(body, env, tu)
        finally:
            self.loops.pop()
            mine = self.journal
            self.journal = outer
        seen = set()
        for v in mine:
            if id(v) in seen:
                continue
            seen.add(id(v))
            self.summarise(v, i, lo, bound)
            if outer is not None:
                outer.append(v)
        cell.set(bound)
        # scalars written in the body: an unknown function of the whole loop
        for c, v in outside:
            w = c.get()
            if w is not v and isinstance(w, (int, float, Sym, Lin)) and (type(w) is not type(v) or w != v):
                c.set(Sym('loopval', i, term(v), term(w)))

    def summarise(self, v, i, lo, bound):
        """content after a counting loop: a full overwrite forgets the previous content"""
        C = v.content
        if not (isinstance(C, Sym) and C.t[0] == 'set' and C.t[2] is i):
            if isinstance(C, Sym) and C.t[0] in ('set', 'sset'):
                v.content = Sym('loop', i, C)
            return
        base, val = C.t[1], C.t[3]
        full = term(v.size) == term(bound)
        known = lo
        chain = base
        # positions below lo already overwritten?
        new, covered = self.prefix(chain)
        start = 0 if lo == 0 else (covered if isinstance(lo, int) and covered >= lo else None)
        if full and start is not None:
            # reads of positions below i see the new content
            def f(s):
                if s.t[0] == 'elem' and s.t[1] is chain:
                    if self.p.known('<', s.t[2], i):
                        return Sym('elem', Sym('self'), s.t[2])
                return None
            val2 = subst(val, f) if isinstance(val, (Sym, Lin)) else val
            if not contains(val2, chain):
                v.content = Sym('gen', i, val2) if lo == 0 and not contains(val2, Sym('self')) else Sym('rec', new, i, val2)
                return
            if chain.t[0] == 'fill' if isinstance(chain, Sym) else False:
                v.content = Sym('gen', i, val2)
                return
        v.content = Sym('loop', i, C)

    def prefix(self, C):
        """values written at 0,1,2,... on top of an older content"""
        vals = {}
        while isinstance(C, Sym) and C.t[0] == 'set' and isinstance(C.t[2], int):
            vals.setdefault(C.t[2], C.t[3])
            C = C.t[1]
        n = 0
        while n in vals:
            n += 1
        return Sym('pre', *[vals[k] for k in range(n)]), n

    def iterated(self, env, tu, ind, v, b, body):
        vec = v.vec
        cell = env[ind[0]]
        for pos, _ in self.positions(v, b):
            cell.set(Ptr(None, vec, pos))
            if self.body(body, env, tu):
                return
        cell.set(b)

    def positions(self, b, e):
        """[(position, cell)] standing for the elements of [b, e)"""
        if not isinstance(b, Ptr) or not isinstance(e, Ptr) or b.vec is None or b.vec is not e.vec:
            self.note('iterator range')
        v = b.vec
        if v.cells is not None:
            out = []
            for i, c in v.cells:
                ge = self.p.known('>=', i, b.pos)
                lt = self.p.known('<', i, e.pos)
                if ge is None or lt is None:
                    ge = self.p.cmp('>=', i, b.pos)
                    lt = self.p.cmp('<', i, e.pos)
                if ge and lt:
                    out.append((i, c))
            return out
        if not self.p.cmp('<', b.pos, e.pos):
            return []
        i = Sym('idx', term(e.pos), len(self.loops), 'range', term(b.pos))
        return [(i, self.at(v, i))]

    def rfor(self, s, env, tu):
        self.exec(s[6], env, tu)
        var, rng, body = s[3], s[4], s[5]
        c = self.lval(rng, env, tu)
        v = c.get()
        if isinstance(v, Map):
            cells = [Cell(Obj('std::pair', {'first': Cell(k), 'second': x})) for k, x in sorted(v.d.items())]
        elif isinstance(v, Vec):
            cells = [x for _, x in self.positions(Ptr(None, v, 0), Ptr(None, v, v.size))]
        elif isinstance(v, Tup) and v.items and v.items[0] == 'items':
            cells = v.items[1]
        else:
            self.note('range-for over %s' % type(v).__name__)
        generic = isinstance(v, Vec) and v.cells is None
        if generic and cells:
            self.loops.append(Sym('idx', term(v.size), len(self.loops)))
        try:
            for x in cells:
                vid, name, ti, init, static, binds, isref, isconst = var
                if binds is not None:
                    o = x.get()
                    if not (isinstance(o, Obj) and 'first' in o.f):
                        self.note('structured binding in range-for')
                    fs = [o.f['first'], o.f['second']]
                    for b, y in zip(binds, fs):
                        env[b[0]] = y if isref else Cell(self.copy(y.get()))
                else:
                    env[vid] = x if isref else Cell(self.copy(x.get()))
                if self.body(body, env, tu):
                    return
        finally:
            if generic and cells:
                self.loops.pop()


def contains(t, x):
    st, seen = [t], set()
    while st:
        y = st.pop()
        if y is x:
            return True
        if isinstance(y, Sym):
            if y in seen:
                continue
            seen.add(y)
            st.extend(y.t[1:])
        elif isinstance(y, Lin):
            st.extend(y.k)
    return False


def targs(t):
    """top-level template arguments of a type string"""
    i = t.index('<')
    out, d, cur = [], 0, ''
    for ch in t[i + 1:]:
        if ch == '<': d += 1
        if ch == '>':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


# ------------------------------------------------------------------ library vocabulary
STRUCT = re.compile(r'^(strong::type|std::function)<')


class Models(Interp):
    def docall(self, n, env, tu):
        if n[0] == 'opcall':
            fn, args, op = n[4], n[5], n[3]
            f = tu.fns[fn] if fn is not None else None
            if f is None:
                self.note('operator without callee')
            if op == '()' :
                o = self.lval(args[0], env, tu)
                v = o.get()
                if isinstance(v, Lam):
                    if f['repo'] and (fn in tu.bodies):
                        return self.run_body(tu, fn, tu.bodies[fn], None, self.bind(tu, fn, args[1:], env), v.env)
                    return self.apply(v, [self.lval(a, env, tu) for a in args[1:]])
                if isinstance(v, Fn):
                    return self.apply(v, [self.lval(a, env, tu) for a in args[1:]])
                if f['sq'].startswith('std::random_device'):
                    self.p.events.append(('entropy', self.where()))
                    e = self.uniq('entropy')
                    self.p.iv[e] = SCALARS['unsigned int']
                    return e
            ov = self.overrides.get(f['sq'])
            if ov:
                return ov(self, f, n, env, tu)
            if f['repo']:
                if 'rec' in f and f['k'] in ('method', 'cmethod'):
                    return self.call(tu, fn, self.lval(args[0], env, tu), self.bind(tu, fn, args[1:], env))
                return self.call(tu, fn, None, self.bind(tu, fn, args, env))
            return self.stdop(op, f, n, args, env, tu)
        fn = n[3]
        if n[0] == 'mcall':
            f = tu.fns[fn] if fn is not None else None
            if f is None:
                self.note('member call without callee')
            o = self.lval(n[4], env, tu)
            if n[5]:
                o = self.deref(o.get())
            if f['repo']:
                return self.call(tu, fn, o, self.bind(tu, fn, n[6], env))
            return self.method(f, o, n[6], n, env, tu)
        if fn is None:
            c = self.eval(n[4], env, tu)
            return self.apply(c, [self.lval(a, env, tu) for a in n[5]])
        f = tu.fns[fn]
        if f['repo']:
            return self.call(tu, fn, None, self.bind(tu, fn, n[5], env))
        return self.free(f, n[5], n, env, tu)

    # ---- operators of library types
    def stdop(self, op, f, n, args, env, tu):
        if op == '<<' :
            return self.lval(args[0], env, tu)
        if op == '=':
            c = self.lval(args[0], env, tu)
            v = self.eval(args[1], env, tu)
            self.stdassign(c, v, args[1], n, tu, f)
            return c
        if op == '[]':
            c = self.lval(args[0], env, tu)
            o = c.get()
            i = self.eval(args[1], env, tu)
            return self.index(c, o, i)
        if op in ('*', '->') and len(args) == 1:
            v = self.eval(args[0], env, tu)
            if op == '->' :
                return v
            if isinstance(v, (Ptr, Opt)):
                return self.deref(v)
            if isinstance(v, Cell):
                return v
            return Cell(v)
        if op in CMP:
            a, b = self.eval(args[0], env, tu), self.eval(args[1], env, tu)
            if op in ('==', '!='):
                return self.equal(a, b) == (op == '==')
            return self.compare(op, a, b)
        if op in ('+', '-', '*', '/', '%', '&', '|', '^') and len(args) == 2:
            a, b = self.eval(args[0], env, tu), self.eval(args[1], env, tu)
            st = bare(self.ty(tu, n[2]))
            if isinstance(a, str) or isinstance(b, str) or st.startswith('std::basic_string'):
                return self.concat(a, b)
            t = targs(st)[0] if st.startswith('strong::type<') else st
            return self.arith(op, a, b, t, n)
        if op == '-' and len(args) == 1:
            v = self.eval(args[0], env, tu)
            return unlin(ladd(lin(0), lin(v), -1)) if lin(v) else Sym('neg', term(v))
        if op in ('++', '--'):
            c = self.lval(args[0], env, tu)
            v = c.get()
            c.set(self.padd(v, 1 if op == '++' else -1) if isinstance(v, Ptr) else self.arith(op[0], v, 1, 'int'))
            return c if len(args) == 1 else v
        if op in ('+=', '-='):
            c = self.lval(args[0], env, tu)
            a, b = c.get(), self.eval(args[1], env, tu)
            if isinstance(a, Ptr):
                c.set(self.padd(a, b if op == '+=' else unlin(ladd(lin(0), lin(b), -1))))
            elif isinstance(a, str) or isinstance(b, str) or isinstance(a, Sym) and a.t[0] == 'cat':
                c.set(self.concat(a, b))
            else:
                c.set(self.arith(op[0], a, b, 'int'))
            return c
        if op == '!':
            return not self.truth(self.eval(args[0], env, tu))
        if op == '()':
            return self.apply(self.eval(args[0], env, tu), [self.lval(a, env, tu) for a in args[1:]])
        self.note('operator %s of %s' % (op, f['sq']))

    def stdassign(self, c, v, argnode, n, tu, f):
        old = c.get()
        t = bare(self.ty(tu, n[2]))
        if t.startswith('std::variant<'):
            if not isinstance(v, Var):
                at = bare(self.ty(tu, argnode[2]))
                alts = targs(t)
                v = Var(self.altfor(at, alts, v), v)
            self.store(c, Var(v.alt, self.copy(v.cell.get())))
            return
        if t.startswith('nlohmann::basic_json'):
            if not isinstance(v, Js):
                v = self.tojson(v, bare(self.ty(tu, argnode[2])), tu)
            self.store(c, clone(v))
            return
        if t.startswith('std::optional<'):
            if not isinstance(v, Opt):
                v = Opt(False) if v is NULLOPT else Opt(True, self.copy(v))
            self.store(c, v)
            return
        if isinstance(v, Lam) or isinstance(v, Ptr):
            self.store(c, v)
            return
        if isinstance(v, Vec) and isinstance(old, Vec):
            w = self.copy(v)
            old.size, old.cells, old.content = w.size, w.cells, w.content
            if self.journal is not None and old.cells is None:
                self.journal.append(old)
            return
        self.store(c, self.copy(v))

    def altfor(self, at, alts, v):
        if at in alts:
            return at
        if isinstance(v, str) or at.startswith('char') or at.startswith('const char'):
            for a in alts:
                if a.startswith('std::basic_string'):
                    return a
        m = {'float': ['float', 'double'], 'double': ['double', 'float']}
        for a in m.get(at, []):
            if a in alts:
                return a
        if at in SCALARS:
            c = [a for a in alts if a in SCALARS and a != 'bool']
            if len(c) == 1:
                return c[0]
        if 'nullopt_t' in at:
            for a in alts:
                if 'nullopt_t' in a:
                    return a
        self.note('variant alternative for %s' % at)

    def index(self, c, o, i):
        if isinstance(o, Vec):
            return self.at(o, i)
        if isinstance(o, Map):
            if not isinstance(i, str):
                self.note('map key %r' % (i,))
            if i not in o.d:
                o.d[i] = Cell(self.default_value(getattr(o, 'vt', '')) if getattr(o, 'vt', '') else None)
            return o.d[i]
        if isinstance(o, Js):
            if isinstance(i, str):
                if o.k == 'null':
                    o.k, o.v = 'obj', {}
                if o.k != 'obj':
                    raise CppThrow('nlohmann::detail::type_error', self.where())
                if i not in o.v:
                    o.v[i] = Cell(Js('null'))
                return o.v[i]
            if o.k == 'arr':
                return self.jselem(o, i)
            raise CppThrow('nlohmann::detail::type_error', self.where())
        if isinstance(o, Ptr):
            return self.deref(self.padd(o, i))
        if isinstance(o, str):
            return Cell(Sym('char', o, term(i)))
        self.note('index of %s' % type(o).__name__)

    def jselem(self, o, i):
        c = self.at(o.v, i)
        v = c.get()
        if isinstance(v, Js):
            return c
        if isinstance(v, Sym) and v.t[0] == 'jsrow':
            return Cell(Js('arr', Vec(v.t[1], None, v.t[2], 'json[]')))
        return Cell(Js('int' if not isinstance(v, float) else 'float', v))

    def equal(self, a, b):
        if isinstance(a, Obj) and isinstance(b, Obj):
            m = self.P.method(a.cls, 'operator==')
            if m:
                return self.truth(self.call(m[0], m[1], Cell(a), [Cell(b)]))
            if a.cls == 'std::pair':
                return self.equal(a.f['first'].get(), b.f['first'].get()) and self.equal(a.f['second'].get(), b.f['second'].get())
            m = self.P.free_eq(a.cls)
            if m:
                return self.truth(self.call(m[0], m[1], None, [Cell(a), Cell(b)]))
            self.note('operator== of ' + a.cls)
        if isinstance(a, Var) and isinstance(b, Var):
            return a.alt == b.alt and self.equal(a.cell.get(), b.cell.get())
        if isinstance(a, Map) and isinstance(b, Map):
            if set(a.d) != set(b.d):
                return False
            return all(self.equal(a.d[k].get(), b.d[k].get()) for k in sorted(a.d))
        if isinstance(a, Vec) and isinstance(b, Vec):
            if not self.p.cmp('==', a.size, b.size):
                return False
            if a.cells is not None and b.cells is not None and len(a.cells) == len(b.cells):
                return all(self.equal(x.get(), y.get()) for (_, x), (_, y) in zip(a.cells, b.cells))
            return self.p.cmp('==', Sym('seq', a.content), Sym('seq', b.content)) if not self.p.differs(a.content, b.content) else False
        if isinstance(a, Opt) and isinstance(b, Opt):
            return a.has == b.has and (not a.has or self.equal(a.cell.get(), b.cell.get()))
        if isinstance(a, Js) and isinstance(b, str):
            return a.k == 'str' and self.compare('==', a.v, b)
        return self.compare('==', a, b)

    # ---- member functions
    def method(self, f, o, args, n, env, tu):
        sq, last, v = f['sq'], f['last'], o.get()
        ov = self.overrides.get(sq)
        if ov:
            return ov(self, f, n, env, tu)
        if last.startswith('~'):
            return None
        if sq.startswith('strong::'):
            if last == 'value_of' or last.startswith('operator '):
                return o
        if self.watch:
            self.steals(f, args, env, tu)
        if last == 'operator=':
            w = self.eval(args[0], env, tu)
            self.stdassign(o, w, args[0], [0, 0, self.typeidx(tu, f)], tu, f)
            return o
        if isinstance(v, Vec):
            return self.vecmethod(last, v, o, args, n, env, tu)
        if isinstance(v, Map):
            return self.mapmethod(last, v, o, args, n, env, tu, f)
        if isinstance(v, Opt):
            if last in ('operator bool', 'has_value'):
                return v.has
            if last == 'value':
                if not v.has:
                    raise CppThrow('std::bad_optional_access', self.where())
                return v.cell
            if last == 'value_or':
                return v.cell.get() if v.has else self.eval(args[0], env, tu)
        if isinstance(v, Ei):
            return self.either(last, v, args, env, tu)
        if isinstance(v, Js):
            return self.jsmethod(f, last, v, o, args, n, env, tu)
        if isinstance(v, Tup) and v.items and v.items[0] == 'kv':
            return v.items[1] if last == 'key' else v.items[2]
        if isinstance(v, Var):
            if last == 'index':
                return Sym('altindex', v.alt)
        if isinstance(v, Ptr):
            if last == 'get':
                return v
            if last == 'operator bool':
                return self.truth(v)
            if last == 'reset':
                o.set(self.eval(args[0], env, tu) if args else Ptr())
                return None
        if isinstance(v, (str, Sym)) and sq.startswith('std::basic_string'):
            if last == 'size' or last == 'length':
                return len(v) if isinstance(v, str) else Sym('size', v)
            if last == 'empty':
                return len(v) == 0 if isinstance(v, str) else self.p.cmp('==', v, '')
            if last in ('c_str', 'data'):
                return v
            if last in ('compare',):
                return 0 if self.p.cmp('==', v, self.eval(args[0], env, tu)) else 1
            if last == 'append':
                o.set(self.concat(v, self.eval(args[0], env, tu)))
                return o
            return Sym('str.' + last, term(v), *[term(self.eval(a, env, tu)) for a in args])
        if last == 'what':
            return Sym('what')
        if sq.startswith('std::numeric_limits'):
            return self.free(f, args, n, env, tu)
        if isinstance(v, Sym) and v.t[0] == 'default' and last == 'str':
            return Sym('text')
        self.note('method %s on %s' % (sq, type(v).__name__))

    def typeidx(self, tu, f):
        return f.get('rec', -1)

    def vecmethod(self, last, v, o, args, n, env, tu):
        A = lambda k: self.eval(args[k], env, tu)
        if last == 'size':
            return v.size
        if last == 'empty':
            return self.p.cmp('==', v.size, 0)
        if last in ('begin', 'cbegin', 'data'):
            return Ptr(None, v, 0)
        if last in ('end', 'cend'):
            return Ptr(None, v, v.size)
        if last == 'front':
            return self.at(v, 0)
        if last == 'back':
            return self.at(v, add(v.size, -1))
        if last == 'at':
            i = A(0)
            if not (self.p.cmp('>=', i, 0) and self.p.cmp('<', i, v.size)):
                raise CppThrow('std::out_of_range', self.where())
            return self.at(v, i)
        if last in ('reserve', 'shrink_to_fit'):
            return None
        if last == 'clear':
            v.size, v.cells, v.content = 0, [], None
            return None
        if last == 'resize':
            m = A(0)
            fillv = A(1) if len(args) > 1 else self.elemdef(v.ty)
            if term(v.size) == term(m):
                return None
            if v.size == 0:
                self.setfill(v, m, fillv)
            else:
                if v.cells is not None:
                    self.note('resize of an explicit sequence')
                v.content = Sym('resized', v.content, term(v.size), term(m), term(fillv))
                v.size = m
            self.touch(v)
            return None
        if last == 'assign':
            a = A(0)
            if isinstance(a, Ptr):
                w = self.fromrange(a, A(1), v.ty)
                v.size, v.cells, v.content = w.size, w.cells, w.content
            elif isinstance(a, Vec):
                w = self.copy(a)
                v.size, v.cells, v.content = w.size, w.cells, w.content
            else:
                self.setfill(v, a, A(1))
            self.touch(v)
            return None
        if last in ('push_back', 'emplace_back', 'insert', 'emplace'):
            if last in ('insert',) and len(args) != 1:
                self.note('vector insert')
            x = A(0)
            self.push(v, x)
            return None
        if last == 'swap':
            w = self.lval(args[0], env, tu).get()
            v.size, w.size, v.cells, w.cells, v.content, w.content = w.size, v.size, w.cells, v.cells, w.content, v.content
            return None
        if last == 'count':
            x = A(0)
            return Sym('count', term(v), term(x))
        if last in ('capacity',):
            return v.size
        self.note('vector method ' + last)

    def touch(self, v):
        if self.journal is not None and v.cells is None:
            self.journal.append(v)

    def push(self, v, x):
        if self.loops:
            i = self.loops[-1]
            if v.size == 0:
                v.size, v.cells, v.content = self.loopcount(), None, Sym('gen', i, term(self.rowterm(x)))
                return
            self.note('push_back in a loop over a non-empty sequence')
        if v.cells is not None and isinstance(v.size, int):
            v.cells.append((v.size, Cell(x)))
            v.size += 1
            return
        v.content = Sym('pushed', v.content, term(x))
        v.size = add(v.size, 1)
        self.touch(v)

    def rowterm(self, x):
        if isinstance(x, Js) and x.k == 'arr':
            return Sym('jsrow', term(x.v.size), x.v.content)
        return x

    def loopcount(self):
        i = self.loops[-1]
        lo = self.p.iv.get(i, (0, INF))[0]
        return i.t[1] if lo <= 0 else add(i.t[1], lo, -1)

    def elemdef(self, ty):
        if ty.startswith('std::vector<'):
            return self.default_value(targs(ty)[0])
        return 0

    def setfill(self, v, m, x):
        v.size = m
        if isinstance(m, int) and m <= self.EXPLICIT:
            v.cells, v.content = [(k, Cell(self.copy(x))) for k in range(m)], None
        else:
            v.cells, v.content = None, Sym('fill', term(x))

    def fromrange(self, b, e, ty):
        if isinstance(b, Ptr) and b.vec is not None and isinstance(e, Ptr) and e.vec is b.vec:
            src = b.vec
            if src.cells is not None:
                if b.pos == 0 and term(e.pos) == term(src.size):
                    return Vec(src.size, [(i, Cell(self.copy(c.get()))) for i, c in src.cells], None, ty)
                self.note('sub-range copy of an explicit sequence')
            ln = add(e.pos, b.pos, -1)
            if b.pos == 0 and term(ln) == term(src.size):
                return Vec(ln, None, src.content, ty)
            return Vec(ln, None, Sym('slice', src.content, term(b.pos), term(ln)), ty)
        self.note('construction from a range')

    def mapmethod(self, last, v, o, args, n, env, tu, f):
        A = lambda k: self.eval(args[k], env, tu)
        if last in ('at', 'find', 'count', 'contains', 'erase'):
            k = A(0)
            if not isinstance(k, str):
                self.note('map key')
            if last == 'at':
                if k not in v.d:
                    raise CppThrow('std::out_of_range', self.where() + ' key ' + k)
                return v.d[k]
            if last == 'count':
                return int(k in v.d)
            if last == 'contains':
                return k in v.d
            if last == 'erase':
                return int(v.d.pop(k, None) is not None)
            return Ptr(Cell(mkpair(k, None)) if k not in v.d else Cell(Obj('std::pair', {'first': Cell(k), 'second': v.d[k]}))) if k in v.d else Ptr()
        if last in ('end', 'cend'):
            return Ptr()
        if last == 'size':
            return len(v.d)
        if last == 'empty':
            return not v.d
        if last == 'clear':
            v.d.clear()
            return None
        if last == 'merge':
            w = self.lval(args[0], env, tu).get()
            for k in list(w.d):
                if k not in v.d:
                    v.d[k] = w.d.pop(k)
            return None
        if last in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
            if len(args) == 2 and last == 'insert':
                a = A(0)
                if isinstance(a, Ptr):
                    self.note('map range insert')
            if len(args) == 1:
                p = A(0)
                if isinstance(p, Obj):
                    k, x = p.f['first'].get(), p.f['second'].get()
                else:
                    self.note('map insert')
            else:
                k, x = A(0), A(1)
                vt = getattr(v, 'vt', '')
                if vt.startswith('std::variant<') and not isinstance(x, Var):
                    x = Var(self.altfor(bare(self.ty(tu, args[1][2])), targs(vt), x), x)
            if not isinstance(k, str):
                self.note('map key')
            if k not in v.d or last == 'insert_or_assign':
                v.d[k] = Cell(self.copy(x))
            return mkpair(Ptr(v.d[k]), True)
        self.note('map method ' + last)

    def either(self, last, v, args, env, tu):
        if last in ('rightMap', 'rightFlatMap', 'leftMap', 'leftFlatMap'):
            side = last.startswith('left')
            if v.left != side:
                return v
            fn = self.eval(args[0], env, tu)
            r = self.apply(fn, [v.v])
            r = r.get() if hasattr(r, 'get') and hasattr(r, 'set') else r
            if last.endswith('FlatMap'):
                if not isinstance(r, Ei):
                    self.note('flatMap result')
                return r
            return Ei(side, r)
        if last == 'isLeft':
            return v.left
        if last in ('operator bool',):
            return not v.left
        if last in ('left', 'right'):
            side = last == 'left'
            if v.left != side:
                return Opt(False)
            return Opt(True, v.v.get())
        if last in ('join',) :
            fn = self.eval(args[0 if v.left else 1], env, tu)
            r = self.apply(fn, [v.v])
            return r
        self.note('Either method ' + last)

    # ---- json
    def tojson(self, v, t, tu):
        if isinstance(v, Js):
            return v
        if isinstance(v, bool) or t == 'bool':
            return Js('bool', v)
        if t in FLOATS:
            return Js('float', v)
        if t in SCALARS:
            return Js('uint' if SCALARS[t][0] == 0 else 'int', v)
        if isinstance(v, str) or t.startswith('std::basic_string') or t.startswith('char') or t.startswith('const char'):
            return Js('str', v)
        if t in ('std::nullptr_t', 'nullptr_t') or isinstance(v, Ptr) and v.cell is None and v.vec is None:
            return Js('null')
        if isinstance(v, Map):
            d = {}
            for k, c in sorted(v.d.items()):
                d[k] = Cell(self.tojson(c.get(), targs(t)[1] if '<' in t else '', tu))
            return Js('obj', d)
        m = self.P.json_fn('to_json', t, tu)
        if m:
            c = Cell(Js('null'))
            self.call(m[0], m[1], None, [c, Cell(v)])
            return c.get()
        if isinstance(v, Vec):
            w = clone(v)
            w.et = targs(t)[0] if '<' in t else ''
            return Js('arr', w)
        self.note('to_json of ' + t)

    def fromjson(self, j, t, tu, cell=None):
        """json -> value of type t"""
        E = lambda: CppThrow('nlohmann::detail::type_error', self.where())
        if t.startswith('nlohmann::basic_json'):
            return clone(j)
        if t == 'bool':
            if j.k != 'bool':
                raise E()
            return j.v
        if t in FLOATS:
            if j.k in ('int', 'uint', 'float'):
                if j.k != 'float' and isinstance(j.v, int):
                    return float(j.v)
                return j.v
            if j.k == 'bool' and t == 'float':
                return float(j.v) if isinstance(j.v, bool) else Sym('f', term(j.v))
            raise E()
        if t in SCALARS:
            if j.k in ('int', 'uint'):
                return self.toint(j.v, t)
            if j.k == 'float':
                return self.toint(j.v, t, True)
            if j.k == 'bool' and t not in ('long', 'unsigned long'):
                return int(j.v) if isinstance(j.v, bool) else j.v
            raise E()
        if t.startswith('std::basic_string'):
            if j.k != 'str':
                raise E()
            return j.v
        m = self.P.json_fn('from_json', t, tu)
        if m:
            c = cell if cell is not None else Cell(self.default_value(t))
            self.call(m[0], m[1], None, [Cell(j), c])
            return c.get()
        if t.startswith('std::vector<'):
            if j.k != 'arr':
                raise E()
            w = clone(j.v)
            w.ty = t
            et = targs(t)[0]
            if w.cells is not None:
                w.cells = [(i, Cell(self.fromjson(c.get(), et, tu) if isinstance(c.get(), Js) else c.get())) for i, c in w.cells]
            if cell is not None and isinstance(cell.get(), Vec) and not self.p.cmp('==', cell.get().size, 0):
                old = cell.get()
                return Vec(add(old.size, w.size), None, Sym('appended', term(old), term(w)), t)
            return w
        if t.startswith('std::unordered_map<') or t.startswith('std::map<'):
            if j.k != 'obj':
                raise E()
            m = Map({})
            m.vt = targs(t)[1]
            for k, c in sorted(j.v.items()):
                m.d[k] = Cell(self.fromjson(c.get(), m.vt, tu))
            return m
        if t.startswith('std::variant<'):
            pass
        self.note('from_json to ' + t)

    def jsmethod(self, f, last, v, o, args, n, env, tu):
        A = lambda k: self.eval(args[k], env, tu)
        if last == 'at' or last == 'operator[]':
            k = A(0)
            if isinstance(k, str):
                if v.k != 'obj':
                    raise CppThrow('nlohmann::detail::type_error', self.where())
                if k not in v.v:
                    raise CppThrow('nlohmann::detail::out_of_range', self.where() + ' key ' + k)
                return v.v[k]
            if v.k != 'arr':
                raise CppThrow('nlohmann::detail::type_error', self.where())
            if last == 'at' and not (self.p.cmp('<', k, v.v.size)):
                raise CppThrow('nlohmann::detail::out_of_range', self.where())
            return self.jselem(v, k)
        if last in ('get', 'get_to', 'get_ref', 'value'):
            if last == 'get_to':
                c = self.lval(args[0], env, tu)
                t = bare(self.ty(tu, args[0][2]))
                c.set(self.fromjson(v, t, tu, c))
                return c
            if last == 'value':
                k = A(0)
                if v.k != 'obj':
                    raise CppThrow('nlohmann::detail::type_error', self.where())
                if k in v.v:
                    return self.fromjson(v.v[k].get(), bare(self.ty(tu, n[2])), tu)
                return A(1)
            return self.fromjson(v, bare(self.ty(tu, n[2])), tu)
        if last == 'dump':
            t = Sym('jsontext', len(self.docs))
            self.docs[t] = self.roundtrip(v)
            return t
        if last == 'size':
            if v.k == 'obj': return len(v.v)
            if v.k == 'arr': return v.v.size
            return 0 if v.k == 'null' else 1
        if last == 'empty':
            return (not v.v) if v.k == 'obj' else self.p.cmp('==', v.v.size, 0) if v.k == 'arr' else v.k == 'null'
        if last.startswith('is_'):
            ks = {'is_null': ('null',), 'is_boolean': ('bool',), 'is_object': ('obj',), 'is_array': ('arr',), 'is_string': ('str',),
                  'is_number': ('int', 'uint', 'float'), 'is_number_integer': ('int', 'uint'), 'is_number_unsigned': ('uint',), 'is_number_float': ('float',),
                  'is_primitive': ('null', 'str', 'bool', 'int', 'uint', 'float'), 'is_structured': ('arr', 'obj')}
            if last in ks:
                return v.k in ks[last]
        if last in ('contains', 'count'):
            k = A(0)
            r = v.k == 'obj' and k in v.v
            return r if last == 'contains' else int(r)
        if last == 'items':
            if v.k == 'obj':
                return Tup(['items', [Cell(Tup(['kv', k, c])) for k, c in sorted(v.v.items())]])
            if v.k == 'null':
                return Tup(['items', []])
            self.note('items() of a json that is not an object')
        if last in ('begin', 'cbegin', 'end', 'cend'):
            if v.k == 'arr':
                return Ptr(None, v.v, 0 if last.endswith('begin') else v.v.size)
        if last == 'push_back':
            x = A(0)
            if v.k == 'null':
                v.k, v.v = 'arr', Vec(0, [], None, 'json[]')
            if v.k != 'arr':
                raise CppThrow('nlohmann::detail::type_error', self.where())
            self.push(v.v, x if isinstance(x, Js) else self.tojson(x, bare(self.ty(tu, args[0][2])), tu))
            return None
        if last == 'erase':
            k = A(0)
            if v.k == 'obj' and isinstance(k, str):
                return int(v.v.pop(k, None) is not None)
        self.note('json method ' + last)

    def roundtrip(self, v):
        """value obtained by parsing the dumped text"""
        if v.k == 'obj':
            return Js('obj', {k: Cell(self.roundtrip(c.get())) for k, c in v.v.items()})
        if v.k in ('int', 'uint'):
            return Js('uint' if self.p.cmp('>=', v.v, 0) else 'int', v.v)
        return clone(v)

    # ---- free functions
    def free(self, f, args, n, env, tu):
        sq, last = f['sq'], f['last']
        ov = self.overrides.get(sq)
        if ov:
            return ov(self, f, n, env, tu)
        A = lambda k: self.eval(args[k], env, tu)
        L = lambda k: self.lval(args[k], env, tu)
        if last in ('move', 'forward', 'value_of', 'addressof', 'as_const', 'move_if_noexcept', 'ref', 'cref', '__addressof', 'forward_like') and len(args) == 1:
            if last in ('addressof', '__addressof'):
                return Ptr(L(0))
            return L(0)
        if last == '__builtin_expect':
            return A(0)
        if sq.startswith('std::numeric_limits'):
            t = targs(f['q'][f['q'].index('numeric_limits'):])[0] if '<' in f['q'] else self.ty(tu, n[2])
            t = bare(self.ty(tu, n[2]))
            if t in SCALARS:
                return SCALARS[t][1 if last == 'max' else 0] if last in ('max', 'min', 'lowest') else self.note(sq)
            return {'max': 3.4028235e38, 'min': 1.17549435e-38, 'lowest': -3.4028235e38, 'infinity': INF, 'quiet_NaN': float('nan'), 'epsilon': 1.1920929e-07}.get(last, Sym('limit', last, t))
        if sq == 'neither::Either::leftOf':
            return Ei(True, self.copy(A(0)))
        if sq == 'neither::Either::rightOf':
            return Ei(False, self.copy(A(0)))
        if last == 'parse' and 'basic_json' in sq:
            t = A(0)
            if isinstance(t, str):
                try:
                    return pyjson(json.loads(t))
                except ValueError:
                    raise CppThrow('nlohmann::detail::parse_error', self.where())
            d = self.docs.get(t)
            if d is None:
                self.note('parse of an unknown text')
            if d == 'bad-range':
                raise CppThrow('nlohmann::detail::out_of_range', self.where() + ' (number overflow)')
            if d == 'bad':
                ax = None
                if len(args) > 2:
                    ax = A(2)
                if ax is False:
                    return Js('discarded')
                raise CppThrow('nlohmann::detail::parse_error', self.where())
            return clone(d)
        if last == 'get' or last == 'get_if':
            return self.stdget(f, last, args, n, env, tu)
        if last == 'holds_alternative':
            v = A(0)
            if isinstance(v, Var):
                return v.alt == bare(f['ta'][0]) if f['ta'] else self.note('holds_alternative')
        if last == 'visit':
            fn = self.eval(args[0], env, tu)
            vs = [L(k).get() for k in range(1, len(args))]
            if not all(isinstance(v, Var) for v in vs):
                self.note('visit')
            return self.apply(fn, [v.cell for v in vs])
        if last in ('forward_as_tuple', 'tie', 'make_tuple'):
            items = []
            for k, a in enumerate(args):
                t = self.ty(tu, f['pt'][k])
                items.append((t, L(k)))
            return Tup(items)
        if last in ('make_pair',):
            return mkpair(self.copy(A(0)), self.copy(A(1)))
        if last in ('all_of', 'any_of', 'none_of'):
            r = self.quantify(A(0), A(1), A(2), last)
            return r
        if last in ('minmax_element', 'max_element', 'min_element', 'minmax'):
            return self.extremum(last, A(0), A(1), A(2) if len(args) > 2 else None)
        if last in ('max', 'min') and len(args) == 2:
            a, b = A(0), A(1)
            r = self.p.known('>=', a, b) if lin(a) is not None and lin(b) is not None else None
            if r is None and lin(a) is not None and lin(b) is not None and self.p.known('<=', a, b):
                r = False
            if r is not None:
                return (a if r else b) if last == 'max' else (b if r else a)
            if self.native and lin(a) is not None and lin(b) is not None:
                return (a if self.p.cmp('>=', a, b) else b) if last == 'max' else (a if self.p.cmp('<=', a, b) else b)
            s = Sym(last, *sorted((term(a), term(b)), key=skey))
            return s
        if last == 'max' and len(args) == 1 or last == 'min' and len(args) == 1:
            v = A(0)
            if isinstance(v, Vec) and v.cells is not None:
                return Sym(last, *[term(c) for _, c in v.cells])
        if last == 'clamp' and self.native:
            v, lo, hi = A(0), A(1), A(2)
            return lo if self.p.cmp('<', v, lo) else hi if self.p.cmp('<', hi, v) else v
        if last == 'clamp':
            return Sym('clamp', term(A(0)), term(A(1)), term(A(2)))
        if last == 'distance':
            a, b = A(0), A(1)
            return self.arith('-', b, a, 'long')
        if last in ('next', 'prev'):
            a = A(0)
            k = A(1) if len(args) > 1 else 1
            if isinstance(a, Ptr) and a.vec is None and a.cell is not None:
                self.note('next')
            return self.padd(a, k if last == 'next' else unlin(ladd(lin(0), lin(k), -1)))
        if last == 'advance':
            c = L(0)
            c.set(self.padd(c.get(), A(1)))
            return None
        if last in ('begin', 'cbegin', 'end', 'cend', 'size', 'data', 'empty'):
            v = L(0).get()
            if isinstance(v, Vec):
                return self.vecmethod(last, v, None, [], n, env, tu)
        if last == 'iota':
            b, e = A(0), A(1)
            if b.vec is e.vec and b.pos == 0 and term(e.pos) == term(b.vec.size):
                self.overwrite(b.vec, Sym('iota', term(A(2))), [add(i, A(2)) for i, _ in b.vec.cells] if b.vec.cells is not None else None)
                return None
            if b.vec is not None and b.vec is e.vec and isinstance(b.pos, int) and isinstance(e.pos, int) and isinstance(b.vec.size, int) and 0 <= b.pos <= e.pos <= b.vec.size <= self.TRIPS:
                x = A(2)
                for k in range(b.pos, e.pos):
                    self.at(b.vec, k).set(add(x, k - b.pos))
                return None
        if last == 'shuffle':
            b, e = A(0), A(1)
            g = L(2)
            v = b.vec
            if v is not None and v is e.vec and b.pos == 0 and term(e.pos) == term(v.size):
                st = term(g)
                self.advance(g, 'shuffle', term(v.size))
                if hasattr(self.p, 'shuffles'):
                    self.p.shuffles.append((len(getattr(self.p, 'calls', [])), b.pos, e.pos, v.size, v.ty, self.where()))
                if getattr(self.p, 'perm', None) and isinstance(v.size, int):
                    xs = [self.at(v, i).get() for i in range(v.size)]
                    v.cells, v.content = [(i, Cell(xs[j])) for i, j in enumerate(self.p.perm(v.size))], None
                elif v.cells is not None:
                    src = term(v)
                    for i, c in v.cells:
                        c.set(Sym('shuffled', src, st, term(i)))
                else:
                    self.overwrite(v, Sym('shuffle', v.content, st), None)
                return None
            if v is not None and v is e.vec and getattr(self.p, 'perm', None) and all(isinstance(x, int) for x in (b.pos, e.pos, v.size)) and 0 <= b.pos <= e.pos <= v.size:
                n = e.pos - b.pos
                self.advance(g, 'shuffle', n)
                if hasattr(self.p, 'shuffles'):
                    self.p.shuffles.append((len(getattr(self.p, 'calls', [])), b.pos, e.pos, v.size, v.ty, self.where()))
                cs = [self.at(v, b.pos + i) for i in range(n)]
                xs = [c.get() for c in cs]
                for c, j in zip(cs, self.p.perm(n) if n else []):
                    c.set(xs[j])
                return None
        if last == 'reverse':
            b, e = A(0), A(1)
            v = b.vec if isinstance(b, Ptr) else None
            if v is not None and v is e.vec and all(isinstance(x, int) for x in (b.pos, e.pos, v.size)) and 0 <= b.pos <= e.pos <= v.size <= self.TRIPS:
                cs = [self.at(v, k) for k in range(b.pos, e.pos)]
                for c, x in zip(cs, [c.get() for c in cs][::-1]):
                    c.set(x)
                return None
        if last in ('fill', 'fill_n'):
            b, e, x = A(0), A(1), A(2)
            v = b.vec
            if last == 'fill_n':
                e = self.padd(b, e)
            if v is not None and b.pos == 0 and term(e.pos) == term(v.size):
                if v.cells is not None:
                    for _, c in v.cells:
                        c.set(x)
                else:
                    self.overwrite(v, Sym('fill', term(x)), None)
                return None
            if v is not None and v.cells is not None and isinstance(b.pos, int) and isinstance(e.pos, int):
                for k in range(b.pos, e.pos):
                    self.at(v, k).set(x)
                return None
            if v is not None and v.cells is None:
                self.overwrite(v, Sym('sset', v.content, term(b.pos), term(add(e.pos, b.pos, -1)), Sym('fill', term(x)), 0), None)
                return None
        if last in ('copy', 'copy_n', 'memcpy', 'memmove', 'transform') and last != 'transform':
            if last == 'copy':
                b, e, d = A(0), A(1), A(2)
                return self.blockcopy(b, e, d)
            if last == 'copy_n':
                b, k, d = A(0), A(1), A(2)
                return self.blockcopy(b, self.padd(b, k), d)
            d, b = A(0), A(1)
            self.note('memcpy')
        if last == 'memset':
            d = A(0)
            if isinstance(d, Ptr) and d.vec is not None and d.pos == 0:
                v = d.vec
                x = A(1)
                if v.cells is None and x == 0 and args[2][0] == 'int':
                    # sizeof of the whole array
                    self.overwrite(v, Sym('fill', 0), None)
                    return None
            if isinstance(d, Ptr):
                self.note('memset')
        if last == 'equal':
            b, e, d = A(0), A(1), A(2)
            return self.rangeequal(b, e, d)
        if last in ('accumulate', 'reduce'):
            b, e, z = A(0), A(1), A(2)
            if isinstance(b, Ptr) and b.vec is not None and self.native and isinstance(b.pos, int) and isinstance(e.pos, int):
                t = bare(f['ta'][1]) if len(f['ta']) > 1 else 'int'
                fn = A(3) if len(args) > 3 else None
                for k in range(b.pos, e.pos):
                    x = self.at(b.vec, k)
                    if fn is None:
                        z = self.toint(self.arith('+', z, x.get(), t, n), t)
                    else:
                        r = self.apply(fn, [Cell(z), x])
                        z = self.toint(r.get() if hasattr(r, 'get') and hasattr(r, 'set') else r, t)
                return z
            if isinstance(b, Ptr) and b.vec is not None:
                return Sym('accumulate', term(b), term(e), term(z), *( [term(A(3))] if len(args) > 3 else []))
        if last in ('find_if', 'find_if_not', 'find', 'for_each', 'count_if'):
            return self.algo(last, args, A, L)
        if last == 'swap' and len(args) == 2:
            a, b = L(0), L(1)
            x, y = a.get(), b.get()
            a.set(y)
            b.set(x)
            return None
        if last == 'exchange':
            a = L(0)
            x = a.get()
            a.set(A(1))
            return x
        if last == 'to_string' or last == 'operator""s':
            v = A(0)
            if last == 'to_string':
                return str(v) if isinstance(v, int) and not isinstance(v, bool) else Sym('to_string', term(v))
            return v
        if last in ('isnan', 'isinf', 'isfinite', 'isnormal', 'signbit'):
            v = A(0)
            if isinstance(v, (int, float)):
                return {'isnan': v != v, 'isinf': v in (INF, -INF), 'isfinite': v == v and v not in (INF, -INF)}.get(last, False)
            lo, hi = self.p.ival(v)
            if lo > -INF and hi < INF:
                return last == 'isfinite'
            return self.p.decide((last, term(v)))
        if last in ('abs', 'fabs', 'labs', 'fabsf'):
            v = A(0)
            if isinstance(v, (int, float)):
                return abs(v)
            return Sym('abs', term(v))
        if last in ('round', 'floor', 'ceil', 'trunc', 'sqrt', 'lround', 'pow', 'exp', 'log', 'nearbyint', 'rint', 'fmin', 'fmax', 'roundf', 'floorf', 'sqrtf'):
            vs = [A(k) for k in range(len(args))]
            if last == 'floor' and isinstance(vs[0], (int, float)) and vs[0] == vs[0] and abs(vs[0]) != INF: return float(math.floor(vs[0]))
            if vs and all(isinstance(v, (int, float)) and v == v and abs(v) != INF for v in vs):
                x = vs[0]
                if last in ('round', 'roundf'): return math.copysign(float(math.floor(abs(x) + 0.5)), x)
                if last == 'lround': return int(math.copysign(math.floor(abs(x) + 0.5), x))
                if last in ('ceil', 'trunc'): return float(getattr(math, last)(x))
                if last == 'floorf': return float(math.floor(x))
                if last in ('rint', 'nearbyint'): return float(round(x))
                if last in ('fmin', 'fmax'): return float({'fmin': min, 'fmax': max}[last](vs))
            return Sym('fn.' + last, *[term(v) for v in vs])
        if last == 'hardware_concurrency':
            s = atom('hardware_concurrency')
            self.p.iv.setdefault(s, SCALARS['unsigned int'])
            return s
        if last in ('exit', 'abort', 'terminate', '_Exit', 'quick_exit', '__assert_fail', '__builtin_unreachable', '__builtin_trap'):
            raise Abort(last)
        if last in ('printf', 'puts', 'fprintf', 'fputs', 'putchar', 'fflush'):
            return 0
        if last in ('time', 'clock', 'rand', 'random', 'getenv', 'getpid', 'now', 'get_id'):
            self.p.events.append(('entropy', last, self.where()))
            return self.uniq(last)
        if last == '_mm_malloc' or last == '_mm_free':
            return Ptr()
        if last == 'assume_aligned' or last == '__builtin_assume_aligned':
            return A(0)
        if last == 'thread::get_id':
            return self.uniq(last)
        self.note('function ' + sq)

    def advance(self, g, how, *extra):
        """an opaque consumption of generator g"""
        o = g.get()
        if isinstance(o, Obj) and 'index' in o.f:
            st = term(o)
            for k, c in o.f.items():
                v = c.get()
                x = Sym('adv', how, k, st, *extra)
                if isinstance(v, Vec):
                    v.content = x
                else:
                    c.set(x)
            return
        self.note('generator')

    def overwrite(self, v, content, cells):
        if v.cells is not None:
            if cells is None:
                self.note('summary write into an explicit sequence')
            for (i, c), x in zip(v.cells, cells):
                c.set(x)
            return
        v.content = content
        self.touch(v)

    def blockcopy(self, b, e, d):
        if not all(isinstance(x, Ptr) and x.vec is not None for x in (b, e, d)):
            self.note('copy')
        s, v = b.vec, d.vec
        ln = add(e.pos, b.pos, -1)
        if s.cells is not None or v.cells is not None:
            if s.cells is not None and v.cells is not None and b.pos == 0 and d.pos == 0 and term(e.pos) == term(s.size) == term(v.size) and len(s.cells) == len(v.cells):
                for (_, x), (_, y) in zip(s.cells, v.cells):
                    y.set(self.copy(x.get()))
                return self.padd(d, ln)
            if s.cells is not None and isinstance(ln, int) and isinstance(b.pos, int):
                for k in range(ln):
                    self.at(v, add(d.pos, k)).set(self.copy(self.at(s, b.pos + k).get()))
                return self.padd(d, ln)
            self.note('copy of an explicit sequence')
        if d.pos == 0 and term(ln) == term(v.size):
            v.content = s.content if b.pos == 0 and term(ln) == term(s.size) else Sym('slice', s.content, term(b.pos), term(ln))
        else:
            C, off = s.content, b.pos
            while isinstance(C, Sym) and C.t[0] == 'slice':
                off = add(C.t[2], off)
                C = C.t[1]
            v.content = Sym('sset', v.content, term(d.pos), term(ln), C, term(off))
        self.touch(v)
        return self.padd(d, ln)

    def rangeequal(self, b, e, d):
        if not all(isinstance(x, Ptr) and x.vec is not None for x in (b, e, d)):
            self.note('equal')
        ln = add(e.pos, b.pos, -1)
        if b.vec.cells is not None or d.vec.cells is not None:
            if all(isinstance(x, int) for x in (ln, b.pos, d.pos)):
                return all(self.equal(self.at(b.vec, b.pos + k).get(), self.at(d.vec, d.pos + k).get()) for k in range(ln))
            self.note('equal on explicit sequences')

        def whole(p):
            return p.vec.content if p.pos == 0 and term(ln) == term(p.vec.size) else Sym('slice', p.vec.content, term(p.pos), term(ln))
        a, c = whole(b), whole(d)
        if a == c:
            return True
        if self.p.differs(a, c):
            return False
        return self.p.decide(('eq', Sym('p', a), Sym('p', c)))

    def evalpred(self, fn, c):
        """predicate on one element; elements with a small finite domain are enumerated instead of branching"""
        v = c.get()
        if isinstance(v, Sym):
            lo, hi = self.p.aival(v)
            if hi - lo <= 3 and lo > -INF and not (v in self.p.floats):
                rs = set()
                for x in range(int(lo), int(hi) + 1):
                    r = self.apply(fn, [Cell(x)])
                    rs.add(self.truth(r.get() if hasattr(r, 'get') else r))
                if len(rs) == 1:
                    return rs.pop()
                return self.p.decide(('pred', v, Sym('fnid', getattr(fn, 'loc', ''), getattr(fn, 'fn', 0))))
        r = self.apply(fn, [c])
        return self.truth(r.get() if hasattr(r, 'get') and hasattr(r, 'set') else r)

    def quantify(self, b, e, fn, how):
        cells = [c for _, c in self.positions(b, e)]
        if how == 'all_of':
            for c in cells:
                if not self.evalpred(fn, c):
                    return False
            return True
        for c in cells:
            if self.evalpred(fn, c):
                return how == 'any_of'
        return how == 'none_of'

    def algo(self, last, args, A, L):
        b, e = A(0), A(1)
        if last == 'find':
            x = A(2)
            for i, c in self.positions(b, e):
                if self.equal(c.get(), x):
                    return Ptr(None, b.vec, i)
            return e
        fn = A(2)
        cnt = 0
        for i, c in self.positions(b, e):
            if last == 'for_each':
                self.apply(fn, [c])
                continue
            r = self.evalpred(fn, c)
            if last == 'find_if' and r or last == 'find_if_not' and not r:
                return Ptr(None, b.vec, i)
            cnt += bool(r)
        if last == 'count_if':
            return cnt
        return fn if last == 'for_each' else e

    def extremum(self, last, b, e, less=None):
        if not isinstance(b, Ptr) or b.vec is None:
            self.note(last)
        v = b.vec
        if v.cells is not None:
            vals = [term(c) for _, c in self.positions(b, e)]
            if not vals:
                return e if last != 'minmax_element' else mkpair(e, e)
            if getattr(self.p, 'argmode', False) and last in ('max_element', 'min_element'):
                ps = self.positions(b, e)
                best = 0
                for k in range(1, len(ps)):
                    x, y = (ps[best][1].get(), ps[k][1].get())
                    if less is not None:
                        pair = (ps[best][1], ps[k][1]) if last[1] == 'a' else (ps[k][1], ps[best][1])
                        r = self.apply(less, list(pair))
                        if self.truth(r.get() if hasattr(r, 'get') and hasattr(r, 'set') else r):
                            best = k
                        continue
                    if self.p.cmp('<', x, y) if last[1] == 'a' else self.p.cmp('<', y, x):
                        best = k
                return Ptr(None, v, ps[best][0])

            if less is not None:
                self.note('%s with a comparator' % last)

            def ex(k):
                if len(set(vals)) == 1:
                    return Ptr(Cell(vals[0]))
                if all(isinstance(x, int) for x in vals):
                    return Ptr(Cell(min(vals) if k == 'min' else max(vals)))
                return Ptr(Cell(Sym(k, *sorted(set(vals), key=skey))))
            if last == 'minmax_element':
                return mkpair(ex('min'), ex('max'))
            return ex('min' if last == 'min_element' else 'max')
        if less is not None:
            self.note('%s with a comparator' % last)
        i = Sym('arg' + last[:3], v.content, term(b.pos), term(e.pos))
        if last == 'minmax_element':
            return mkpair(Ptr(None, v, Sym('argmin', v.content, term(b.pos), term(e.pos))), Ptr(None, v, Sym('argmax', v.content, term(b.pos), term(e.pos))))
        return Ptr(None, v, i)

    def stdget(self, f, last, args, n, env, tu):
        c = self.lval(args[0], env, tu)
        v = c.get()
        ta = f['ta'][0] if f['ta'] else ''
        if last == 'get_if' and isinstance(v, Ptr):
            v = self.deref(v).get()
        if isinstance(v, Var):
            if re.match(r'^\d+$', ta):
                self.note('get by index')
            if v.alt == bare(ta):
                return v.cell if last == 'get' else Ptr(v.cell)
            if last == 'get_if':
                return Ptr()
            raise CppThrow('std::bad_variant_access', self.where())
        if isinstance(v, Tup):
            if re.match(r'^\d+', ta):
                return v.items[int(re.match(r'^\d+', ta).group())][1]
            m = [c for t, c in v.items if t.replace(' ', '') == ta.replace(' ', '')]
            if len(m) == 1:
                return m[0]
            self.note('tuple get of %s' % ta)
        if isinstance(v, Obj) and 'first' in v.f:
            return v.f['first' if ta.startswith('0') else 'second']
        self.note('get on %s' % type(v).__name__)

    # ---- construction
    def steals(self, f, args, env, tu):
        """record watched objects (arguments of the caller) whose contents an operation may take: bound to an rvalue reference"""
        for k, a in enumerate(args):
            pt = self.ty(tu, f['pt'][k]) if k < len(f['pt']) else ''
            if not pt.endswith('&&') or pt.startswith('const '):
                continue
            b = bare(pt)
            if b.startswith('strong::type<'):
                b = targs(b)[0]
            if b in SCALARS or b in FLOATS or b == 'bool':
                continue
            c = self.lval(a, env, tu)
            for w, name, _ in self.watch:
                if w is c:
                    self.stolen.append((name, self.where()))

    def construct(self, n, env, tu):
        f = tu.fns[n[3]]
        t = bare(self.ty(tu, n[2]))
        args = n[4]
        if self.watch:
            self.steals(f, args, env, tu)
        if f['repo'] or t in self.P.records and self.P.records[t].get('repo'):
            if f['k'] in ('copyctor', 'movector') and t not in self.P.user_copy:
                return self.copy(self.eval(args[0], env, tu))
            c = Cell(self.default_obj(t, init=False) if not (f.get('defaulted') or f.get('implicit')) else self.default_obj(t))
            # member initialisers of members absent from the constructor's list
            if f['k'] in ('copyctor', 'movector') and (f.get('defaulted') or f.get('implicit')):
                return self.copy(self.eval(args[0], env, tu))
            if f.get('implicit') or f.get('defaulted'):
                return self.construct_default(t) if (t in self.P.default_ctor and not args) else c.get()
            self.call(tu, n[3], c, self.bind(tu, n[3], args, env))
            return c.get()
        A = lambda k: self.eval(args[k], env, tu)
        if f['k'] in ('copyctor', 'movector') and len(args) >= 1:
            v = A(0)
            return self.copy(v)
        if t.startswith('strong::type<'):
            if not args:
                return self.default_value(targs(t)[0])
            v = A(0)
            ut = targs(t)[0]
            at = bare(self.ty(tu, args[0][2]))
            if ut in SCALARS and not isinstance(v, (str, Vec)):
                return self.toint(v, ut, at in FLOATS) if ut != 'bool' else (v if isinstance(v, (bool, Sym)) else self.truth(v))
            if ut in FLOATS and isinstance(v, int):
                return float(v)
            return self.copy(v)
        if t.startswith('std::function<'):
            return A(0) if args else Ptr()
        if t.startswith('std::unique_ptr<') or t.startswith('std::shared_ptr<'):
            return A(0) if args else Ptr()
        if t.startswith('std::basic_string<'):
            if not args:
                return ''
            v = A(0)
            return v
        if t.startswith('std::pair<'):
            ta = targs(t)
            if len(args) == 2:
                out = []
                for k in (0, 1):
                    v = A(k)
                    at = bare(self.ty(tu, args[k][2]))
                    if ta[k].startswith('std::variant<') and not isinstance(v, Var):
                        v = Var(self.altfor(at, targs(ta[k]), v), v)
                    out.append(self.copy(v))
                return mkpair(*out)
            if len(args) == 1:
                return self.copy(A(0))
            return self.default_value(t)
        if t.startswith('std::variant<'):
            if not args:
                return self.default_value(t)
            v = A(0)
            if isinstance(v, Var):
                return self.copy(v)
            return Var(self.altfor(bare(self.ty(tu, args[0][2])), targs(t), v), self.copy(v))
        if t.startswith('std::optional<'):
            if not args:
                return Opt(False)
            v = A(0)
            if v is NULLOPT:
                return Opt(False)
            if isinstance(v, Opt):
                return self.copy(v)
            return Opt(True, self.copy(v))
        if t.startswith('std::unordered_map<') or t.startswith('std::map<'):
            m = Map({})
            m.vt = targs(t)[1]
            if args:
                v = A(0)
                if isinstance(v, Map):
                    m2 = self.copy(v)
                    m2.vt = m.vt
                    return m2
                if isinstance(v, Vec) and v.cells is not None:
                    for _, c in v.cells:
                        p = c.get()
                        m.d.setdefault(p.f['first'].get(), Cell(p.f['second'].get()))
                elif isinstance(v, Ptr):
                    self.note('map from range')
            return m
        if t.startswith('std::vector<') or t.startswith('std::unordered_set<') or t.startswith('std::set<'):
            return self.mkvec(t, args, A, tu)
        if t.startswith('nlohmann::basic_json'):
            return self.mkjson(args, A, env, tu)
        if 'json_ref' in t:
            v = A(0)
            return v if isinstance(v, Js) else self.tojson(v, bare(self.ty(tu, args[0][2])), tu)
        if 'Either' in t:
            return self.copy(A(0)) if args else self.note('Either()')
        if 'normal_iterator' in t or 'allocator' in t or 'iterator' in t:
            return A(0) if args else Ptr()
        if t.startswith('std::initializer_list'):
            return A(0)
        if t.startswith('std::tuple<'):
            return Tup([(targs(t)[k], Cell(self.copy(A(k)))) for k in range(len(args))])
        if t in ('std::nullopt_t',):
            return NULLOPT
        if t.startswith('std::random_device') or 'hash' in t or 'equal_to' in t or 'stream' in t or t.startswith('std::less'):
            return Sym('default', t)
        if t.startswith('std::') and ('error' in t or 'exception' in t or 'bad_' in t):
            return Obj('exception', {})
        self.note('construction of ' + t)

    def mkvec(self, t, args, A, tu):
        args = [a for a in args if 'llocator' not in self.ty(tu, a[2]).split('<')[0]]
        if not args:
            return Vec(0, [], None, t)
        a = A(0)
        if isinstance(a, Vec):
            w = self.copy(a)
            w.ty = t
            return w
        if isinstance(a, Ptr):
            w = self.fromrange(a, A(1), t)
            if 'set<' in t.split('vector')[0] and w.cells is not None:
                self.fresh += 1
                n = Sym('size', term(w))
                self.p.iv.setdefault(n, (1 if w.cells else 0, INF))
                w.isset = True
            return w
        v = Vec(0, [], None, t)
        x = A(1) if len(args) > 1 else self.elemdef(t)
        self.setfill(v, a, x)
        return v

    def mkjson(self, args, A, env, tu):
        if not args:
            return Js('null')
        if len(args) >= 1:
            v = A(0)
            t = bare(self.ty(tu, args[0][2]))
            if len(args) == 2 and lin(v) is not None and not isinstance(v, bool) and t in SCALARS:
                x = A(1)
                if isinstance(x, Js):
                    x = x.v
                return Js('arr', Vec(v, None, Sym('fill', term(x)), 'json[]'))
            if isinstance(v, Vec) and ('initializer_list' in t or v.ty.startswith('const nlohmann') or 'json_ref' in v.ty):
                js = [c.get() if isinstance(c.get(), Js) else self.tojson(c.get(), '', tu) for _, c in v.cells]
                if js and all(j.k == 'arr' and j.v.cells is not None and len(j.v.cells) == 2 and isinstance(j.v.cells[0][1].get(), Js) and j.v.cells[0][1].get().k == 'str' for j in js):
                    return Js('obj', {j.v.cells[0][1].get().v: Cell(j.v.cells[1][1].get()) for j in js})
                return Js('arr', Vec(len(js), [(i, Cell(j)) for i, j in enumerate(js)], None, 'json[]'))
            if isinstance(v, Js):
                return clone(v)
            return self.tojson(v, t, tu)


def pyjson(x):
    if x is None: return Js('null')
    if isinstance(x, bool): return Js('bool', x)
    if isinstance(x, int): return Js('uint' if x >= 0 else 'int', x)
    if isinstance(x, float): return Js('float', x)
    if isinstance(x, str): return Js('str', x)
    if isinstance(x, list): return Js('arr', Vec(len(x), [(i, Cell(pyjson(y))) for i, y in enumerate(x)], None, 'json[]'))
    return Js('obj', {k: Cell(pyjson(v)) for k, v in x.items()})

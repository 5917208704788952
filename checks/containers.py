"""C23: the bit and numeric containers, every member interpreted from the source.  Positions are 'width * q + r' with symbolic q and
every r; block contents are words with the tracked bit known and all others unknown (or the other way round)."""
import os
import ai, vt, model, lazy, votes, solve
from ai import Cell, Vec, Ptr, Sym, Lin, Obj, Word, term, atom

FULL = lazy.FULL
WIDTH = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32, 'unsigned long': 64}
_p = None


def prog():
    global _p
    if _p is None:
        _p = ai.load([], [os.path.join(vt.VERIF, 'wrap', 'bits.cpp')])
    return _p


def find(cls, name, npar=None, const=None):
    P = prog()
    r = [k for k in P.find(ai.strip_targs(cls) + '::' + name) if k[0].fns[k[1]]['q'].startswith(cls + '::') and k[1] in k[0].bodies]
    if npar is not None:
        r = [k for k in r if len(ptypes(k)) == npar]
    seen, out = set(), []
    for k in r:
        if k[0].fns[k[1]]['q'] + str(ptypes(k)) not in seen:
            seen.add(k[0].fns[k[1]]['q'] + str(ptypes(k)))
            out.append(k)
    return out


def ptypes(k):
    return [k[0].types[x] for x in k[0].fns[k[1]]['pt']]


def lin_(c, **k):
    return ai.unlin(Lin(c, {atom(a): v for a, v in k.items() if v}))


def times(v, k):
    l = ai.lin(v)
    return ai.unlin(Lin(l.c * k, {a: x * k for a, x in l.k.items()}))


def call(path, key, args, this=None):
    I = (ai.Models if getattr(path, 'native', False) else lazy.Lazy)(prog(), path, {})
    tu, i = key
    o = model.guarded(lambda: I.call(tu, i, this, [a if isinstance(a, Cell) else Cell(a) for a in args]))
    o.interp = I
    return o


def tracked(W, r, bit):
    """word of W bits of which only bit r is known"""
    up = FULL & ~((1 << W) - 1)
    return Word(1 << r if bit else 0, up | (0 if bit else 1 << r))


def others(W, r, pat):
    m = (1 << W) - 1
    k1 = pat & m & ~(1 << r)
    return Word(k1, FULL & ~k1 & ~(1 << r))


def bitat(v, r):
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int): return v >> r & 1
    if isinstance(v, Word): return 1 if v.k1 >> r & 1 else 0 if v.k0 >> r & 1 else None
    return None


# method -> (number of position arguments handled by the owner, effect on (bit, argument))
EFFECT = {'set': lambda b, a: 1, 'clear': lambda b, a: 0, 'flip': lambda b, a: 1 - b, 'assign': lambda b, a: a, 'XOR': lambda b, a: b ^ a}
READ = ('operator[]', 'test')


def owner(path, kind, blk, W, at=None):
    """object under test with the block of the tracked bit; returns (this cell, position arguments, cell of the block, neighbours)"""
    q = atom('q')
    path.iv[q] = (1, 2**24)
    if at is not None:
        q = at
    A, B, C = Cell(None), Cell(atom('next')), Cell(atom('prev'))
    if kind == 'vector':
        base = q
        o = Obj('basic_bit_vector<%s>' % blk, {'m_bit_length': Cell(ai.add(times(q, W), W * 2)), 'm_vector': None})
    elif kind == 'view':
        base = q
        o = Obj('basic_bit_matrix<%s>::bit_view' % blk, {'m_nbits': Cell(ai.add(times(q, W), W * 2)), 'm_p': None})
    else:
        R = atom('rowblocks')
        path.iv[R] = (2, 2**24 + 2)
        if at is not None:
            R = (at + 2 + 7) // 8 * 8
        base = ai.add(times(R, 3), q)
        o = Obj('basic_bit_matrix<%s>' % blk, {'m_nrows': Cell(8), 'm_ncols': Cell(ai.add(times(q, W), W * 2)), 'm_row_blocks': Cell(R), 'm_v': None})
    nxt, prv = ai.add(base, 1), ai.add(base, -1)
    v = Vec(ai.add(base, 2), [(base, A), (nxt, B), (prv, C)], None, 'std::vector<%s>' % blk)
    if kind == 'vector': o.f['m_vector'] = Cell(v)
    elif kind == 'view': o.f['m_p'] = Cell(Ptr(vec=v, pos=0))
    else: o.f['m_v'] = Cell(v)
    return Cell(o), A, (B, C)


def access(it):
    _, kind, blk, meth, pair = it
    W = WIDTH[blk]
    cls = {'vector': 'basic_bit_vector<%s>', 'matrix': 'basic_bit_matrix<%s>', 'view': 'basic_bit_matrix<%s>::bit_view'}[kind] % blk
    out = {'n': 0, 'viol': [], 'und': []}
    keys = find(cls, meth)
    for key in keys:
        pt = ptypes(key)
        if meth == 'operator[]' and kind == 'matrix' and 'pair' not in pt[0]:
            continue
        where = model.where(*key)
        npos = 2 if kind == 'matrix' and 'pair' not in pt[0] else 1
        vals = (0, 1) if len(pt) > npos else (None,)
        for r in range(W):
            for a in vals:
                if meth in READ:
                    states = [('tracked', b, None) for b in (0, 1)]
                else:
                    states = [('tracked', b, None) for b in (0, 1)] + [('others', None, p) for p in (0, FULL, 0x5555555555555555, 0xAAAAAAAAAAAAAAAA)]
                    states += [('one', j, None) for j in {(r + 1) % W, (r - 1) % W, r ^ (W // 2), 0, W - 1} - {r}]
                states += [('tracked', b, at) for b in (0, 1) for at in (1, 9, 130)]
                for st in states:
                    votes.collect(out, where, lambda p: bit(p, key, kind, blk, W, meth, r, a, st, npos, pt), 'bit-access')
                if len(out['viol']) > 3:
                    return out
    return out


def bit(path, key, kind, blk, W, meth, r, a, st, npos, pt):
    mode, b, pat = st
    at = pat if mode == 'tracked' else None
    this, A, nb = owner(path, kind, blk, W, at)
    if mode == 'tracked':
        A.v = tracked(W, r, b)
    elif mode == 'others':
        A.v = others(W, r, pat)
    else:
        A.v = tracked(W, b, 1)
    old, oldn = A.v, [c.get() for c in nb]
    pos = lin_(r, q=W) if at is None else at * W + r
    args = [pos] if npos == 1 else [3, pos]
    if 'pair' in pt[0]:
        args = [ai.Tup([('unsigned long', Cell(3)), ('unsigned long', Cell(pos))])]
    if a is not None:
        args.append(bool(a))
    o = call(path, key, args, this)
    what = 'bit %d of block q' % r
    if any(e[0] == 'out-of-range' for e in path.events):
        return [('bad', '%s of %s accesses another block: %s' % (meth, what, [e for e in path.events if e[0] == 'out-of-range'][0]))]
    if o.kind != 'ret':
        return [('bad', '%s: %s' % (meth, o))] if o.kind in ('throw', 'abort') else [('und', '%s: %s' % (meth, o))]
    hedge = any(k and k[0] == 'at' for k in path.memo)
    if meth in READ:
        v = o.interp.num(o.v)
        if v == b and not isinstance(v, Sym):
            return [('ok', '')]
        if isinstance(v, int) and not hedge:
            return [('bad', '%s of %s reads %s for %s' % (meth, what, v, b))]
        return [('und', '%s of %s reads %s for %s' % (meth, what, ai.show(term(v)), b))]
    res = []
    for c, x in zip(nb, oldn):
        if c.get() is not x:
            res.append(('und' if hedge else 'bad', '%s of %s writes a neighbouring block' % (meth, what)))
    if mode == 'tracked':
        want = EFFECT[meth](b, a)
        got = bitat(A.v, r)
        if got != want:
            res.append(('und' if hedge or got is None else 'bad', '%s%s turns %s from %d to %s' % (meth, '' if a is None else '(%d)' % a, what, b, got)))
    else:
        for j in range(W):
            w = bitat(old, j)
            if w is None:
                continue
            g = bitat(A.v, j)
            if g != w:
                res.append(('und' if hedge or g is None and mode != 'one' else 'bad', '%s of %s changes bit %d of the same block' % (meth, what, j)))
                break
    return res or [('ok', '')]


# ------------------------------------------------------------------ sizes, strides
def shape(it):
    _, cls, blk, size, r0, r1 = it
    out = {'n': 0, 'viol': [], 'und': []}
    ctors = [k for k in find(cls, cls.split('<')[0]) if len(ptypes(k)) == (1 if 'vector' in cls else 2) and 'int' in ptypes(k)[0] or 'vector' in cls and ptypes(k) in (['unsigned long'], ['size_type'])]
    ctors = [k for k in ctors if '&&' not in str(ptypes(k)) and 'basic_' not in str(ptypes(k))]
    for key in ctors:
        where = model.where(*key)
        for r in range(r0, r1):
            votes.collect(out, where, lambda p: stride(p, key, cls, blk, size, r), 'layout')
            if len(out['viol']) > 3:
                return out
    return out


ALIGN = 64


def val(I, this, name, *args):
    ks = find(this.get().cls, name)
    if not ks:
        return None
    o = call(I, ks[0], list(args), this)
    return o.v if o.kind == 'ret' else None


def made(I, cls, key, args):
    c = Cell(I.default_obj(cls, init=False))
    I.call(key[0], key[1], c, [Cell(a) for a in args])
    return c.get()


def stride(path, key, cls, blk, size, r):
    """cls constructed for period * q + r columns"""
    q = atom('q')
    path.iv[q] = (0, 2**19)
    per = ALIGN * 8 if 'bit_matrix' in cls else ALIGN if 'numeric' in cls else WIDTH[blk]
    n = lin_(r, q=per)
    I = ai.Models(prog(), path, {})
    path.native = True
    res = []
    if 'bit_vector' in cls:
        o = model.guarded(lambda: made(I, cls, key, [n]))
        if o.kind != 'ret':
            return [('und', 'constructor: %s' % o)]
        c = Cell(o.v)
        W = WIDTH[blk]
        want = lin_(-(-r // W), q=1)
        for m in ('content_blocks', 'capacity_blocks'):
            g = val(path, c, m)
            res.append(cmpv(path, '%s for %d*q+%d bits' % (m, W, r), g, want, exact=m == 'content_blocks'))
        for m, w in (('size', n), ('tail_bits', r % W)):
            res.append(cmpv(path, '%s for %d*q+%d bits' % (m, W, r), val(path, c, m), w))
        v = o.v.f['m_vector'].get()
        res.append(cmpv(path, 'storage for %d*q+%d bits' % (W, r), v.size, want, exact=False))
        return [x for x in res if x]
    for rows in (1, 2, 3, 8):
        o = model.guarded(lambda: made(I, cls, key, [rows, n]))
        if o.kind != 'ret':
            return [('und', 'constructor: %s' % o)]
        c = Cell(o.v)
        bitm = 'bit_matrix' in cls
        w = val(path, c, 'row_blocks' if bitm else 'row_items')
        if w is None or ai.lin(w) is None:
            return [('und', 'row width not found')]
        txt = '%d*q+%d columns of %s' % (per, r, cls)
        scale = WIDTH[blk] if bitm else 1
        res.append(cmpv(path, 'row width for ' + txt, ai.unlin(Lin(ai.lin(w).c * scale, {a: k * scale for a, k in ai.lin(w).k.items()})), n, exact=False))
        step = WIDTH[blk] // 8 if bitm else size
        l = ai.lin(w)
        if any(x * step % ALIGN for x in [l.c] + list(l.k.values())):
            res.append(('bad' if all(a is q for a in l.k) else 'und', 'rows of %s are not aligned: %s items' % (txt, w)))
        v = o.v.f['m_v'].get()
        res.append(cmpv(path, 'storage for %d rows of %s' % (rows, txt), v.size, ai.unlin(Lin(l.c * rows, {a: k * rows for a, k in l.k.items()})), exact=False))
        res.append(cmpv(path, 'columns of ' + txt, val(path, c, 'cols'), n))
        if not bitm:
            for k in find(cls, 'operator[]'):
                col = atom('col')
                path.iv[col] = (0, 2**25)
                mark = atom('item')
                base = ai.unlin(ai.ladd(Lin(l.c * (rows - 1), {a: x * (rows - 1) for a, x in l.k.items()}), ai.lin(col)))
                keep = v.cells, v.content
                v.cells, v.content = [(base, Cell(mark)), (ai.add(base, 1), Cell(atom('next')))], None
                p = call(path, k, [ai.Tup([('unsigned long', Cell(rows - 1)), ('unsigned long', Cell(col))])], c)
                bad = [e for e in path.events if e[0] == 'out-of-range']
                v.cells, v.content = keep
                del path.events[:]
                res.append(('bad', 'item (row, column) of %s is read from another place: %s' % (txt, bad[0][1])) if bad else
                           ('ok', '') if p.kind == 'ret' and p.v is mark else ('bad', 'item (row, column + 1) of %s is read instead of (row, column)' % txt) if p.kind == 'ret' and p.v is atom('next') else ('und', 'item access: %s' % p))
        res.append(cmpv(path, 'rows of ' + txt, val(path, c, 'rows'), rows))
        for nr in range(rows):
            for k in find(cls, 'row_data') + find(cls, 'row'):
                p = call(path, k, [nr], c)
                if p.kind != 'ret':
                    res.append(('und', 'row_data: %s' % p))
                    continue
                pv = p.v
                if isinstance(pv, Obj):
                    nb = pv.f.get('m_nbits')
                    if nb: res.append(cmpv(path, 'width of the view of ' + txt, nb.get(), n))
                    pv = pv.f['m_p'].get()
                if not isinstance(pv, Ptr) or pv.vec is not v:
                    res.append(('und', 'row_data result'))
                    continue
                res.append(cmpv(path, 'start of row %d of %s' % (nr, txt), pv.pos, ai.unlin(Lin(l.c * nr, {a: x * nr for a, x in l.k.items()}))))
    return [x for x in res if x] or [('ok', '')]


def cmpv(path, what, got, want, exact=True):
    if got is None:
        return ('und', what + ' not derived')
    g, w = ai.lin(got), ai.lin(want)
    if g is None:
        return ('und', '%s: %s' % (what, got))
    d = ai.unlin(ai.ladd(g, w, -1))
    lo, hi = path.ival(d)
    if lo == hi == 0 or not exact and lo >= 0:
        return ('ok', '')
    if exact and d != 0 or lo < 0:
        A = solve.witness(path, lambda A: solve.ev(d, A) != 0 if exact else solve.ev(d, A) < 0, (d,))
        if A is None:
            return ('und', '%s is %s, expected %s' % (what, ai.show(term(got)), ai.show(term(want))))
        return ('bad', '%s is %s instead of %s%s' % (what, ai.show(term(got)), '' if exact else 'at least ', ai.show(term(want))))
    return ('und', '%s is %s, expected %s' % (what, ai.show(term(got)), ai.show(term(want))))


# ------------------------------------------------------------------ construction from a range
def ranged(it):
    _, n, k = it
    out = {'n': 0, 'viol': [], 'und': []}
    for key in prog().find('vt_from_range'):
        fr = prog().find('basic_bit_vectors::from_range')
        where = model.where(*(fr[0] if fr else key))
        votes.collect(out, where, lambda p: fromrange(p, key, n, k), 'from-range')
    return out


def fromrange(path, key, n, k):
    x = atom('x')
    path.iv[x] = (0, 1)
    v = votes.arr([x if i == k else (i * 7 // 3) & 1 for i in range(n)], 'std::vector<char>')
    o = call(path, key, [Ptr(vec=v, pos=0), Ptr(vec=v, pos=n)])
    if o.kind != 'ret':
        return [('und', 'from_range: %s' % o)]
    res = [cmpv(path, 'bit length of a %d element range' % n, o.v.f['m_bit_length'].get(), n)]
    w = o.v.f['m_vector'].get()
    xv = path.ival(x)
    for i in range(n):
        want = ((i * 7 // 3) & 1) if i != k else path.known('==', x, 1)
        if w.cells is None or i // 64 >= len(w.cells):
            return [('und', 'storage of the result')]
        g = bitat(w.cells[i // 64][1].get(), i % 64)
        if want is None:
            z = path.known('!=', x, 0)
            want = z
        if want is None or g is None:
            res.append(('und', 'element %d of the range: %s' % (i, g)))
        elif int(want) != g:
            res.append(('bad', 'bit %d made from a range of %d elements is %d for a %d element' % (i, n, g, want)))
    return res


# ------------------------------------------------------------------ copies
SHAPES = ((3, 1300), (2, 600), (3, 600), (2, 1300), (1, 1), (3, 70), (5, 513), (4, 65))


def view(path, c, rows, cols):
    """what can be observed of a matrix: shape, row width and the items of every row"""
    cls = c.get().cls
    w = val(path, c, 'row_blocks' if 'bit_matrix' in cls else 'row_items')
    r = {'rows': val(path, c, 'rows'), 'columns': val(path, c, 'cols'), 'row width': w}
    need = -(-cols // (WIDTH[cls[cls.index('<') + 1:-1]])) if 'bit_matrix' in cls else cols
    for nr in range(rows):
        k = find(cls, 'row_data')
        o = call(path, k[0], [nr], c)
        if o.kind != 'ret' or not isinstance(o.v, Ptr) or o.v.vec is None or not isinstance(o.v.pos, int):
            return None, 'row %d: %s' % (nr, o)
        d = dict(o.v.vec.cells or [])
        r['items of row %d' % nr] = tuple(d[o.v.pos + j].get() if o.v.pos + j in d else 'outside the storage' for j in range(need))
    return r, None


def cloned(it):
    _, cls, how = it
    out = {'n': 0, 'viol': [], 'und': []}
    short = cls.split('<')[0]
    for a in SHAPES:
        for b in SHAPES + ('self',):
            if 'ctor' in how and b != SHAPES[0] or b == 'self' and 'move' in how:
                continue
            votes.collect(out, cls + ('::operator=' if 'assign' in how else '::' + short), lambda p: clone1(p, cls, how, a, b), 'copies')
            if len(out['viol']) > 3:
                return out
    return out


def clone1(path, cls, how, a, b):
    ctor = [k for k in find(cls, cls.split('<')[0], 2)]
    ctor = [k for k in ctor if 'int' in ptypes(k)[0] and 'int' in ptypes(k)[1]]
    move = 'move' in how
    name = 'operator=' if 'assign' in how else cls.split('<')[0]
    fs = [k for k in find(cls, name, 1) if 'basic_' in ptypes(k)[0] and ptypes(k)[0].endswith('&&') == move]
    if not ctor or not fs:
        return [('ok', '')]         # not written out: the compiler's memberwise copy
    path.native = True
    I = ai.Models(prog(), path, {})

    def build(sh, tag):
        o = made(I, cls, ctor[0], list(sh))
        v = o.f['m_v'].get()
        n = v.size
        if not isinstance(n, int):
            return None
        o.f['m_v'].set(votes.arr([atom('%s%d' % (tag, i)) for i in range(n)], v.ty))
        return Cell(o)
    src = build(a, 's')
    dst = src if b == 'self' else build(b, 'd')
    if src is None or dst is None:
        return [('und', 'constructor')]
    want, e = view(path, src, *a)
    if e:
        return [('und', e)]
    key = fs[0]
    I.depth = 0
    if 'ctor' in how:
        dst = Cell(I.default_obj(cls, init=False))
    o = model.guarded(lambda: I.call(key[0], key[1], dst, [src]))
    if o.kind != 'ret':
        return [('und', '%s: %s' % (how, o))]
    got, e = view(path, dst, *a)
    if e:
        return [('und', e)]
    what = '%s of a matrix of %d x %d%s' % (how, a[0], a[1], '' if 'ctor' in how else ' to itself' if b == 'self' else ' to one of %d x %d' % b)
    res = []
    for k in want:
        if want[k] != got[k]:
            if isinstance(got[k], (int, tuple)) and isinstance(want[k], (int, tuple)):
                res.append(('bad', '%s: the %s of the result %s' % (what, k, 'is %s instead of %s' % (got[k], want[k]) if isinstance(got[k], int) else 'differ from those of the source')))
            else:
                res.append(('und', '%s: %s' % (what, k)))
    if not move and b != 'self':
        now, e = view(path, src, *a)
        if e:
            return [('und', e)]
        if now != want:
            res.append(('bad', what + ' changes the source'))
        if dst.get().f['m_v'].get() is src.get().f['m_v'].get():
            res.append(('und', what + ': storage shared'))
    return res or [('ok', '')]


# ------------------------------------------------------------------ equality
STD = {'unsigned char': 'uint8_t', 'unsigned short': 'uint16_t', 'unsigned int': 'uint32_t', 'unsigned long': 'uint64_t', 'signed char': 'int8_t', 'short': 'int16_t', 'int': 'int32_t'}


def compared(it):
    _, cls = it
    out = {'n': 0, 'viol': [], 'und': []}
    for key in prog().find('vt_equal_' + STD[cls[cls.index('<') + 1:-1]]):
        for sh in SHAPES:
            its = [('same', None), ('shape', (sh[0], sh[1] - 1)), ('shape', (sh[0] + 1, sh[1])), ('shape', (sh[1], sh[0]))]
            its += [('item', (r, k)) for r in (0, sh[0] - 1) for k in sorted({0, sh[1] // 2, sh[1] - 1})]
            for c in its:
                if c == ('shape', sh):
                    continue
                votes.collect(out, 'operator== of ' + cls, lambda p: compare1(p, key, cls, sh, c), 'equality')
                if len(out['viol']) > 3:
                    return out
    return out


def compare1(path, key, cls, sh, case):
    ctor = [k for k in find(cls, cls.split('<')[0], 2) if 'int' in ptypes(k)[0] and 'int' in ptypes(k)[1]]
    path.native = True
    I = ai.Models(prog(), path, {})
    bits = 'bit_matrix' in cls
    W = WIDTH[cls[cls.index('<') + 1:-1]] if bits else 1
    cs = []
    kind, arg = case
    for second in (0, 1):
        s2 = arg if second and kind == 'shape' else sh
        if s2[0] < 1 or s2[1] < 1:
            return [('ok', '')]
        o = made(I, cls, ctor[0], list(s2))
        v = o.f['m_v'].get()
        if not isinstance(v.size, int):
            return [('und', 'constructor')]
        vals = [0] * v.size
        c = Cell(o)
        w = val(path, c, 'row_blocks' if bits else 'row_items')
        if second and kind == 'item':
            vals[arg[0] * w + arg[1] // W] = 1 << arg[1] % W
        o.f['m_v'].set(votes.arr(vals, v.ty))
        cs.append(c)
    res = []
    for a, b in (cs, cs[::-1]):
        o = model.guarded(lambda: I.call(key[0], key[1], None, [a, b]))
        if o.kind != 'ret' or not isinstance(o.v, (bool, int)):
            res.append(('und', 'comparison: %s' % o))
        elif bool(o.v) != (kind == 'same'):
            res.append(('bad', 'two %s matrices of %d x %d compare %s' % ('equal' if kind == 'same' else 'different (%s %s)' % case, sh[0], sh[1], 'equal' if o.v else 'different')))
    return res


DISPATCH = {'access': access, 'shape': shape, 'range': ranged, 'copies': cloned, 'equality': compared}


def item(it):
    return DISPATCH[it[0]](it)


def items(tier):
    out = []
    for blk in WIDTH:
        for kind, ms in (('vector', ('set', 'clear', 'flip', 'assign', 'XOR', 'operator[]')), ('matrix', ('set', 'clear', 'flip', 'test', 'operator[]')), ('view', ('set', 'clear', 'flip', 'test', 'operator[]'))):
            for m in ms:
                out.append(('access', kind, blk, m, None))
        for r in range(0, 512, 64):
            out.append(('shape', 'basic_bit_matrix<%s>' % blk, blk, WIDTH[blk] // 8, r, r + 64))
        out.append(('shape', 'basic_bit_vector<%s>' % blk, blk, WIDTH[blk] // 8, 0, WIDTH[blk]))
    for t, s in (('signed char', 1), ('short', 2), ('int', 4)):
        out.append(('shape', 'basic_numeric_matrix<%s>' % t, t, s, 0, 64))
    for cls in ['basic_bit_matrix<%s>' % b for b in WIDTH] + ['basic_numeric_matrix<%s>' % t for t in ('signed char', 'short', 'int')]:
        out.append(('equality', cls))
        for how in ('copy ctor', 'move ctor', 'copy assignment', 'move assignment'):
            out.append(('copies', cls, how))
    for n in (1, 2, 63, 64, 65, 130):
        for k in sorted({0, n // 2, n - 1}):
            out.append(('range', n, k))
    return out


def run(prop, tier):
    prog()
    its = items(tier)
    res = model.parallel(its, item)
    viol, und, n, seen = [], [], 0, set()
    for r in res:
        n += r['n']
        und += r['und']
        for v in r['viol']:
            k = (v['where'], v['msg'][:50])
            if k not in seen:
                seen.add(k)
                viol.append(v)
    cov = {'obligations': n, 'discharged': n - len(und) - len(viol), 'checker_cmd': 'checks/run.py %s %s' % (prop, tier),
           'trusted_base': ['clang 18 front end', 'interpreter checks/ai.py, checks/lazy.py'], 'members': len(its)}
    return dict(coverage=cov, violations=viol, undecided=und, instances=n, floor=2000,
                assumptions=['fewer than 2^28 columns', 'operations on a block act on each bit alike for contents beyond the patterns tried'])

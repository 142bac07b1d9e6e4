"""Symbolic values, sequences, paths and the explorer.

A path is executed from the function entry with a prefix of decisions; every decision that the path condition
leaves open is explored both ways, so that every feasible path is covered.  Loops without a concrete or solver-bounded
iteration count are cut at their head (see interp.LoopCut): nothing is unrolled to a bound and then assumed.
"""
import time, itertools
import z3

MAXLEN = 1 << 40          # assumption: every container is shorter than 2^40 elements


class ToolLimit(Exception):
    """The code is outside what this verifier can decide (never a violation)."""


class PathEnd(Exception):
    pass


class SpecAbort(Exception):
    """speculative (merging) execution cannot continue; fall back to forking"""


class CppThrow(Exception):
    def __init__(self, cls, val=None):
        super().__init__(cls)
        self.cls, self.val = cls, val     # '?': a class nothing is known of; '?X': one derived from X
        self.isa = {}


class Restart(Exception):
    """a loop's havoc set or candidate set changed"""


Str = z3.DeclareSort('Str')
Obj = z3.DeclareSort('Obj')
B64 = z3.BitVecSort(64)
_UF = {}


def UF(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    f = _UF.get(k)
    if f is None:
        f = _UF[k] = z3.Function(name, *sorts)
    return f


slen = UF('slen', Str, B64)
sbyte = UF('sbyte', Str, B64, z3.BitVecSort(8))


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def bv(v, w):
    if isinstance(v, bool):
        return z3.BitVecVal(1 if v else 0, w)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def zb(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def simp(e):
    if not is_sym(e):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def And(*cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            c = And(*c)
        if c is True:
            continue
        if c is False:
            return False
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            c = Or(*c)
        if c is False:
            continue
        if c is True:
            return True
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(c):
    if isinstance(c, bool):
        return not c
    return z3.Not(c)


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b, w=None):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (not is_sym(a) and not is_sym(b) and type(a) is type(b) and a == b):
        return a
    if is_sym(a) and is_sym(b) and a.eq(b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (is_sym(a) and z3.is_bool(a)):
        return simp(z3.If(c, zb(a), zb(b)))
    if w is None:
        w = a.size() if is_sym(a) else b.size() if is_sym(b) else 64
    return z3.If(c, bv(a, w), bv(b, w))


def Eq(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if is_sym(a) and z3.is_bool(a) or is_sym(b) and z3.is_bool(b) or isinstance(a, bool) or isinstance(b, bool):
        return simp(zb(a) == zb(b)) if not (isinstance(a, int) and not isinstance(a, bool)) else False
    if not is_sym(a) and not is_sym(b):
        return a == b
    if is_sym(a) and is_sym(b) and a.eq(b):
        return True
    w = a.size() if is_sym(a) and z3.is_bv(a) else b.size() if is_sym(b) and z3.is_bv(b) else None
    if w is not None:
        if is_sym(a) and is_sym(b) and a.size() != b.size():
            raise ToolLimit('width mismatch in equality: %s %s' % (a.sort(), b.sort()))
        return simp(bv(a, w) == bv(b, w))
    return simp(a == b)


# --- 64-bit length arithmetic -------------------------------------------------------------------------
M64 = (1 << 64) - 1


def add(a, b):
    if not is_sym(a) and not is_sym(b):
        return (a + b) & M64
    if not is_sym(b) and b == 0:
        return a
    if not is_sym(a) and a == 0:
        return b
    return simp(bv(a, 64) + bv(b, 64))


def sub(a, b):
    if not is_sym(a) and not is_sym(b):
        return (a - b) & M64
    if not is_sym(b) and b == 0:
        return a
    return simp(bv(a, 64) - bv(b, 64))


def ult(a, b):
    if not is_sym(a) and not is_sym(b):
        return a < b
    if not is_sym(b) and b == 0:
        return False
    return simp(z3.ULT(bv(a, 64), bv(b, 64)))


def ule(a, b):
    if not is_sym(a) and not is_sym(b):
        return a <= b
    if not is_sym(a) and a == 0:
        return True
    return simp(z3.ULE(bv(a, 64), bv(b, 64)))


def same(a, b):
    """syntactic equality"""
    if is_sym(a) != is_sym(b):
        return False
    if is_sym(a):
        return a.eq(b)
    return type(a) is type(b) and a == b


# --- values -------------------------------------------------------------------------------------------
class Rec:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def with_(self, k, v):
        d = dict(self.f)
        d[k] = v
        return Rec(self.cls, d)

    def __repr__(self):
        return '%s%r' % (self.cls, self.f)


class Opt:
    """std::optional (err is None) and std::expected"""
    __slots__ = ('has', 'val', 'err', 'kind')

    def __init__(self, has, val=None, err=None, kind='optional'):
        self.has, self.val, self.err, self.kind = has, val, err, kind

    def __repr__(self):
        return 'Opt(%s,%r,%r)' % (self.has, self.val, self.err)


class Unexpected:
    __slots__ = ('err',)

    def __init__(self, err):
        self.err = err


class Null:
    def __repr__(self):
        return 'null'


NULL = Null()


class Opaque:
    """a value nothing is known about except its identity (key) """
    __slots__ = ('kind', 'key', 'data')

    def __init__(self, kind, key=None, data=None):
        self.kind, self.key, self.data = kind, key, data

    def __repr__(self):
        return 'Opaque(%s,%s)' % (self.kind, self.key)


class Closure:
    __slots__ = ('node', 'caps', 'this', 'interp', 'ctx')

    def __init__(self, node, caps, this, ctx=None):
        self.node, self.caps, self.this, self.ctx = node, caps, this, ctx

    def __repr__(self):
        return 'Closure'


class FnSpec:
    """a function value given by the specification: call(interp, path, args) -> value"""
    __slots__ = ('name', 'call', 'key')

    def __init__(self, name, call=None, key=None):
        self.name, self.call, self.key = name, call, key if key is not None else name

    def __repr__(self):
        return 'Fn(%s)' % (self.key,)


class UPtr:
    __slots__ = ('cell', 'deleter')

    def __init__(self, cell, deleter=None):
        self.cell, self.deleter = cell, deleter

    def __repr__(self):
        return 'UPtr(%s)' % self.cell


class SymPtr:
    """pointer or unique_ptr that may be null: non-null iff `ok`"""
    __slots__ = ('ok', 'ptr')

    def __init__(self, ok, ptr):
        self.ok, self.ptr = ok, ptr


class Cell:
    __slots__ = ('key', 'init', 'type', 'name', 'ephemeral')

    def __init__(self, key, init, type=None, name=''):
        self.key, self.init, self.type, self.name = key, init, type, name

    def __repr__(self):
        return '<%s>' % (self.key,)


class LV:
    pass


class LVCell(LV):
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell

    def load(self, p):
        return p.read(self.cell)

    def store(self, p, v, sub=()):
        p.write(self.cell, v, sub)

    def key(self):
        return (self.cell.key,)

    def __repr__(self):
        return 'LV%r' % self.cell


class LVField(LV):
    __slots__ = ('base', 'name')

    def __init__(self, base, name):
        self.base, self.name = base, name

    def load(self, p):
        r = self.base.load(p)
        if not isinstance(r, Rec):
            raise ToolLimit('field %s of %r' % (self.name, r))
        if self.name not in r.f:
            raise ToolLimit('no field %s in %s' % (self.name, r.cls))
        return r.f[self.name]

    def store(self, p, v, sub=()):
        r = self.base.load(p)
        if not isinstance(r, Rec):
            raise ToolLimit('field %s of %r' % (self.name, r))
        self.base.store(p, r.with_(self.name, v), (self.name,) + sub)

    def key(self):
        return self.base.key() + (self.name,)

    def __repr__(self):
        return '%r.%s' % (self.base, self.name)


class LVElem(LV):
    __slots__ = ('base', 'idx')

    def __init__(self, base, idx):
        self.base, self.idx = base, idx

    def load(self, p):
        return self.base.load(p).at(p, self.idx)

    def store(self, p, v, sub=()):
        self.base.store(p, self.base.load(p).upd(p, self.idx, v), ('[]',))

    def key(self):
        return self.base.key() + ('[]', str(self.idx))

    def __repr__(self):
        return '%r[%s]' % (self.base, self.idx)


class LVOpt(LV):
    __slots__ = ('base', 'which')

    def __init__(self, base, which='val'):
        self.base, self.which = base, which

    def load(self, p):
        o = self.base.load(p)
        return o.val if self.which == 'val' else o.err

    def store(self, p, v, sub=()):
        o = self.base.load(p)
        self.base.store(p, Opt(o.has, v, o.err, o.kind) if self.which == 'val' else Opt(o.has, o.val, v, o.kind), ('?',))

    def key(self):
        return self.base.key() + ('?',)

    def __repr__(self):
        return '%r.*' % (self.base,)


class LVVal(LV):
    """read-only lvalue on a value (constants, elements of snapshots)"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def load(self, p):
        return self.v

    def store(self, p, v, sub=()):
        raise ToolLimit('store to a value')

    def key(self):
        return ('val', id(self.v))


class Ptr:
    """pointer to element idx of the sequence at lv (idx None: pointer to the object itself)"""
    __slots__ = ('lv', 'idx')

    def __init__(self, lv, idx=None):
        self.lv, self.idx = lv, idx

    def __repr__(self):
        return 'Ptr(%r,%s)' % (self.lv, self.idx)


class SpanV:
    """std::span over lv[off : off+len]"""
    __slots__ = ('lv', 'off', 'len')

    def __init__(self, lv, off, length):
        self.lv, self.off, self.len = lv, off, length

    def seq(self, p):
        if self.lv is None:
            return EMPTY
        return slice_(p, self.lv.load(p), self.off, self.len)

    def __repr__(self):
        return 'Span(%r,%s,%s)' % (self.lv, self.off, self.len)


class IterV:
    __slots__ = ('lv', 'idx')

    def __init__(self, lv, idx):
        self.lv, self.idx = lv, idx

    def __repr__(self):
        return 'Iter(%r,%s)' % (self.lv, self.idx)


# --- sequences ----------------------------------------------------------------------------------------
class Seq:
    pass


class Lit(Seq):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)

    @property
    def len(self):
        return len(self.e)

    def at(self, p, i):
        if not is_sym(i):
            if i >= len(self.e):
                raise ToolLimit('literal index out of range')
            return self.e[i]
        if not self.e:
            raise ToolLimit('index into empty literal')
        if len(self.e) > 300:
            raise ToolLimit('symbolic index into a long literal')
        r = self.e[-1]
        for k in range(len(self.e) - 2, -1, -1):
            r = merge(i == k, self.e[k], r)
        return r

    def upd(self, p, i, v):
        if is_sym(i):
            return Upd(self, i, v)
        l = list(self.e)
        l[i] = v
        return Lit(l)

    def __repr__(self):
        if self.e and all(isinstance(x, int) and not isinstance(x, bool) and 32 <= x < 127 for x in self.e):
            return 'Lit(%r)' % bytes(self.e)
        return 'Lit%r' % (self.e,)


EMPTY = Lit(())


class Base(Seq):
    """opaque sequence denoted by the term t; elements given by uninterpreted functions"""
    __slots__ = ('t', 'et', 'len')

    def __init__(self, p, t, et=None):
        self.t, self.et = t, et          # et: None for octets, otherwise an element maker (p, term, index) -> value
        if et is None:
            self.len = slen(t)
        else:
            self.len = UF('olen', Obj, B64)(t)
        p.fact(z3.ULT(self.len, z3.BitVecVal(MAXLEN, 64)))

    def at(self, p, i):
        i = bv(i, 64)
        if self.et is None:
            return sbyte(self.t, i)
        return self.et(p, self.t, i)

    def upd(self, p, i, v):
        return Upd(self, i, v)

    def __repr__(self):
        return 'Base(%s)' % self.t


class Slice(Seq):
    __slots__ = ('s', 'off', 'len')

    def __init__(self, s, off, length):
        self.s, self.off, self.len = s, off, length

    def at(self, p, i):
        return self.s.at(p, add(self.off, i))

    def upd(self, p, i, v):
        return Upd(self, i, v)

    def __repr__(self):
        return 'Slice(%r,%s,%s)' % (self.s, self.off, self.len)


class Cat(Seq):
    __slots__ = ('parts', 'len')

    def __init__(self, parts):
        self.parts = tuple(parts)
        n = 0
        for x in self.parts:
            n = add(n, x.len)
        self.len = n

    def at(self, p, i):
        off = 0
        for x in self.parts:
            # syntactically off + constant: total lengths stay far below 2^64, so nothing wraps
            if not is_sym(x.len) and x.len:
                j = sub(i, off)
                if not is_sym(j) and j < x.len:
                    return x.at(p, j)
            off = add(off, x.len)
        off = 0
        conds = []
        for k, x in enumerate(self.parts):
            nxt = add(off, x.len)
            c = ult(i, nxt)
            if c is True or k == len(self.parts) - 1:
                conds.append((None, x, off))
                break
            if c is not False:
                conds.append((c, x, off))
            off = nxt
        r = None
        for c, x, o in reversed(conds):
            if isinstance(x, Lit):
                j = sub(i, o)
                if is_sym(j) and len(x.e) == 1:
                    v = x.e[0]
                elif not is_sym(j) and j >= len(x.e):
                    continue
                else:
                    if not x.e:
                        continue
                    v = x.at(p, j)
            else:
                v = x.at(p, sub(i, o))
            r = v if r is None or c is None else merge(c, v, r)
        if r is None:
            raise ToolLimit('index out of range of a concatenation')
        return r

    def upd(self, p, i, v):
        if not is_sym(i):
            off = 0
            for k, x in enumerate(self.parts):
                if is_sym(x.len):
                    break
                if i < off + x.len:
                    ps = list(self.parts)
                    ps[k] = x.upd(p, i - off, v)
                    return Cat(ps)
                off += x.len
        return Upd(self, i, v)

    def __repr__(self):
        return 'Cat(%s)' % ', '.join(map(repr, self.parts))


class Upd(Seq):
    __slots__ = ('s', 'i', 'v')

    def __init__(self, s, i, v):
        self.s, self.i, self.v = s, i, v

    @property
    def len(self):
        return self.s.len

    def at(self, p, j):
        c = Eq(j, self.i)
        if c is True:
            return self.v
        b = self.s.at(p, j)
        return b if c is False else merge(c, self.v, b)

    def upd(self, p, i, v):
        if same(i, self.i):
            return Upd(self.s, i, v)
        return Upd(self, i, v)

    def __repr__(self):
        return 'Upd(%r,%s,%r)' % (self.s, self.i, self.v)


class Rep(Seq):
    __slots__ = ('v', 'len')

    def __init__(self, v, n):
        self.v, self.len = v, n

    def at(self, p, i):
        return self.v

    def upd(self, p, i, v):
        return Upd(self, i, v)

    def __repr__(self):
        return 'Rep(%r,%s)' % (self.v, self.len)


class FnSeq(Seq):
    __slots__ = ('len', 'fn', 'key')

    def __init__(self, n, fn, key):
        self.len, self.fn, self.key = n, fn, key

    def at(self, p, i):
        return self.fn(p, i)

    def upd(self, p, i, v):
        return Upd(self, i, v)

    def __repr__(self):
        return 'FnSeq(%s,%s)' % (self.key, self.len)


def cat(*ss):
    parts = []
    for s in ss:
        for x in (s.parts if isinstance(s, Cat) else (s,)):
            if not is_sym(x.len) and x.len == 0:
                continue
            if parts and isinstance(x, Lit) and isinstance(parts[-1], Lit):
                parts[-1] = Lit(parts[-1].e + x.e)
            elif parts and isinstance(x, Slice) and isinstance(parts[-1], Slice) and x.s is parts[-1].s and \
                    same(x.off, add(parts[-1].off, parts[-1].len)):
                parts[-1] = Slice(x.s, parts[-1].off, add(parts[-1].len, x.len))
                if same(parts[-1].off, 0) and same(parts[-1].len, x.s.len):
                    parts[-1] = x.s
            else:
                parts.append(x)
    if not parts:
        return EMPTY
    return parts[0] if len(parts) == 1 else Cat(parts)


def slice_(p, s, off, n):
    if not is_sym(n) and n == 0:
        return EMPTY
    if same(off, 0) and same(n, s.len):
        return s
    if isinstance(s, Lit) and not is_sym(off) and not is_sym(n):
        return Lit(s.e[off:off + n])
    if isinstance(s, Slice):
        return slice_(p, s.s, add(s.off, off), n)
    if isinstance(s, Rep):
        return Rep(s.v, n)
    if isinstance(s, Cat):
        # drop leading parts that lie before off, syntactically
        parts = list(s.parts)
        o = off
        while parts:
            l = parts[0].len
            if same(o, l):
                parts.pop(0)
                o = 0
                continue
            if not is_sym(o) and not is_sym(l) and o > l:
                parts.pop(0)
                o -= l
                continue
            d = sub(o, l)
            if is_sym(o) and p is not None and len(parts) > 1 and p.entails_cheap(ule(l, o)):
                parts.pop(0)
                o = d
                continue
            break
        if len(parts) < len(s.parts):
            return slice_(p, cat(*parts), o, n)
        # drop trailing parts
        if not is_sym(off) or True:
            end = add(off, n)
            tot = s.len
            parts = list(s.parts)
            while len(parts) > 1:
                tot2 = sub(tot, parts[-1].len)
                if same(end, tot2) or (not is_sym(end) and not is_sym(tot2) and end <= tot2) or \
                        (p is not None and p.entails_cheap(And(ule(end, tot2), ule(tot2, MAXLEN * 16)))):
                    parts.pop()
                    tot = tot2
                    continue
                break
            if len(parts) < len(s.parts):
                return slice_(p, cat(*parts), off, n)
            # split inside the first part
            first = parts[0]
            if not is_sym(first.len) and not is_sym(off) and off < first.len:
                k = first.len - off
                if is_sym(n):
                    if p is not None and p.entails_cheap(ule(k, n)):
                        return cat(slice_(p, first, off, k), slice_(p, cat(*parts[1:]), 0, sub(n, k)))
                elif n > k:
                    return cat(slice_(p, first, off, k), slice_(p, cat(*parts[1:]), 0, n - k))
                else:
                    return slice_(p, first, off, n)
            if same(off, 0) and p is not None and p.entails_cheap(ule(first.len, n)):
                return cat(first, slice_(p, cat(*parts[1:]), 0, sub(n, first.len)))
    return Slice(s, off, n)


def lit_of(b):
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogateescape')
    return Lit(b)


class CannotMerge(Exception):
    pass


def merge(c, a, b):
    """value of (c ? a : b)"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, (bool, int, z3.ExprRef)) and isinstance(b, (bool, int, z3.ExprRef)):
        if same(a, b):
            return a
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
            w = 8
            return LazyIte(c, a, b)
        if isinstance(a, LazyIte) or isinstance(b, LazyIte):
            return LazyIte(c, a, b)
        return Ite(c, a, b)
    if isinstance(a, LazyIte) or isinstance(b, LazyIte):
        if is_sym(a) or is_sym(b):
            w = a.size() if is_sym(a) else b.size()
            return z3.If(c, to_w(a, w), to_w(b, w))
        return LazyIte(c, a, b)
    if isinstance(a, Rec) and isinstance(b, Rec) and a.cls == b.cls and a.f.keys() == b.f.keys():
        return Rec(a.cls, {k: merge(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Seq) and isinstance(b, Seq):
        if seq_same(a, b):
            return a
        return IteSeq(c, a, b)
    if isinstance(a, Opt) and isinstance(b, Opt):
        has = Ite(c, a.has, b.has)
        val = a.val if b.val is None else b.val if a.val is None else merge(c, a.val, b.val)
        err = a.err if b.err is None else b.err if a.err is None else merge(c, a.err, b.err)
        return Opt(has, val, err, a.kind)
    if isinstance(a, SpanV) and isinstance(b, SpanV) and a.lv is b.lv:
        return SpanV(a.lv, merge64(c, a.off, b.off), merge64(c, a.len, b.len))
    raise CannotMerge('%s / %s' % (type(a).__name__, type(b).__name__))


def merge64(c, a, b):
    return a if same(a, b) else z3.If(c, bv(a, 64), bv(b, 64))


class LazyIte:
    """c ? int : int of width not yet known"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


def to_w(v, w):
    if isinstance(v, LazyIte):
        return z3.If(v.c, to_w(v.a, w), to_w(v.b, w))
    return bv(v, w)


def force(v, w):
    """give a possibly lazy scalar its width"""
    if isinstance(v, LazyIte):
        return simp(to_w(v, w))
    return v


class IteSeq(Seq):
    __slots__ = ('c', 'a', 'b', 'len')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self.len = merge64(c, a.len, b.len)

    def at(self, p, i):
        def sat(s):
            if isinstance(s, Lit):
                if not s.e:
                    return None
                if not is_sym(i) and i >= len(s.e):
                    return None
            return s.at(p, i)
        x, y = sat(self.a), sat(self.b)
        if x is None:
            return y
        if y is None:
            return x
        return merge(self.c, x, y)

    def upd(self, p, i, v):
        return Upd(self, i, v)

    def __repr__(self):
        return 'IteSeq(%s,%r,%r)' % (self.c, self.a, self.b)


def seq_same(a, b):
    """syntactic equality of sequences"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Lit):
        return len(a.e) == len(b.e) and all(val_same(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, Base):
        return a.t.eq(b.t)
    if isinstance(a, Slice):
        return same(a.off, b.off) and same(a.len, b.len) and seq_same(a.s, b.s)
    if isinstance(a, Cat):
        return len(a.parts) == len(b.parts) and all(seq_same(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, Upd):
        return same(a.i, b.i) and val_same(a.v, b.v) and seq_same(a.s, b.s)
    if isinstance(a, Rep):
        return same(a.len, b.len) and val_same(a.v, b.v)
    if isinstance(a, FnSeq):
        return a.key == b.key and same(a.len, b.len)
    if isinstance(a, IteSeq):
        return a.c.eq(b.c) and seq_same(a.a, b.a) and seq_same(a.b, b.b)
    return False


def val_same(a, b):
    if a is b:
        return True
    if isinstance(a, (bool, int, z3.ExprRef)) and isinstance(b, (bool, int, z3.ExprRef)):
        return same(a, b)
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_same(a, b)
    if isinstance(a, Rec) and isinstance(b, Rec):
        return a.cls == b.cls and a.f.keys() == b.f.keys() and all(val_same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Opt) and isinstance(b, Opt):
        return same(a.has, b.has) and val_same(a.val, b.val) and val_same(a.err, b.err)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.kind == b.kind and key_same(a.key, b.key)
    if isinstance(a, FnSpec) and isinstance(b, FnSpec):
        return key_same(a.key, b.key)
    return False


def key_same(a, b):
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(key_same(x, y) for x, y in zip(a, b))
    if is_sym(a) or is_sym(b):
        return False
    return a == b


# --- paths --------------------------------------------------------------------------------------------
class Obligation:
    __slots__ = ('fn', 'label', 'kind', 'status', 'backend', 'secs', 'detail', 'model', 'hazy')

    def __init__(self, fn, label, kind, status, backend, secs, detail='', model=None):
        self.fn, self.label, self.kind, self.status, self.backend, self.secs, self.detail, self.model = \
            fn, label, kind, status, backend, secs, detail, model
        self.hazy = 0


class Path:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.dec = []
        self.solver = z3.Solver()
        self.solver.set('timeout', ex.feas_ms)
        self.mem = {}
        self.n = 0
        self.names = {}
        self.wlog = []          # stack of write logs
        self.spec = 0           # speculation depth
        self.ghost = {}
        self.fnstack = []
        self.factset = set()
        self.obls = []
        self.apps = {}
        self.trace = []
        self.pure = 0
        self.guards = []
        self.cellkeys = {}
        self.cost = 0
        self.node, self.nodelen = 0, 0
        self.occ = {}
        self.hazy = 0           # questions the solver left open for want of time

    # -- names, memory
    def fresh_name(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return '%s!%d' % (base, k) if k else base

    def fresh(self, base, sort):
        return z3.Const(self.fresh_name(base), sort)

    def freshbv(self, base, w):
        return z3.BitVec(self.fresh_name(base), w)

    def freshbool(self, base):
        return z3.Bool(self.fresh_name(base))

    def bytes_(self, base):
        return Base(self, self.fresh(base, Str))

    def cell(self, name, v, t=None):
        k = self.cellkeys.get(name, 0)
        self.cellkeys[name] = k + 1
        c = Cell((name, k), None, t, name)
        self.mem[c] = v
        return c

    def newlv(self, name, v, t=None):
        return LVCell(self.cell(name, v, t))

    def read(self, c):
        if c in self.mem:
            return self.mem[c]
        return c.init

    def write(self, c, v, sub=()):
        for l in self.wlog:
            l.append((c, sub))
        self.mem[c] = v

    # -- facts
    def fact(self, f):
        """a valid axiom instance"""
        if f is True:
            return
        if f is False:
            raise PathEnd()
        k = f.get_id()
        if k in self.factset:
            return
        self.factset.add(k)
        self._keep = getattr(self, '_keep', [])
        self._keep.append(f)
        self.solver.add(f)

    def assume(self, c):
        c = simp(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.solver.add(c)

    @property
    def replaying(self):
        return len(self.dec) < len(self.prefix)

    def check(self, *extra, ms=None):
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            if ms is not None:
                self.solver.set('timeout', int(ms * self.ex.scale))
            t = time.time()
            r = self.solver.check()
            self.ex.solver_time += time.time() - t
            self.ex.queries += 1
            if ms is not None:
                self.solver.set('timeout', self.ex.feas_ms)
            return r
        finally:
            self.solver.pop()

    def holds(self, c, ms=None):
        """c is entailed here; answered once per place, so that a path executed again goes the same way"""
        ex = self.ex
        while self.nodelen < len(self.dec):
            k = (self.node, self.dec[self.nodelen])
            self.node = ex.tree.setdefault(k, len(ex.tree) + 1)
            self.nodelen += 1
        g = [x for x in self.guards if is_sym(x)]
        k = (self.node, c.get_id(), tuple(x.get_id() for x in g))
        n = self.occ[k] = self.occ.get(k, 0) + 1
        k += (n,)
        e = ex.answers.get(k)
        if e is None:
            r = self.check(z3.Not(c), ms=ms)
            e = ex.answers[k] = (r, c, g)
        if e[0] == z3.unknown:
            self.hazy += 1
        return e[0] == z3.unsat

    def decide(self, c, what=''):
        c = simp(c)
        if isinstance(c, bool):
            return c
        if isinstance(c, int):
            return c != 0
        if self.pure:
            raise ToolLimit('fork in pure evaluation: %s' % what)
        if self.spec:
            if self.holds(z3.Not(c)):
                return False
            if self.holds(c):
                return True
            raise SpecAbort()
        self.ex.tick()
        if self.replaying:
            d = self.prefix[len(self.dec)]
        else:
            self.ex.deadline_check()
            t = self.check(c)
            if t == z3.unsat:
                d = False
            else:
                f = self.check(z3.Not(c))
                if f == z3.unsat:
                    d = True
                else:
                    d = True
                    self.ex.push(tuple(self.dec) + (False,))
        self.dec.append(d)
        self.solver.add(c if d else z3.Not(c))
        return d

    def entails(self, c, ms=None):
        c = simp(c)
        if isinstance(c, bool):
            return c
        return self.holds(c, ms)

    def entails_cheap(self, c):
        """used for normalisation only; recorded so that re-execution takes the same way"""
        c = simp(c)
        if isinstance(c, bool):
            return c
        if self.spec or self.pure:
            return self.entails(c, ms=2000)
        if self.replaying:
            d = self.prefix[len(self.dec)]
        else:
            d = self.entails(c, ms=2000)
        self.dec.append(d)
        return d

    def choose_case(self, cases):
        """case split over conditions (the caller makes them exhaustive): index of one that is possible here, assumed"""
        if self.spec or self.pure:
            raise SpecAbort()
        if self.replaying:
            d = self.prefix[len(self.dec)]
        else:
            ok = [k for k, c in enumerate(cases) if self.check(simp_b(c), ms=2000) != z3.unsat]
            if not ok:
                raise PathEnd()
            for k in reversed(ok[1:]):
                self.ex.push(tuple(self.dec) + (k,))
            d = ok[0]
        self.dec.append(d)
        self.assume(cases[d])
        return d

    def reached(self):
        """the end of an arbitrary iteration counts as an end of the function, if it can be reached"""
        if self.check() == z3.sat:
            self.ex.completed += 1

    def choose(self, n, what=''):
        """nondeterministic choice 0..n-1"""
        if self.spec or self.pure:
            raise SpecAbort()
        if self.replaying:
            d = self.prefix[len(self.dec)]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.ex.push(tuple(self.dec) + (k,))
        self.dec.append(d)
        return d

    def prove(self, c, label, kind='post', model_info=None):
        c = simp(c)
        if c is True:
            self._obl(label, kind, 'discharged', 'simplifier', 0.0)
            return True
        if self.replaying and not self.spec:
            return True      # already checked on the path this one was forked from
        if self.ex.discharge_cache_hit(self, c):
            pass
        neg = z3.BoolVal(True) if c is False else z3.Not(c)
        g = [x for x in self.guards if x is not True]
        t0 = time.time()
        self.ex.deadline_check()
        self.solver.push()
        for x in g:
            self.solver.add(x)
        self.solver.add(neg)
        self.solver.set('timeout', self.ex.prove_ms)
        r = self.solver.check()
        model = None
        backend = 'z3'
        if r == z3.sat:
            model = self.solver.model()
        elif r == z3.unknown:
            s2 = z3.SolverFor('QF_UFBV')
            s2.set('timeout', self.ex.prove_ms * 2)
            s2.add(self.solver.assertions())
            r = s2.check()
            backend = 'z3/QF_UFBV'
            if r == z3.sat:
                model = s2.model()
            elif r == z3.unknown:
                r2 = self.ex.cvc5(self.solver)
                if r2 is not None:
                    backend = 'cvc5'
                    r = r2
        self.solver.pop()
        self.solver.set('timeout', self.ex.feas_ms)
        dt = time.time() - t0
        self.ex.solver_time += dt
        self.ex.queries += 1
        if r == z3.unsat:
            self._obl(label, kind, 'discharged', backend, dt)
            return True
        if r == z3.sat:
            # confirm that the path itself is feasible
            o = self._obl(label, kind, 'failed', backend, dt, str(c)[:2000], model)
            o.detail = 'violated: %s' % (str(c)[:1500],)
            o.hazy = self.hazy
            if model_info is not None and model is not None:
                try:
                    o.model = model_info(model)
                except Exception as e:      # the model is a hint only
                    o.model = 'model not translated: %r' % (e,)
            else:
                o.model = str(model)[:3000] if model is not None else None
            return False
        self._obl(label, kind, 'undecided', backend, dt, str(c)[:1500])
        return False

    def require(self, c, label, kind='safety', model_info=None):
        """obligation after which the path continues under the proved condition"""
        c = simp(c)
        if c is True:
            self._obl(label, kind, 'discharged', 'simplifier', 0.0)
            return
        self.prove(c, label, kind, model_info)
        if c is False:
            raise PathEnd()
        if not self.guards:
            self.solver.add(c)

    def _obl(self, label, kind, status, backend, secs, detail='', model=None):
        o = Obligation(self.fnstack[-1] if self.fnstack else self.ex.name, label, kind, status, backend, secs, detail, model)
        if not self.replaying or self.spec:
            self.obls.append(o)
        return o

    def dec_choose(self, n):
        """a choice whose alternatives are added by the caller (Explorer.push) as it finds them; starts with all n known"""
        if self.spec or self.pure:
            raise SpecAbort()
        if self.replaying:
            d = self.prefix[len(self.dec)]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.ex.push(tuple(self.dec) + (k,))
        self.dec.append(d)
        return d

    def app(self, name, args, build):
        """application of an opaque specification function: same arguments, same result"""
        lst = self.apps.setdefault(name, [])
        for a, r in lst:
            if len(a) == len(args) and all(val_same(x, y) for x, y in zip(a, args)):
                return r
        r = build(self.fresh_name(name))
        for a, r2 in lst:
            eqs = []
            try:
                for x, y in zip(a, args):
                    e = eq_formula(self, x, y)
                    eqs.append(e)
                    if e is False:
                        break
                e = And(*eqs)
                if e is False:
                    continue
                self.fact(Implies(e, eq_formula(self, r, r2)))
            except ToolLimit:
                pass
        lst.append((args, r))
        return r


class Explorer:
    def __init__(self, name, feas_ms=3000, prove_ms=20000, budget_s=240, max_paths=6000):
        self.name = name
        self.feas_ms, self.prove_ms, self.budget_s, self.max_paths = feas_ms, prove_ms, budget_s, max_paths
        self.solver_time = 0.0
        self.queries = 0
        self.obls = []
        self.paths = 0
        self.ended = 0
        self.t0 = time.time()
        self.work = []
        self.scale = 1
        self.tree, self.answers = {}, {}
        self.persist = {}      # loop havoc sets, Houdini candidates
        self.completed = 0

    def tick(self):
        pass

    def deadline_check(self):
        if time.time() - self.t0 > self.budget_s:
            raise ToolLimit('time budget of %d s exceeded in %s' % (self.budget_s, self.name))

    def push(self, prefix):
        self.work.append(prefix)

    def discharge_cache_hit(self, p, c):
        return False

    def cvc5(self, solver):
        import subprocess, tempfile, os
        try:
            txt = '(set-logic ALL)\n' + solver.to_smt2()
            f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
            f.write(txt)
            f.close()
            try:
                o = subprocess.run(['cvc5', '--tlimit=%d' % self.prove_ms, f.name], stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, text=True, timeout=self.prove_ms / 1000 + 10).stdout
            finally:
                os.unlink(f.name)
            if o.startswith('unsat'):
                return z3.unsat
        except Exception:
            pass
        return None

    def run(self, body):
        """body(path) executes the whole verification harness; restarted until loop information is stable"""
        for attempt in range(40):
            self.work = [()]
            self.tree, self.answers = {}, {}
            self.obls, self.paths, self.completed, self.ended = [], 0, 0, 0
            try:
                while self.work:
                    pre = self.work.pop()
                    self.paths += 1
                    if self.paths > self.max_paths:
                        raise ToolLimit('more than %d paths in %s' % (self.max_paths, self.name))
                    p = Path(self, pre)
                    try:
                        body(p)
                        self.completed += 1
                    except PathEnd:
                        self.ended += 1
                    except SpecAbort:
                        raise ToolLimit('speculation abort escaped')
                    except CannotMerge as e:
                        raise ToolLimit('cannot merge values: %s' % e)
                    self.obls += p.obls
                return
            except Restart:
                continue
        raise ToolLimit('loop information did not stabilise in %s' % self.name)


# --- equality of values -------------------------------------------------------------------------------
def eq_formula(p, a, b, depth=0):
    """a formula equivalent to a == b (Python bool or z3 Bool); ToolLimit where none is available"""
    if a is b:
        return True
    if isinstance(a, LazyIte) or isinstance(b, LazyIte):
        w = 64
        for x in (a, b):
            if is_sym(x):
                w = x.size()
        return Eq(to_w(a, w), to_w(b, w))
    if isinstance(a, (bool, int, z3.ExprRef)) and isinstance(b, (bool, int, z3.ExprRef)):
        return Eq(a, b)
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_eq_formula(p, a, b)
    if isinstance(a, SpanV) and isinstance(b, SpanV):
        return seq_eq_formula(p, a.seq(p), b.seq(p))
    if isinstance(a, Rec) and isinstance(b, Rec):
        if a.cls != b.cls:
            return False
        if a.f.keys() != b.f.keys():
            raise ToolLimit('records of different shape %s' % a.cls)
        return And(*[eq_formula(p, a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, Opt) and isinstance(b, Opt):
        parts = [Eq(a.has, b.has)]
        if a.has is not False and b.has is not False:
            if a.val is not None and b.val is not None:
                parts.append(Implies(a.has, eq_formula(p, a.val, b.val)))
        if a.has is not True and b.has is not True:
            if a.err is not None and b.err is not None:
                parts.append(Implies(Not(a.has), eq_formula(p, a.err, b.err)))
        return And(*parts)
    if a is None and b is None:
        return True
    if isinstance(a, Null) and isinstance(b, Null):
        return True
    if isinstance(a, Null) != isinstance(b, Null):
        return False
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        if key_same(a.key, b.key):
            return True
        if is_sym(a.key) and is_sym(b.key) and a.key.sort() == b.key.sort():
            return a.key == b.key
        if a.kind != b.kind:
            return False
        raise ToolLimit('equality of opaque values %r %r' % (a, b))
    if isinstance(a, FnSpec) and isinstance(b, FnSpec):
        if key_same(a.key, b.key):
            return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.lv.key() == b.lv.key():
            if a.idx is None and b.idx is None:
                return True
            return Eq(a.idx, b.idx)
        return False
    if isinstance(a, UPtr) and isinstance(b, UPtr):
        return a.cell is b.cell
    if isinstance(a, IterV) and isinstance(b, IterV):
        return Eq(a.idx, b.idx)
    raise ToolLimit('equality of %s and %s' % (type(a).__name__, type(b).__name__))


def strip_common(p, a, b):
    xs = list(a.parts) if isinstance(a, Cat) else [a]
    ys = list(b.parts) if isinstance(b, Cat) else [b]
    xs = [x for x in xs if not same(x.len, 0)]
    ys = [y for y in ys if not same(y.len, 0)]
    while xs and ys and seq_same(xs[0], ys[0]):
        xs.pop(0), ys.pop(0)
    while xs and ys and seq_same(xs[-1], ys[-1]):
        xs.pop(), ys.pop()
    return xs, ys


def seq_eq_formula(p, a, b):
    if seq_same(a, b):
        return True
    if isinstance(a, IteSeq):
        return simp(z3.If(a.c, zb(seq_eq_formula(p, a.a, b)), zb(seq_eq_formula(p, a.b, b))))
    if isinstance(b, IteSeq):
        return seq_eq_formula(p, b, a)
    if not is_sym(a.len) and not is_sym(b.len):
        if a.len != b.len:
            return False
        if a.len <= 4096:
            return And(*[eq_formula(p, a.at(p, i), b.at(p, i)) for i in range(a.len)])
    if not is_sym(a.len) or not is_sym(b.len):
        l, o = (a, b) if not is_sym(a.len) else (b, a)
        if l.len <= 4096:
            if l.len == 0:
                return Eq(o.len, 0)
            c = Eq(o.len, l.len)
            if c is False:
                return False
            return And(c, *[eq_formula(p, l.at(p, i), o.at(p, i)) for i in range(l.len)])
    if isinstance(a, Base) and isinstance(b, Base) and a.et is None and b.et is None:
        ext(p, a, b)
        return a.t == b.t
    xs, ys = strip_common(p, a, b)
    if len(xs) < (len(a.parts) if isinstance(a, Cat) else 1):
        return seq_eq_formula(p, cat(*xs), cat(*ys))
    # pairwise when the pieces line up syntactically
    if isinstance(a, Cat) and isinstance(b, Cat) and len(a.parts) == len(b.parts) and \
            all(same(x.len, y.len) for x, y in zip(a.parts, b.parts)):
        return And(*[seq_eq_formula(p, x, y) for x, y in zip(a.parts, b.parts)])
    sa, sb = (a if isinstance(a, Slice) else Slice(a, 0, a.len)), (b if isinstance(b, Slice) else Slice(b, 0, b.len))
    if seq_same(sa.s, sb.s) and same(sa.off, sb.off):
        return Eq(sa.len, sb.len)
    # both are octet sequences: introduce the equality as a quantified definition
    if octets(a) and octets(b):
        k = p.fresh('eqi', B64)
        bd = p.freshbool('seqeq')
        j = z3.BitVec('eqj', 64)
        body = z3.Implies(z3.ULT(j, bv(a.len, 64)), zb(eq_formula(p, a.at(p, j), b.at(p, j))))
        p.fact(z3.Implies(bd, z3.And(zb(Eq(a.len, b.len)), z3.ForAll([j], body))))
        p.fact(z3.Implies(z3.Not(bd), z3.Or(zb(Not(Eq(a.len, b.len))),
                                            z3.And(z3.ULT(k, bv(a.len, 64)), zb(Not(eq_formula(p, a.at(p, k), b.at(p, k))))))))
        return bd
    raise ToolLimit('no equality formula for %r and %r' % (a, b))


def octets(s):
    if isinstance(s, Base):
        return s.et is None
    if isinstance(s, Slice) or isinstance(s, Upd):
        return octets(s.s)
    if isinstance(s, Cat):
        return all(octets(x) for x in s.parts)
    if isinstance(s, Lit):
        return all(isinstance(x, int) or is_sym(x) for x in s.e)
    if isinstance(s, Rep):
        return isinstance(s.v, int) or is_sym(s.v)
    if isinstance(s, IteSeq):
        return octets(s.a) and octets(s.b)
    return isinstance(s, FnSeq)


def ext(p, a, b):
    """extensionality for two opaque octet sequences"""
    d = UF('sdiff', Str, Str, B64)(a.t, b.t)
    p.fact(z3.Or(a.t == b.t, slen(a.t) != slen(b.t), z3.And(z3.ULT(d, slen(a.t)), sbyte(a.t, d) != sbyte(b.t, d))))


def simp_b(c):
    return zb(simp(c))


def prove_eq(p, a, b, label, kind='post', info=None):
    """prove a == b, value-directed (sequences by extensionality at a fresh index)"""
    if val_same(a, b):
        p.prove(True, label, kind)
        return True
    if isinstance(a, Rec) and isinstance(b, Rec) and a.cls == b.cls and a.f.keys() == b.f.keys():
        r = True
        for k in a.f:
            r = prove_eq(p, a.f[k], b.f[k], '%s.%s' % (label, k), kind, info) and r
        return r
    if isinstance(a, Opt) and isinstance(b, Opt):
        if not p.prove(Eq(a.has, b.has), label + ': has_value', kind, info):
            return False
        has = a.has if not is_sym(a.has) else b.has
        if is_sym(has):
            has = p.decide(has)
        if has:
            if a.val is None and b.val is None:
                return True
            return prove_eq(p, a.val, b.val, label, kind, info)
        if a.err is None or b.err is None:
            return True
        return prove_eq(p, a.err, b.err, label + ': error', kind, info)
    if isinstance(a, SpanV):
        a = a.seq(p)
    if isinstance(b, SpanV):
        b = b.seq(p)
    if isinstance(a, Seq) and isinstance(b, Seq):
        return prove_seq_eq(p, a, b, label, kind, info)
    return p.prove(eq_formula(p, a, b), label, kind, info)


def prove_seq_eq(p, a, b, label, kind='post', info=None):
    xs, ys = strip_common(p, a, b)
    a2, b2 = cat(*xs), cat(*ys)
    if seq_same(a2, b2):
        return p.prove(True, label, kind)
    if not p.prove(Eq(a2.len, b2.len), label + ': length', kind, info):
        return False
    if same(a2.len, 0) or same(b2.len, 0):
        return True
    if not is_sym(a2.len) and not is_sym(b2.len) and a2.len != b2.len:
        return True         # unreachable path: the lengths were proved equal
    # Cat-free common case: piecewise when pieces have provably the same lengths
    xs, ys = [x for x in xs], [y for y in ys]
    while xs and ys and (len(xs) > 1 or len(ys) > 1):
        x, y = xs[0], ys[0]
        if seq_same(x, y):
            xs.pop(0), ys.pop(0)
            continue
        if p.entails(Eq(x.len, y.len), ms=4000):
            r = prove_seq_eq(p, x, y, label, kind, info)
            if not r:
                return False
            xs.pop(0), ys.pop(0)
            continue
        if isinstance(x, Lit) and isinstance(y, Lit):
            k = min(len(x.e), len(y.e))
            if not prove_seq_eq(p, Lit(x.e[:k]), Lit(y.e[:k]), label, kind, info):
                return False
            xs[0:1] = [Lit(x.e[k:])] if len(x.e) > k else []
            ys[0:1] = [Lit(y.e[k:])] if len(y.e) > k else []
            continue
        if isinstance(x, (Slice, Base)) and isinstance(y, Slice) or isinstance(x, Slice):
            sx = x if isinstance(x, Slice) else Slice(x, 0, x.len)
            sy = y if isinstance(y, Slice) else Slice(y, 0, y.len) if isinstance(y, Base) else None
            if sy is not None and seq_same(sx.s, sy.s) and p.entails(Eq(sx.off, sy.off), ms=2000):
                if p.entails(ule(sx.len, sy.len), ms=2000):
                    xs.pop(0)
                    ys[0] = Slice(sy.s, add(sy.off, sx.len), sub(sy.len, sx.len))
                    continue
                if p.entails(ule(sy.len, sx.len), ms=2000):
                    ys.pop(0)
                    xs[0] = Slice(sx.s, add(sx.off, sy.len), sub(sx.len, sy.len))
                    continue
        break
    a2, b2 = cat(*xs), cat(*ys)
    if seq_same(a2, b2):
        return p.prove(True, label, kind)
    if same(a2.len, 0) or same(b2.len, 0):
        return p.prove(Eq(a2.len, b2.len), label + ': length', kind, info)
    if isinstance(a2, Slice) and isinstance(b2, Slice) and seq_same(a2.s, b2.s) and p.entails(Eq(a2.off, b2.off), ms=2000):
        return True
    n = a2.len if not is_sym(a2.len) else b2.len
    if not is_sym(n) and n <= 64:
        r = True
        for i in range(n):
            r = prove_eq(p, a2.at(p, i), b2.at(p, i), '%s[%d]' % (label, i), kind, info) and r
        return r
    k = p.fresh('idx', B64)
    # local assumption k < len: sound because k is fresh
    p.guards.append(z3.ULT(k, bv(n, 64)))
    try:
        x, y = a2.at(p, k), b2.at(p, k)
        if isinstance(x, Seq) or isinstance(y, Seq) or isinstance(x, Rec):
            r = True
            if isinstance(x, Rec) and isinstance(y, Rec):
                for f in x.f:
                    r = p.prove(eq_formula(p, x.f[f], y.f[f]), '%s[*].%s' % (label, f), kind, info) and r
                return r
        return p.prove(eq_formula(p, x, y), label + '[*]', kind, info)
    finally:
        p.guards.pop()

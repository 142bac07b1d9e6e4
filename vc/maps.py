"""std::map / std::unordered_map with integer keys and symbolic contents.

A map value is a symbolic base (which keys it has, their values, its size, an enumeration of its keys) and the updates
made since.  Iteration follows the base's enumeration; an element erased since must not be touched."""
from .sym import *


class MapBase:
    """has(k), val(k): contents; n: size; key(i), i < n: the keys in iteration order"""

    def __init__(self, p, name, kw, val, empty=False):
        self.name, self.kw, self._val = name, kw, val
        ks = z3.BitVecSort(kw)
        self.id = p.fresh(name, Obj)
        self.hasf = UF('map.has%d' % kw, Obj, ks, z3.BoolSort())
        self.keyf = UF('map.key%d' % kw, Obj, B64, ks)
        self.posf = UF('map.pos%d' % kw, Obj, ks, B64)
        self.empty = empty
        self.n = 0 if empty else UF('map.size', Obj, B64)(self.id)
        self.vals = {}
        if not empty:
            p.fact(z3.ULE(self.n, z3.BitVecVal(1 << 32, 64)))

    def has(self, p, k):
        if self.empty:
            return False
        k = bv(k, self.kw)
        h = self.hasf(self.id, k)
        q = self.posf(self.id, k)
        p.fact(z3.Implies(h, z3.And(z3.ULT(q, self.n), self.keyf(self.id, q) == k)))
        return h

    def key(self, p, i):
        i = bv(i, 64)
        k = self.keyf(self.id, i)
        p.fact(z3.Implies(z3.ULT(i, self.n), z3.And(self.hasf(self.id, k), self.posf(self.id, k) == i)))
        return k

    def val(self, p, k):
        return self._val(p, self, bv(k, self.kw))


class MapV:
    __slots__ = ('base', 'ups')

    def __init__(self, base, ups=()):
        self.base, self.ups = base, tuple(ups)

    def has(self, p, k):
        r = self.base.has(p, k)
        for uk, uv in self.ups:
            r = Ite_b(Eq(bv(k, self.base.kw), bv(uk, self.base.kw)), uv is not None, r)
        return r

    def get(self, p, k):
        """value at k; the caller knows that it is there"""
        for uk, uv in reversed(self.ups):
            if p.decide(Eq(bv(k, self.base.kw), bv(uk, self.base.kw))):
                if uv is None:
                    raise ToolLimit('value of a key that was erased')
                return uv
        return self.base.val(p, k)

    def put(self, k, v):
        return MapV(self.base, self.ups + ((k, v),))

    def size(self, p):
        n = self.base.n
        cur = MapV(self.base)
        for uk, uv in self.ups:
            h = cur.has(p, uk)
            if uv is None:
                n = Ite(h, sub(n, 1), n, 64)
            else:
                n = Ite(h, n, add(n, 1), 64)
            cur = cur.put(uk, uv)
        return n

    def __repr__(self):
        return 'Map(%s%s)' % (self.base.name, ''.join(', %s:%s' % (k, 'erased' if v is None else v) for k, v in self.ups))


def Ite_b(c, a, b):
    return Or(And(c, a), And(Not(c), b))


class MIter(IterV):
    """position in the enumeration of a map"""
    __slots__ = ()


class MFound:
    """iterator to the entry of a key"""
    __slots__ = ('lv', 'k')

    def __init__(self, lv, k):
        self.lv, self.k = lv, k


class LVMapEnt(LV):
    __slots__ = ('base', 'k')

    def __init__(self, base, k):
        self.base, self.k = base, k

    def load(self, p):
        return Rec('pair', {'first': self.k, 'second': self.base.load(p).get(p, self.k)})

    def store(self, p, v, sub=()):
        self.base.store(p, self.base.load(p).put(self.k, v.f['second']), ('[]',))

    def key(self):
        return self.base.key() + ('[]', str(self.k))


def as_map(I, lv, ot):
    v = lv.load(I.p)
    if isinstance(v, Lit) and not v.e and I.is_scalar(ot.args[0]):
        v = MapV(MapBase(I.p, 'empty', I.width(ot.args[0]), None, True))
        lv.store(I.p, v)
    return v


def it_key(I, it):
    """key an iterator refers to; it must not be the end, nor erased"""
    p = I.p
    m = it.lv.load(p)
    if isinstance(it, MFound):
        k = it.k
    else:
        p.require(ult(it.idx, m.base.n), 'iterator of a map is not the end')
        k = m.base.key(p, it.idx)
    p.require(m.has(p, k), 'iterator of a map refers to an element that is still there')
    return k


def method(I, lv, ot, name, args, node, L):
    p = I.p
    m = as_map(I, lv, ot)
    if not isinstance(m, MapV):
        raise ToolLimit('%s::%s' % (ot.name, name))

    def key(a):
        return L.coerce(I, L.load(I, I.ev(a)), I.T(a), ot.args[0])

    def drop(k):
        """destroy and remove the entry"""
        vt = ot.args[1]
        if L.needs_destroy(I, vt):
            L.destroy(I, LVField(LVMapEnt(lv, k), 'second'), vt)
        lv.store(p, lv.load(p).put(k, None), ('[]',))
    if name == 'size':
        return m.size(p)
    if name == 'empty':
        return Eq(m.size(p), 0)
    if name in ('begin', 'cbegin'):
        return MIter(lv, 0)
    if name in ('end', 'cend'):
        return MIter(lv, m.base.n)
    if name in ('contains', 'count'):
        h = m.has(p, key(args[0]))
        return h if name == 'contains' else Ite(h, 1, 0, 64)
    if name == 'find':
        k = key(args[0])
        return MFound(lv, k) if p.decide(m.has(p, k)) else MIter(lv, m.base.n)
    if name == 'at':
        k = key(args[0])
        if not p.decide(m.has(p, k)):
            raise CppThrow('std::out_of_range')
        return LVField(LVMapEnt(lv, k), 'second')
    if name == 'operator[]':
        k = key(args[0])
        if not p.decide(m.has(p, k)):
            lv.store(p, m.put(k, I.default(ot.args[1])), ('[]',))
        return LVField(LVMapEnt(lv, k), 'second')
    if name in ('insert_or_assign', 'emplace', 'try_emplace') and len(args) == 2:
        k = key(args[0])
        there = p.decide(m.has(p, k))
        if there and name != 'insert_or_assign':
            I.ev(args[1])
            return Rec('pair', {'first': MFound(lv, k), 'second': False})
        r = I.ev(args[1])
        v = L.coerce(I, L.load(I, r), I.T(args[1]), ot.args[1])
        if args[1].get('valueCategory') == 'xvalue' and isinstance(r, LV):
            L.move_out(I, r, I.T(args[1]).strip())
        if there:
            drop(k)
        lv.store(p, lv.load(p).put(k, v), ('[]',))
        return Rec('pair', {'first': MFound(lv, k), 'second': not there})
    if name == 'erase' and len(args) == 1:
        a = L.load(I, I.ev(args[0]))
        if isinstance(a, (MIter, MFound)):
            k = it_key(I, a)
            drop(k)
            return MIter(lv, add(a.idx, 1)) if isinstance(a, MIter) else Opaque('iterator', 0)
        k = L.coerce(I, a, I.T(args[0]), ot.args[0])
        if p.decide(m.has(p, k)):
            drop(k)
            return 1
        return 0
    if name == 'clear' and not m.ups and m.base.empty:
        return None
    if name == 'reserve':
        I.ev(args[0])
        return None
    raise ToolLimit('%s::%s' % (ot.name, name))

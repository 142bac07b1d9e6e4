"""DynamicTable: a size-bounded FIFO (RFC 7541 section 4)."""
from vc.verify import *
from vc.fold import SearchFold, not_before

MAXT = 1 << 30          # class invariant: the maximum stays below this (constructor arguments and size updates are bounded)


def hsize(h):
    return add(add(h.f['name'].len, h.f['value'].len), 32)


def psum(p, T, k):
    """sum of the sizes of the first k entries of T (a mathematical prefix sum; facts are instances of its definition)"""
    S = UF('psum', Obj, B64, B64)
    s = S(T.t, bv(k, 64))
    n = S(T.t, bv(T.len, 64))
    p.fact(S(T.t, z3.BitVecVal(0, 64)) == 0)
    k1 = add(k, 1)
    e = hsize(T.at(p, k))
    p.fact(zb(Implies(ult(k, T.len), And(Eq(S(T.t, bv(k1, 64)), simp(s + bv(e, 64))), ule(S(T.t, bv(k1, 64)), n)))))
    p.fact(zb(Implies(ule(k, T.len), And(ule(s, n), ule(s, 1 << 62)))))
    km = sub(k, 1)
    em = hsize(T.at(p, km))
    p.fact(zb(Implies(And(ult(0, k), ule(k, T.len)), Eq(s, simp(S(T.t, bv(km, 64)) + bv(em, 64))))))
    p.fact(zb(Implies(And(ult(0, k), ule(k, T.len)), And(ule(32, em), ule(em, 1 << 61), ule(S(T.t, bv(km, 64)), 1 << 61)))))
    return s


def mk_table(I, p):
    t = parse_type('ion::DynamicTable')
    v = I.symbolic(t, 'table')
    for f in ('table_', 'table_size_', 'max_table_size_'):
        if f not in v.f:
            raise ToolLimit('DynamicTable has no member %s' % f)
    T = v.f['table_']
    if not isinstance(T, Base):
        raise ToolLimit('representation of DynamicTable')
    mx = v.f['max_table_size_']
    p.assume(ule(mx, MAXT))
    sz = psum(p, T, T.len)
    p.assume(ule(sz, mx))
    p.assume(ule(T.len, MAXT))
    v = v.with_('table_size_', sz)
    return p.newlv('table', v, t), T, sz, mx


class Evict:
    """loop rule: the table is a prefix of the entries it had, its size is their prefix sum, and one entry more would not fit"""

    def __init__(self):
        self.need = 0

    def entry(self, st):
        pass

    def havoc(self, st, lv, t, loc, old):
        p = st.p
        if isinstance(old, Seq):
            return Slice(self.T, 0, self.k(p))
        if lv.key() == self.size_key:
            return psum(p, self.T, self.k(p))
        raise ToolLimit('the eviction loop changes something else')

    def k(self, p):
        if 'k' not in p.ghost:
            k = p.ghost['k'] = p.freshbv('kept', 64)
            p.assume(ule(k, self.T.len))
            self.inv(p, k, p.assume)
        return p.ghost['k']

    def inv(self, p, k, use):
        psum(p, self.T, k)
        use(Or(Eq(k, self.T.len), ult(self.mx, add(psum(p, self.T, add(k, 1)), self.need))))

    def head(self, st):
        if st.locs:
            self.k(st.p)

    def back(self, st):
        p = st.p
        for lv, t, loc in st.items():
            v = lv.load(p)
            if isinstance(v, Seq):
                k2 = v.len
                p.prove(ult(k2, p.ghost['k']), 'each round of the eviction loop removes an entry', 'decreases')
                prove_eq(p, v, Slice(self.T, 0, k2), 'only the oldest entries are removed', 'inv')
                p.ghost['k2'] = k2
        k2 = p.ghost.get('k2')
        if k2 is None:
            raise ToolLimit('eviction loop without a table')
        for lv, t, loc in st.items():
            if lv.key() == self.size_key:
                p.prove(Eq(lv.load(p), psum(p, self.T, k2)), 'the size is the sum over the remaining entries', 'inv')
        self.inv(p, k2, lambda c: p.prove(c, 'no more entries are removed than needed', 'inv'))

    def exit(self, st):
        pass


def unit_evicting(op):
    rule = Evict()

    def h(I, p):
        tab, T, sz, mx = mk_table(I, p)
        rule.T, rule.mx, rule.size_key = T, mx, LVField(tab, 'table_size_').key()
        cls = 'DynamicTable'
        if op == 'insert':
            hdr = I.symbolic(parse_type('ion::HttpHeader'), 'header')
            e = hsize(hdr)
            for f in ('name', 'value'):
                p.fact(ule(hdr.f[f].len, 1 << 60))
            rule.need = e
            hl = p.newlv('header', hdr, parse_type('ion::HttpHeader'))
            I.exec_function(the_fn(I, cls, 'insert'), tab, [hl])
            front, newmax = Lit([hdr]), mx
        else:
            newmax = p.freshbv('new_max', 64)
            p.assume(ule(newmax, MAXT))
            rule.mx, rule.need, e = newmax, 0, 0
            I.exec_function(the_fn(I, cls, 'set_max_table_size'), tab, [newmax])
            front = Lit([])
        v = tab.load(p)
        R, s2 = v.f['table_'], v.f['table_size_']
        p.prove(Eq(v.f['max_table_size_'], newmax), 'the maximum is the one last set', 'frame')
        info = lambda m: dict(op='table')
        if op == 'insert' and p.decide(ult(newmax, e)):
            prove_eq(p, R, Lit([]), 'an entry larger than the maximum leaves the table empty', 'post', info)
            p.prove(Eq(s2, 0), 'and its size 0', 'post', info)
            return
        k = sub(R.len, front.len)
        p.prove(And(ule(front.len, R.len), ule(k, T.len)), 'entries are only added by insertion', 'post', info)
        prove_eq(p, R, cat(front, Slice(T, 0, k)), 'the new entry is at index 0, only oldest entries are evicted', 'post', info)
        p.prove(Eq(s2, add(psum(p, T, k), e)), 'the size is the sum over the entries', 'post', info)
        x, y, m = (p.freshbv(n, 64) for n in ('x', 'y', 'm'))
        room = lambda x, y, m: Implies(And(ule(y, m), ule(x, sub(m, y))), And(ule(add(x, y), m), ule(x, add(x, y))))
        p.prove(room(x, y, m), 'what fits into the room left fits', 'lemma')
        p.fact(zb(room(psum(p, T, k), e, newmax)))
        p.prove(ule(s2, newmax), 'the size does not exceed the maximum', 'post', info)
        p.prove(Or(Eq(k, T.len), ult(newmax, add(psum(p, T, add(k, 1)), e))), 'only as many entries are evicted as needed', 'post', info)
    f = 'DynamicTable::' + ('insert' if op == 'insert' else 'set_max_table_size')
    return Unit(f, f, h, rules={'*': lambda I, k, n: rule})


def unit_find(name_only):
    fname = 'find_name' if name_only else 'find'
    rule = SearchFold()

    def h(I, p):
        tab, T, sz, mx = mk_table(I, p)
        hdr = I.symbolic(parse_type('ion::HttpHeader'), 'header')
        hl = p.newlv('header', hdr, parse_type('ion::HttpHeader'))

        def match(j):
            x = T.at(p, j)
            c = eq_formula(p, x.f['name'], hdr.f['name'])
            return c if name_only else And(c, eq_formula(p, x.f['value'], hdr.f['value']))
        rule.n, rule.pred = T.len, match
        arg = p.newlv('name', hdr.f['name'], parse_type('std::string')) if name_only else hl
        before = tab.load(p)
        r = I.exec_function(the_fn(I, 'DynamicTable', fname), tab, [arg])
        j = p.freshbv('other', 64)
        L.first_instance(I, j)
        not_before(p, j, None)
        info = lambda m: dict(op='table')
        if p.decide(r.has):
            p.prove(ult(r.val, T.len), 'the index found is in the table', 'post', info)
            p.prove(match(r.val), 'the entry at the index found matches', 'post', info)
            p.prove(Implies(ult(j, r.val), Not(match(j))), 'no lower index matches', 'post', info)
        else:
            p.prove(Implies(ult(j, T.len), Not(match(j))), 'nothing is found only if nothing matches', 'post', info)
        prove_eq(p, tab.load(p), before, 'looking up changes nothing', 'frame')
    f = 'DynamicTable::' + fname
    return Unit(f, f, h, rules={'*': lambda I, k, n: rule})


def unit_access():
    def h(I, p):
        tab, T, sz, mx = mk_table(I, p)
        before = tab.load(p)
        i = p.freshbv('index', 64)
        p.assume(ult(i, T.len))
        g = I.exec_function(the_fn(I, 'DynamicTable', 'get'), tab, [i])
        g = g.load(p) if isinstance(g, LV) else g
        prove_eq(p, g, T.at(p, i), 'get returns the entry at the index', 'post')
        p.prove(Eq(I.exec_function(the_fn(I, 'DynamicTable', 'count'), tab, []), T.len), 'count is the number of entries', 'post')
        s = I.exec_function(the_fn(I, 'DynamicTable', 'size'), tab, [])
        p.prove(Eq(z3.ZeroExt(32, bv(s, 32)) if is_sym(s) and s.size() == 32 else s, sz), 'the size reported is the sum over the entries', 'post')
        p.prove(Eq(I.exec_function(the_fn(I, 'DynamicTable', 'max_size'), tab, []), mx), 'the maximum reported is the one in force', 'post')
        prove_eq(p, tab.load(p), before, 'reading changes nothing', 'frame')
        n = p.freshbv('max', 64)
        t2 = construct(I, 'DynamicTable', [n])
        v = t2.load(p)
        prove_eq(p, v.f['table_'], Lit([]), 'a new table is empty', 'post')
        p.prove(And(Eq(v.f['table_size_'], 0), Eq(v.f['max_table_size_'], n)), 'a new table has size 0 and the maximum given', 'post')
    return Unit('DynamicTable constructor, get, count, size, max_size', 'DynamicTable::get', h)


def units_c05():
    return [unit_evicting('insert'), unit_evicting('set'), unit_find(False), unit_find(True), unit_access()]


def unit_setmax_lemma():
    """over the contract of set_max_table_size: the entries kept are the longest prefix that fits"""
    def h(I, p):
        tab, T, sz, mx = mk_table(I, p)
        a, n = p.freshbv('a', 64), p.freshbv('n', 64)
        p.assume(And(ule(a, MAXT), ule(n, MAXT)))

        def kept(whole, limit, nm):
            k = p.freshbv(nm, 64)
            p.assume(And(ule(k, whole), ule(psum(p, T, k), limit)))
            p.assume(Or(Eq(k, whole), ult(limit, psum(p, T, add(k, 1)))))
            return k
        k1 = kept(T.len, a, 'k1')
        k2 = kept(k1, n, 'k2')
        k = kept(T.len, n, 'k')

        def mono(i, j):       # the prefix sums grow (by induction from their definition, each entry has at least 32)
            p.fact(zb(Implies(And(ule(i, j), ule(j, T.len)), ule(psum(p, T, i), psum(p, T, j)))))
        ks = [k1, k2, k, T.len]
        for i in ks:
            for j in ks:
                mono(i, j)
                mono(add(i, 1), j)
        if p.decide(Or(ule(n, a), ule(mx, a))):
            p.prove(Eq(k2, k), 'setting the maximum to a and then to n keeps what setting it to n keeps, if n <= a or a evicts nothing', 'lemma')
        n2 = kept(T.len, mx, 'same')
        mono(add(n2, 1), T.len)
        p.prove(Eq(n2, T.len), 'setting the maximum in force evicts nothing', 'lemma')
    return Unit('lemma: size updates compose', 'lemma', h)


# --- the table as an abstract state, for its users --------------------------------------------------------
def abs_table(I, p, name='table'):
    t = p.fresh(name, Obj)
    table_facts(p, t)
    return p.newlv(name, Rec('DynamicTable', {'#': Opaque('table', t)}), parse_type('ion::DynamicTable')), t


def table_facts(p, t):
    p.fact(ule(tcount(t), MAXT // 32))
    p.fact(ule(tmax(t), MAXT))


def tcount(t):
    return UF('table.count', Obj, B64)(t)


def tmax(t):
    return UF('table.max', Obj, B64)(t)


def tget(p, t, i):
    i = bv(i, 64)
    return Rec('HttpHeader', {'name': Base(p, UF('table.name', Obj, B64, Str)(t, i)), 'value': Base(p, UF('table.value', Obj, B64, Str)(t, i))})


def tinsert(p, t, h):
    def build(nm):
        r = z3.Const(nm, Obj)
        table_facts(p, r)
        p.fact(tmax(r) == tmax(t))
        return Opaque('table', r)
    return p.app('table_insert', (Opaque('table', t), h.f['name'], h.f['value']), build).key


def tsetmax(p, t, n):
    def build(nm):
        r = z3.Const(nm, Obj)
        table_facts(p, r)
        p.fact(zb(Eq(tmax(r), n)))
        return Opaque('table', r)
    return p.app('table_setmax', (Opaque('table', t), n), build).key


def tfind(p, t, h, name_only=False):
    """-> (found, index): the lowest index whose entry (name) equals h's"""
    def build(nm):
        has, i = z3.Bool(nm + '.found'), z3.BitVec(nm + '.index', 64)
        e = tget(p, t, i)
        c = eq_formula(p, e.f['name'], h.f['name'])
        if not name_only:
            c = And(c, eq_formula(p, e.f['value'], h.f['value']))
        p.fact(z3.Implies(has, zb(And(ult(i, tcount(t)), c))))
        return Rec('found', {'has': has, 'i': i})
    args = (Opaque('table', t), h.f['name']) + (() if name_only else (h.f['value'],))
    r = p.app('table_find_name' if name_only else 'table_find', args, build)
    return r.f['has'], r.f['i']


class TableOp:
    """contracts of DynamicTable (proved in C05) over the abstract state"""

    def __init__(self, op):
        self.op, self.name = op, 'DynamicTable::' + op

    def apply(self, I, this, vals):
        p = I.p
        v = this.load(p)
        t = v.f['#'].key
        vals = [x.load(p) if isinstance(x, LV) else x for x in vals]

        def put(t2):
            this.store(p, Rec('DynamicTable', {'#': Opaque('table', t2)}))
        if self.op == 'count':
            return tcount(t)
        if self.op == 'max_size':
            return tmax(t)
        if self.op == 'size':
            return p.freshbv('table.size', 32)
        if self.op == 'get':
            p.require(ult(vals[0], tcount(t)), 'precondition of DynamicTable::get: index below count', 'pre')
            return tget(p, t, vals[0])
        if self.op == 'insert':
            put(tinsert(p, t, vals[0]))
            return None
        if self.op == 'set_max_table_size':
            p.require(ule(vals[0], MAXT), 'precondition of DynamicTable::set_max_table_size: bounded maximum', 'pre')
            put(tsetmax(p, t, vals[0]))
            return None
        if self.op == 'find':
            has, i = tfind(p, t, vals[0])
            return Opt(has, i)
        if self.op == 'find_name':
            has, i = tfind(p, t, Rec('HttpHeader', {'name': vals[0]}), True)
            return Opt(has, i)
        return None


TABLE_OPS = lambda: [TableOp(o) for o in ('count', 'max_size', 'size', 'get', 'insert', 'set_max_table_size', 'find', 'find_name', 'log_contents')]

"""Header blocks (RFC 7541 section 6): HeaderBlockDecoder::decode, HeaderBlockEncoder::encode."""
from vc.verify import *
from vc.fold import AutoFold, kind_of
from oracles.rfc7541_tables import STATIC
from .hpack_int import *
from .hpack_huff import *
from .hpack_str import *
from .hpack_table import *

SIZE_LIMIT = 64 * 1024
SLIT = [Rec('HttpHeader', {'name': lit_of(n), 'value': lit_of(v)}) for n, v in STATIC]


class ReadString:
    """HeaderBlockDecoder::read_length_and_string(reader), proved in C04"""
    name = 'HeaderBlockDecoder::read_length_and_string'

    def apply(self, I, this, vals):
        p = I.p
        rd = vals[0]
        r = rd.load(p)
        d, pos = r.f['data_'], r.f['pos_']
        p.require(ule(pos, d.len), 'precondition of read_length_and_string: reader within its data', 'pre')
        ok, out, end = str_app(p, d.seq(p), pos)
        np = Ite(ok, end, p.freshbv('pos', 64), 64)
        p.fact(zb(And(ule(np, d.len), ule(pos, np))))
        rd.store(p, r.with_('pos_', np), ('pos_',))
        return Opt(ok, out, p.freshbv('str.error', 32), 'expected')


def str_app(p, s, pos):
    """the string literal of s at pos, as spec_string defines it"""
    def build(nm):
        out, end = Base(p, z3.Const(nm + '.str', Str)), z3.BitVec(nm + '.end', 64)
        ok = z3.Bool(nm + '.ok')
        p.fact(z3.Implies(ok, z3.And(z3.ULE(out.len, LIMIT), zb(ult(pos, end)), zb(ule(end, s.len)))))
        return Rec('str', {'ok': ok, 'out': out, 'end': end})
    r = p.app('hpack_str', (s, pos), build)
    return r.f['ok'], r.f['out'], r.f['end']


def read_str(I, p, s, pos):
    """by contract when the real code has the helper, by its definition otherwise"""
    if I.P.funcs.get('read_length_and_string'):
        ok, out, end = str_app(p, s, pos)
        return (out, end) if p.decide(ok) else None
    return spec_string(p, s, pos)


def split(p, v, lo, hi, part=None):
    """case split: lo <= v <= hi one by one, or v > hi (v stays symbolic); recorded for the contracts"""
    if not is_sym(v):
        return v
    ks = [k for k in range(lo, hi + 2) if part is None or k % part[1] == part[0]]
    k = ks[p.choose_case([z3.UGT(v, hi) if k == hi + 1 else v == k for k in ks])]
    if k == hi + 1:
        return v
    p.ghost.setdefault('known', {})
    p.ghost['known'] = dict(p.ghost['known'])
    p.ghost['known'][v.get_id()] = k
    return k


def spec_field(I, p, s, pos, t, part=None):
    """RFC 7541 section 6: the representation at pos (pos < len) with dynamic table t
    -> None (error) or (header or None, new position, new table)"""
    o = bv(s.at(p, pos), 8)
    # the kind of representation
    if p.decide(simp((o & 0x80) != 0)):
        kind, prefix = 'indexed', 7
    elif p.decide(simp((o & 0x40) != 0)):
        kind, prefix = 'incremental', 6
    elif p.decide(simp((o & 0x20) != 0)):
        kind, prefix = 'update', 5
    else:
        kind, prefix = 'literal', 4
    p.ghost['kind'] = kind
    ok, v, c, _ = int_app(p, s, pos, prefix)
    if not p.decide(ok):
        return None
    np = simp(bv(pos, 64) + c)
    if kind == 'update':
        if not p.decide(z3.ULE(v, SIZE_LIMIT)):
            return None
        return None, np, tsetmax(p, t, z3.ZeroExt(32, v))
    v = p.ghost.get('known', {}).get(v.get_id(), v)
    v = split(p, v, 0, len(STATIC), part)
    if is_sym(v):
        d = simp(z3.ZeroExt(32, v) - (len(STATIC) + 1))
        if not p.decide(ult(d, tcount(t))):
            return None
        e = tget(p, t, d)
    elif v == 0:
        if kind == 'indexed':
            return None
        r = read_str(I, p, s, np)
        if r is None:
            return None
        e, np = Rec('HttpHeader', {'name': r[0], 'value': None}), r[1]
    else:
        e = SLIT[v - 1]
    if kind == 'indexed':
        return e, np, t
    r = read_str(I, p, s, np)
    if r is None:
        return None
    h = Rec('HttpHeader', {'name': e.f['name'], 'value': r[0]})
    return h, r[1], tinsert(p, t, h) if kind == 'incremental' else t


class DecodeFold(AutoFold):
    start = 's'

    def __init__(self, part):
        self.part = part

    def begin(self, st):
        st.p.ghost['pos'] = 0

    def forms(self, p, after):
        return [('pos', p.ghost['pos2'] if after else p.ghost['pos'])]

    def arbitrary(self, st):
        p, G = st.p, st.p.ghost
        G['i'] = p.freshbv('fields', 64)
        G['pos'] = p.freshbv('pos', 64)
        p.assume(ule(G['pos'], self.data.len))
        G['out'] = Base(p, p.fresh('headers', Obj), self.I.elem_maker(parse_type('ion::HttpHeader')))
        G['t'] = p.fresh('table', Obj)
        table_facts(p, G['t'])

    def first(self, st):
        G = st.p.ghost
        G['pos'], G['out'], G['t'] = 0, Lit([]), self.t0

    def owns(self, st, loc, v):
        return isinstance(v, Rec) and '#' in v.f

    def other_value(self, st, loc, old):
        return Rec('DynamicTable', {'#': Opaque('table', st.p.ghost['t'])})

    def step(self, st):
        p, G = st.p, st.p.ghost
        G['g2'] = None
        G['path2'] = ()
        G['err'] = False
        if p.decide(ult(G['pos'], self.data.len)):
            r = spec_field(self.I, p, self.data, G['pos'], G['t'], self.part)
            if r is None:
                G['err'] = True
            else:
                G['g2'], G['emit'], G['pos2'], G['t2'] = 's', r[0], r[1], r[2]

    def check_seq(self, st, v):
        G = st.p.ghost
        prove_eq(st.p, v, cat(G['out'], Lit([G['emit']])) if G['emit'] is not None else G['out'], 'exactly the header the representation stands for is appended', 'inv', self.info)

    def check_other(self, st, loc, v):
        p, G = st.p, st.p.ghost
        p.prove(Eq(v.f['#'].key, G['t2']), 'the dynamic table changes as the representation says', 'inv', self.info)

    def back(self, st):
        G = st.p.ghost
        if G['gk'] is not None and G['err']:
            st.p.prove(False, 'an invalid representation makes the block an error', 'post', self.info)
            return
        AutoFold.back(self, st)


def unit_decode(part, nparts):
    rule = DecodeFold((part, nparts))

    def h(I, p):
        data = p.bytes_('block')
        p.assume(ule(data.len, 1 << 40))
        tab, t = abs_table(I, p)
        rule.data, rule.I, rule.t0 = data, I, t
        rule.info = lambda m: dict(op='block', octets=model_bytes(m, data, p.ghost.get('pos', 0), 24))
        dl = p.newlv('octets', data, parse_type('std::vector<unsigned char>'))
        from vc.interp import RefV
        dec = p.newlv('decoder', Rec('HeaderBlockDecoder', {'dynamic_table_': RefV(tab), 'huffman_tree_': Opaque('tree')}), parse_type('ion::HeaderBlockDecoder'))
        res = I.exec_function(the_fn(I, 'HeaderBlockDecoder', 'decode'), dec, [SpanV(dl, 0, data.len)])
        G = p.ghost
        if 'where' not in G:
            raise ToolLimit('the loop over the representations was not found')
        if G['where'] == 'exit':
            p.prove(Eq(G['pos'], data.len), 'every octet of the block is processed', 'post', rule.info)
            p.prove(res.has, 'a block of valid representations is decoded', 'post', rule.info)
            if res.has is not False:
                prove_eq(p, res.val, G['out'], 'the headers are those of the representations in order', 'post', rule.info)
            p.prove(Eq(tab.load(p).f['#'].key, G['t']), 'the dynamic table is the one after the last representation', 'post', rule.info)
        else:
            p.prove(And(G['err'], Not(res.has)), 'a block ends in an error only at an invalid representation', 'post', rule.info)
    return Unit('HeaderBlockDecoder::decode[index %% %d = %d]' % (nparts, part), 'HeaderBlockDecoder::decode', h,
                rules={'HeaderBlockDecoder::decode': lambda I, k, n: rule}, contracts=[IntDecode(), HuffDecode(), ReadString()] + TABLE_OPS(), ctx={'unroll': 80}, budget=400)


def units_c06():
    return [unit_decode(k, 8) for k in range(8)] + [unit_read_string()]


# --- the encoder --------------------------------------------------------------------------------------------
ENC_LIMIT = 65536        # the largest maximum the encoder is asked for (Http2Connection clamps what the peer announces)


class EncodeInt(IntEncode):
    """C02; what is encoded is recorded, so that reading it back can use the round-trip lemma"""

    def apply(self, I, this, vals):
        v, prefix = [x.load(I.p) if isinstance(x, LV) else x for x in vals]
        r = IntEncode.apply(self, I, this, vals)
        I.p.ghost.setdefault('encoded', []).append((v, prefix, r))
        return r


class WriteString:
    """HeaderBlockEncoder::write_length_and_string (C04): a literal that reads back as the string"""
    name = 'HeaderBlockEncoder::write_length_and_string'

    def apply(self, I, this, vals):
        p = I.p
        s = vals[0].load(p) if isinstance(vals[0], LV) else vals[0]
        p.require(ule(s.len, MAXSTR), 'precondition of write_length_and_string: at most 2^26 octets', 'pre')

        def build(nm):
            b = Base(p, z3.Const(nm, Str))
            p.fact(z3.UGE(b.len, 1))
            return b
        b = p.app('str_lit', (s,), build)
        p.ghost.setdefault('written', []).append((s, b))
        return b


def same_from(p, s, pos, e, skip=0):
    """does s[pos+skip..] start with e[skip..]?"""
    n = sub(e.len, skip)
    if not p.entails(ule(add(add(pos, skip), n), s.len)):
        return False
    f = eq_formula(p, slice_(p, s, add(pos, skip), n), slice_(p, e, skip, n))
    return f is True or p.entails(f)


def read_back_int(p, s, pos, prefix):
    """the integer of s at pos, by its definition when it is one octet, by the C02 lemma when the encoder wrote it"""
    mask = (1 << prefix) - 1
    o = bv(s.at(p, pos), 8)
    ok, v, c, _ = int_app(p, s, pos, prefix)
    p.fact(z3.Implies(z3.And(zb(ult(pos, s.len)), z3.ULT(o & mask, mask)), z3.And(ok, v == z3.ZeroExt(24, o & mask), c == 1)))
    if not is_sym(simp(o & mask)) and simp(o & mask) != mask:
        p.ghost['known'] = dict(p.ghost.get('known', {}))
        p.ghost['known'][v.get_id()] = simp(o & mask)
        return
    for val, pre, e in p.ghost.get('encoded', []):
        if pre == prefix and isinstance(e, Base):
            if p.entails(Eq(simp(o & mask), bv(e.at(p, 0), 8))) and same_from(p, s, pos, e, 1):
                int_roundtrip(p, s, pos, bv(val, 32), prefix, e)


def read_back(I, p, s, t):
    """facts that let spec_field read what the encoder appended: s = what it appended ++ anything"""
    o = bv(s.at(p, 0), 8)
    for bit, prefix in ((0x80, 7), (0x40, 6), (0x20, 5), (0, 4)):
        if bit == 0 or p.decide(simp((o & bit) != 0)):
            break
    read_back_int(p, s, 0, prefix)
    if prefix in (6, 4):
        c = int_app(p, s, 0, prefix)[2]
        pos = c
        for k in range(2):
            for st, e in p.ghost.get('written', []):
                if same_from(p, s, pos, e):
                    ok, out, end = str_app(p, s, pos)
                    p.fact(And(ok, zb(eq_formula(p, out, st)), zb(Eq(end, add(pos, e.len)))))     # lemma read(write(s)) = s
                    pos = add(pos, e.len)
                    break
            else:
                break


class EncodeFold(AutoFold):
    start = 's'

    def entry(self, st):
        p = st.p
        for lv, t, loc in st.items():
            v = lv.load(p)
            if kind_of(v) == 'seq':
                self.updates(p, v)
        AutoFold.entry(self, st)

    def updates(self, p, v):
        """the octets before the first header bring the decoder's table to the encoder's"""
        if p.ghost.get('updated') or not self.first_part:
            return
        p.ghost['updated'] = True
        s, t = v, self.td
        n = 0
        while p.decide(ult(0, s.len)):
            read_back(self.I, p, s, t)
            n += 1
            r = spec_field(self.I, p, s, 0, t) if n < 4 else None
            p.prove(r is not None and r[0] is None, 'only valid dynamic table size updates precede the fields', 'post', self.info)
            if r is None:
                return
            s, t = slice_(p, s, r[1], sub(s.len, r[1])), r[2]
        p.prove(Eq(t, self.tab.load(p).f['#'].key), 'the size updates bring the decoder\'s table to the encoder\'s', 'post', self.info)

    def arbitrary(self, st):
        p, G = st.p, st.p.ghost
        G['i'] = self.i
        G['out'] = p.bytes_('octets')
        G['t'] = p.fresh('table', Obj)
        table_facts(p, G['t'])
        p.ghost['encoded'], p.ghost['written'] = [], []

    def first(self, st):
        G = st.p.ghost
        G['out'], G['t'] = Lit([]), self.t0

    def owns(self, st, loc, v):
        return isinstance(v, Rec) and '#' in v.f

    def other_value(self, st, loc, old):
        return Rec('DynamicTable', {'#': Opaque('table', st.p.ghost['t'])})

    def step(self, st):
        p, G = st.p, st.p.ghost
        G['t'] = self.tab.load(p).f['#'].key
        G['g2'], G['path2'] = None, ()
        if p.decide(ult(G['i'], self.hs.len)):
            h = self.hs.at(p, G['i'])
            p.assume(And(ule(h.f['name'].len, MAXSTR), ule(h.f['value'].len, MAXSTR)))
            G['h'], G['g2'] = h, 's'

    def check_seq(self, st, v):
        p, G = st.p, st.p.ghost
        out, h = G['out'], G['h']
        if not (isinstance(out, Base)):
            return
        prove_eq(p, slice_(p, v, 0, out.len), out, 'what was emitted before stays', 'inv', self.info)
        E = slice_(p, v, out.len, sub(v.len, out.len))
        tail = p.bytes_('tail')
        s = cat(E, tail)
        p.prove(ult(0, E.len), 'every header is represented', 'post', self.info)
        read_back(self.I, p, s, G['t'])
        r = spec_field(self.I, p, s, 0, G['t'])
        p.prove(r is not None, 'the representation emitted is valid for the decoder\'s table', 'post', self.info)
        if r is None:
            return
        p.prove(r[0] is not None, 'a field representation is emitted for the header', 'post', self.info)
        if r[0] is None:
            return
        prove_eq(p, r[0].f['name'], h.f['name'], 'it decodes to the same name', 'post', self.info)
        prove_eq(p, r[0].f['value'], h.f['value'], 'it decodes to the same value', 'post', self.info)
        p.prove(Eq(r[1], E.len), 'it is the only representation emitted for the header', 'post', self.info)
        G['t2'] = r[2]
        G['same'] = h

    def back(self, st):
        p, G = st.p, st.p.ghost
        AutoFold.back(self, st)
        if G['gk'] is not None and G.get('t2') is not None:
            t = self.tab.load(p).f['#'].key
            p.prove(Eq(t, G['t2']), 'the encoder\'s table changes as the decoder\'s', 'post', self.info)
            p.reached()

    def check_other(self, st, loc, v):
        pass


def mk_encoder(I, p, synced=None):
    """an encoder and the table of the decoder it talks to: equal, or the encoder's after the pending size changes"""
    td = p.fresh('decoder.table', Obj)
    table_facts(p, td)
    p.assume(ule(tmax(td), ENC_LIMIT))
    has = p.freshbool('pending') if synced is None else not synced
    if p.decide(has):
        m, M = p.freshbv('pending.min', 64), p.freshbv('pending.max', 64)
        p.assume(And(ule(m, M), ule(M, ENC_LIMIT)))
        te = tsetmax(p, tsetmax(p, td, m), M)
        setmax_lemma(p, td, m, M)
        pend = Opt(True, m)
    else:
        te, pend = td, Opt(False, 0)
    tab = p.newlv('table', Rec('DynamicTable', {'#': Opaque('table', te)}), parse_type('ion::DynamicTable'))
    from vc.interp import RefV
    t = parse_type('ion::HeaderBlockEncoder')
    v = I.symbolic(t, 'encoder')
    if set(v.f) != {'dynamic_table_', 'pending_min_table_size_'}:
        raise ToolLimit('members of HeaderBlockEncoder: %s' % sorted(v.f))
    v = v.with_('dynamic_table_', RefV(tab)).with_('pending_min_table_size_', pend)
    return p.newlv('encoder', v, t), tab, td, te


def setmax_lemma(p, t, a, n):
    """proved in C05: setting the maximum to a and then to n is setting it to n, if n <= a or nothing is evicted by a"""
    x = tsetmax(p, t, a)
    p.fact(zb(Implies(Or(ule(n, a), ule(tmax(t), a)), Eq(tsetmax(p, x, n), tsetmax(p, t, n)))))


SNAMES = sorted({n for n, v in STATIC})


def unit_encode(part, nparts):
    """arbitrary list = pre ++ [h] ++ post, the arbitrary iteration encodes h: its name is one of the static table's, or not; or the end"""
    rule = EncodeFold()
    cases = [c for k, c in enumerate(['none', 'end'] + SNAMES) if k % nparts == part]

    def h(I, p):
        mk = lambda nm: Base(p, p.fresh(nm, Obj), I.elem_maker(parse_type('ion::HttpHeader')))
        c = cases[p.choose(len(cases))]
        rule.first_part = c == 'end'
        if c == 'end':
            hs = mk('headers')
            rule.i = hs.len
        else:
            pre, post = mk('pre'), mk('post')
            hd = I.symbolic(parse_type('ion::HttpHeader'), 'header')
            if c != 'none':
                hd = hd.with_('name', lit_of(c))
            else:
                for n in SNAMES:
                    p.assume(Not(eq_formula(p, hd.f['name'], lit_of(n))))
            hs = cat(pre, Lit([hd]), post)
            rule.i = pre.len
        p.assume(ule(hs.len, 1 << 40))
        enc, tab, td, te = mk_encoder(I, p)
        rule.hs, rule.I, rule.t0, rule.tab, rule.td = hs, I, te, tab, td
        rule.info = lambda m: dict(op='encode')
        hl = p.newlv('headers', hs, parse_type('std::vector<ion::HttpHeader>'))
        res = I.exec_function(the_fn(I, 'HeaderBlockEncoder', 'encode'), enc, [hl])
        G = p.ghost
        if G.get('where') != 'exit':
            raise ToolLimit('the loop over the headers was not found')
        p.prove(Eq(G['i'], hs.len), 'every header is encoded', 'post', rule.info)
        prove_eq(p, res, G['out'], 'the block is what was emitted for the headers', 'post', rule.info)
        p.prove(Not(enc.load(p).f['pending_min_table_size_'].has), 'after a block the tables are equal: nothing is pending', 'post', rule.info)
        p.prove(Eq(tab.load(p).f['#'].key, G['t']), 'the table is the one after the last header', 'post', rule.info)
    return Unit('HeaderBlockEncoder::encode[%d/%d]' % (part, nparts), 'HeaderBlockEncoder::encode', h, rules={'HeaderBlockEncoder::encode': lambda I, k, n: rule},
                contracts=[EncodeInt(), WriteString()] + TABLE_OPS(), ctx={'unroll': 80}, budget=600)


def unit_encoder_setmax():
    def h(I, p):
        enc, tab, td, te = mk_encoder(I, p)
        n = p.freshbv('new_max', 64)
        p.assume(ule(n, ENC_LIMIT))
        v0 = enc.load(p).f['pending_min_table_size_']
        m = v0.val if v0.has is True else None
        if m is None:
            p.fact(zb(Eq(tsetmax(p, td, tmax(td)), td)))          # C05: setting the maximum in force changes nothing
        I.exec_function(the_fn(I, 'HeaderBlockEncoder', 'set_max_table_size'), enc, [n])
        pend = enc.load(p).f['pending_min_table_size_']
        t2 = tab.load(p).f['#'].key
        p.prove(Eq(tmax(t2), n), 'the table has the maximum set', 'post')
        if p.decide(pend.has):
            m2 = pend.val
            # instances of the lemma proved in C05
            if m is not None:
                M = tmax(te)
                setmax_lemma(p, tsetmax(p, td, m), M, n)
                setmax_lemma(p, td, m, n)
                setmax_lemma(p, td, n, n)
            else:
                setmax_lemma(p, td, n, n)
            p.prove(ule(m2, n), 'the pending minimum is at most the maximum', 'inv')
            p.prove(Eq(t2, tsetmax(p, tsetmax(p, td, m2), n)), 'the table is the decoder\'s after the two size updates pending', 'inv')
        else:
            p.prove(Eq(t2, td), 'no update is pending only if the tables are equal', 'inv')
    return Unit('HeaderBlockEncoder::set_max_table_size', 'HeaderBlockEncoder::set_max_table_size', h, contracts=TABLE_OPS())


def units_c07():
    return [unit_encode(k, 16) for k in range(16)] + [unit_encoder_setmax(), unit_setmax_lemma()]

"""HTTP/2 frame structures (RFC 9113 sections 4.1, 6.5.1, 6.8, 6.9), big-endian."""
from vc.verify import *
from vc.fold import AutoFold, kind_of
from .hpack_int import model_bytes

# structure -> fields (name, first octet, number of octets, bits kept when read and written)
STRUCTS = {
    'Http2FrameHeader': (9, [('length', 0, 3, 24), ('type', 3, 1, 8), ('flags', 4, 1, 8), ('stream_id', 5, 4, 31)]),
    'Http2Setting': (6, [('identifier', 0, 2, 16), ('value', 2, 4, 32)]),
    'Http2GoAwayPayload': (8, [('last_stream_id', 0, 4, 31), ('error_code', 4, 4, 32)]),
    'Http2WindowUpdate': (4, [('window_size_increment', 0, 4, 31)]),
}
WIDTH = {'length': 32, 'type': 8, 'flags': 8, 'stream_id': 32, 'identifier': 16, 'value': 32, 'last_stream_id': 32, 'error_code': 32, 'window_size_increment': 32}


def spec_field(p, s, pos, off, n, keep, width):
    """the field of n octets at pos+off, big-endian, reserved high bits dropped"""
    v = None
    for k in range(n):
        o = bv(s.at(p, add(pos, off + k)), 8)
        v = o if v is None else z3.Concat(v, o)
    w = 8 * n
    if keep < w:
        v = z3.Extract(keep - 1, 0, v)
        w = keep
    return simp(z3.ZeroExt(width - w, v)) if width > w else simp(v)


def spec_parse(p, cls, s, pos=0):
    size, fields = STRUCTS[cls]
    return Rec(cls, {f: spec_field(p, s, pos, off, n, keep, WIDTH[f]) for f, off, n, keep in fields})


def spec_octets(cls, v):
    """serialised octets of a structure"""
    size, fields = STRUCTS[cls]
    out = []
    for f, off, n, keep in fields:
        x = bv(v[f], WIDTH[f])
        x = z3.Extract(keep - 1, 0, x) if keep < x.size() else x
        x = z3.ZeroExt(8 * n - keep, x) if 8 * n > keep else x
        for k in range(n):
            out.append(simp(z3.Extract(8 * (n - k) - 1, 8 * (n - k - 1), x)))
    return out


def unit_struct(cls):
    size, fields = STRUCTS[cls]

    def h(I, p):
        # parse
        octs = [p.freshbv('o%d' % k, 8) for k in range(size)]
        lv = p.newlv('octets', Lit(octs), parse_type('std::array<unsigned char, %d>' % size))
        info = lambda m: dict(op='parse', cls=cls, octets=''.join('%02x' % m.eval(o, True).as_long() for o in octs))
        r = I.exec_function(the_fn(I, cls, 'parse'), None, [SpanV(lv, 0, size)])
        want = spec_parse(p, cls, Lit(octs))
        for f in want.f:
            p.prove(Eq(r.f[f], want.f[f]), 'parse: %s is the field RFC 9113 defines' % f, 'post', info)
        prove_eq(p, lv.load(p), Lit(octs), 'parse does not change the octets', 'frame')
        # serialise
        v = I.symbolic(parse_type('ion::' + cls), 'value')
        vl = p.newlv('value', v, parse_type('ion::' + cls))
        old = [p.freshbv('b%d' % k, 8) for k in range(size)]
        out = p.newlv('out', Lit(old), parse_type('std::array<unsigned char, %d>' % size))
        info2 = lambda m: dict(op='ser', cls=cls, **{f: m.eval(bv(v.f[f], WIDTH[f]), True).as_long() for f in v.f})
        I.exec_function(the_fn(I, cls, 'serialize'), vl, [SpanV(out, 0, size)])
        prove_eq(p, out.load(p), Lit(spec_octets(cls, v.f)), 'serialize: the octets are the big-endian fields, reserved bits zero', 'post', info2)
        prove_eq(p, vl.load(p), v, 'serialize does not change the value', 'frame')
    return Unit('%s::parse, serialize' % cls, '%s::parse' % cls, h)


def unit_inverse():
    def h(I, p):
        for cls, (size, fields) in STRUCTS.items():
            v = {f: p.freshbv(f, WIDTH[f]) for f, *_ in fields}
            for f, off, n, keep in fields:
                if keep < WIDTH[f]:
                    p.assume(z3.ULT(v[f], 1 << keep))
            r = spec_parse(p, cls, Lit(spec_octets(cls, v)))
            for f in v:
                p.prove(Eq(r.f[f], v[f]), 'parsing a serialised %s gives %s back' % (cls, f), 'lemma')
    return Unit('lemma: parse(serialize(v))=v', 'lemma', h)


class SettingsFold(AutoFold):
    start = 's'

    def arbitrary(self, st):
        p, G = st.p, st.p.ghost
        G['i'] = p.freshbv('entries', 64)
        p.assume(z3.ULE(bv(G['i'], 64) * 6, bv(self.data.len, 64)))
        p.assume(z3.ULE(G['i'], 1 << 40))
        G['out'] = Base(p, p.fresh('settings', Obj), self.I.elem_maker(parse_type('ion::Http2Setting')))
        p.fact(Eq(G['out'].len, G['i']))

    def forms(self, p, after):
        i = p.ghost.get('i', 0)
        i = add(i, 1) if after else i
        return [('off', simp(bv(i, 64) * 6))]

    def step(self, st):
        p, G = st.p, st.p.ghost
        G['g2'], G['path2'] = None, ()
        off = simp(bv(G['i'], 64) * 6)
        if p.decide(ule(add(off, 6), self.data.len)):
            G['g2'] = 's'
            G['emit'] = spec_parse(p, 'Http2Setting', self.data, off)

    def check_seq(self, st, v):
        G = st.p.ghost
        if G['g2'] is None:
            return
        prove_eq(st.p, v, cat(G['out'], Lit([G['emit']])), 'exactly the next entry of the payload is appended', 'inv', self.info)


def unit_read_settings():
    rule = SettingsFold()

    def h(I, p):
        data = p.bytes_('payload')
        p.assume(ule(data.len, 1 << 32))
        rule.data, rule.I = data, I
        rule.info = lambda m: dict(op='settings', octets=model_bytes(m, data, 0, 64))
        dl = p.newlv('payload', data, parse_type('std::vector<unsigned char>'))
        hdr = I.symbolic(parse_type('ion::Http2FrameHeader'), 'header')
        rd = p.newlv('reader', Rec('Http2FrameReader', {'header_': hdr, 'payload_': SpanV(dl, 0, data.len)}), parse_type('ion::Http2FrameReader'))
        r = I.exec_function(the_fn(I, 'Http2FrameReader', 'read_settings'), rd, [])
        G = p.ghost
        valid = Eq(simp(z3.URem(bv(data.len, 64), 6)), 0)
        p.prove(Eq(r.has, valid), 'entries are returned iff the length is a multiple of six', 'post', rule.info)
        if r.has is not False:
            if G.get('where') != 'exit':
                raise ToolLimit('the loop over the entries was not found')
            if p.decide(r.has):
                p.prove(Eq(simp(bv(G['i'], 64) * 6), data.len), 'every entry is read', 'post', rule.info)
                prove_eq(p, r.val, G['out'], 'the entries are returned in order', 'post', rule.info)
    return Unit('Http2FrameReader::read_settings', 'Http2FrameReader::read_settings', h, rules={'*': lambda I, k, n: rule})


def unit_reader():
    """the accessors of a received frame"""
    def h(I, p):
        data = p.bytes_('payload')
        p.assume(ule(data.len, 1 << 32))
        dl = p.newlv('payload', data, parse_type('std::vector<unsigned char>'))
        hdr = I.symbolic(parse_type('ion::Http2FrameHeader'), 'header')
        rd = p.newlv('reader', Rec('Http2FrameReader', {'header_': hdr, 'payload_': SpanV(dl, 0, data.len)}), parse_type('ion::Http2FrameReader'))
        C = 'Http2FrameReader'
        for f, m in (('type', 'type'), ('flags', 'flags'), ('stream_id', 'stream_id'), ('length', 'length')):
            p.prove(Eq(I.exec_function(the_fn(I, C, m), rd, []), hdr.f[f]), '%s() is the field of the header' % m, 'post')
        for bit, m in ((1, 'is_end_stream'), (4, 'is_end_headers'), (8, 'padded'), (0x20, 'priority')):
            p.prove(Eq(I.exec_function(the_fn(I, C, m), rd, []), simp((bv(hdr.f['flags'], 8) & bit) != 0)), '%s() is flag %#x' % (m, bit), 'post')
        if p.decide(ule(4, data.len)):
            r = I.exec_function(the_fn(I, C, 'read_window_update'), rd, [])
            prove_eq(p, r, spec_parse(p, 'Http2WindowUpdate', data), 'read_window_update parses the first four octets', 'post')
        if p.decide(ule(8, data.len)):
            r = I.exec_function(the_fn(I, C, 'read_goaway'), rd, [])
            prove_eq(p, r, spec_parse(p, 'Http2GoAwayPayload', data), 'read_goaway parses the first eight octets', 'post')
    return Unit('Http2FrameReader accessors', 'Http2FrameReader', h)


def units_c08():
    return [unit_struct(c) for c in STRUCTS] + [unit_inverse(), unit_read_settings(), unit_reader()]

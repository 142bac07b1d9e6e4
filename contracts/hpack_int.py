"""RFC 7541 section 5.1 integers."""
from vc.verify import *


def spec_decode(s, pos, prefix, p):
    """-> (ok, value (32 bit), octets consumed), RFC 7541 5.1, over the octets s[pos..]; prefix concrete"""
    n = sub(s.len, pos)
    mask = (1 << prefix) - 1

    def octet(k):
        return z3.ZeroExt(56, bv(s.at(p, add(pos, k)), 8))
    i = octet(0) & mask
    # built from the last continuation octet backwards
    vals = [i]
    for k in range(1, 6):
        vals.append(vals[-1] + ((octet(k) & 127) << (7 * (k - 1))))
    ok, val, cons = z3.BoolVal(False), z3.BitVecVal(0, 64), z3.BitVecVal(0, 64)
    for k in range(5, 0, -1):
        last = (octet(k) & 128) == 0
        here_ok = z3.And(zb(ult(k, n)), z3.If(last, z3.ULE(vals[k], 0xffffffff), ok))
        val = z3.If(last, vals[k], val)
        cons = z3.If(last, z3.BitVecVal(k + 1, 64), cons)
        ok = here_ok
    short = z3.ULT(i, mask) if mask else z3.BoolVal(False)
    ok = z3.And(zb(ult(0, n)), z3.Or(short, ok))
    val = z3.If(short, i, val)
    cons = z3.If(short, z3.BitVecVal(1, 64), cons)
    return ok, z3.Extract(31, 0, val), cons


def mk_reader(I, p, name='in', seq=None):
    s = seq if seq is not None else p.bytes_(name)
    data = p.newlv(name + '.octets', s, parse_type('std::vector<unsigned char>'))
    pos = p.freshbv(name + '.pos', 64)
    p.assume(ule(pos, s.len))
    r = p.newlv('reader', Rec('ByteReader', {'data_': SpanV(data, 0, s.len), 'pos_': pos}), parse_type('ByteReader'))
    return r, s, pos


class IntDecode:
    """IntegerDecoder::decode(reader, prefix): the value RFC 7541 5.1 assigns, reader advanced past it; an error otherwise"""
    name = 'IntegerDecoder::decode'

    def apply(self, I, this, vals):
        p = I.p
        rd, prefix = vals
        if isinstance(prefix, LV):
            prefix = prefix.load(p)
        r = rd.load(p)
        d, pos = r.f['data_'], r.f['pos_']
        p.require(ule(pos, d.len), 'precondition of IntegerDecoder::decode: reader within its data', 'pre')
        p.require(And(Not(Eq(prefix, 0)), ule(prefix, 8)) if not is_sym(prefix) else And(prefix != 0, z3.ULE(prefix, 8)),
                  'precondition of IntegerDecoder::decode: prefix 1..8', 'pre')
        ok, v, cons, err = int_app(p, d.seq(p), pos, prefix)
        v = p.ghost.get('known', {}).get(v.get_id(), v)      # a case split the harness made
        np = Ite(ok, add(pos, cons), p.freshbv('pos', 64), 64)
        p.fact(zb(And(ule(np, d.len), ule(pos, np))))
        rd.store(p, r.with_('pos_', np), ('pos_',))
        return Opt(ok, v, err, 'expected')


def int_app(p, s, pos, prefix):
    def build(nm):
        ok = z3.Bool(nm + '.ok')
        v = z3.BitVec(nm + '.value', 32)
        c = z3.BitVec(nm + '.octets', 64)
        e = z3.BitVec(nm + '.error', 32)
        n = sub(s.len, pos)
        p.fact(z3.Implies(ok, z3.And(z3.UGE(c, 1), z3.ULE(c, 6), zb(ule(c, n)))))
        return Rec('int', {'ok': ok, 'v': v, 'c': c, 'e': e})
    r = p.app('hpack_int', (s, pos, prefix), build)
    return r.f['ok'], r.f['v'], r.f['c'], r.f['e']


def unit_decode(prefix):
    def h(I, p):
        r, s, pos = mk_reader(I, p)
        fn = the_fn(I, 'IntegerDecoder', 'decode')
        ok, v, cons = spec_decode(s, pos, prefix, p)
        before = r.load(p)
        res = I.exec_function(fn, None, [r, prefix])
        after = r.load(p)
        info = lambda m: dict(op='di', prefix=prefix, octets=model_bytes(m, s, pos, 8))
        p.prove(Eq(res.has, simp(ok)), 'a value is returned iff the octets are a complete representation of at most 2^32-1', 'post', info)
        if res.has is not False:
            g = zb(res.has)
            p.prove(Implies(g, Eq(res.val, simp(v))), 'the value is the one RFC 7541 5.1 assigns', 'post', info)
            p.prove(Implies(g, Eq(after.f['pos_'], simp(pos + cons))), 'exactly the octets of the representation are consumed', 'post', info)
        p.prove(And(ule(pos, after.f['pos_']), ule(after.f['pos_'], s.len)), 'the reader stays within its input', 'inv', info)
        prove_eq(p, after.f['data_'], before.f['data_'], 'the input is not changed', 'frame')
    return Unit('IntegerDecoder::decode[prefix=%d]' % prefix, 'IntegerDecoder::decode', h, ctx={'unroll': 12})


def model_bytes(m, s, pos, n):
    out = []
    try:
        ln = m.eval(bv(s.len, 64), True).as_long()
        po = m.eval(bv(pos, 64), True).as_long()
        for i in range(min(n, max(0, ln - po))):
            out.append(m.eval(bv(s.at(None, z3.BitVecVal(po + i, 64)), 8), True).as_long())
    except Exception:
        pass
    return bytes(out).hex()


# --- encoder ------------------------------------------------------------------------------------------
def spec_encode(v, prefix):
    """RFC 7541 5.1 encoder as guarded literals: [(condition, [octets])]; v 32-bit"""
    mask = (1 << prefix) - 1
    V = z3.ZeroExt(32, bv(v, 32)) if is_sym(v) else z3.BitVecVal(v, 64)
    out = [(simp(z3.ULT(V, mask)), [simp(z3.Extract(7, 0, V))])]
    R = V - mask
    for k in range(1, 6):
        # exactly k continuation octets
        lo, hi = (0 if k == 1 else 1 << (7 * (k - 1))), 1 << (7 * k)
        c = z3.And(z3.UGE(V, mask), z3.UGE(R, lo), z3.ULT(R, hi))
        octs = [mask]
        for j in range(k):
            o = z3.Extract(7, 0, z3.LShR(R, 7 * j) & 127)
            octs.append(simp(o | 128) if j < k - 1 else simp(o))
        out.append((simp(c), octs))
    return out


class IntEncode:
    name = 'IntegerEncoder::encode'

    def apply(self, I, this, vals):
        p = I.p
        v, prefix = [x.load(p) if isinstance(x, LV) else x for x in vals]
        p.require(And(Not(Eq(prefix, 0)), ule(prefix, 8)), 'precondition of IntegerEncoder::encode: prefix 1..8', 'pre')
        return enc_app(p, v, prefix)


def enc_app(p, v, prefix):
    """encoding of v as an opaque non-empty octet sequence (defined by spec_encode)"""
    def build(nm):
        b = Base(p, z3.Const(nm, Str))
        p.fact(z3.And(z3.UGE(b.len, 1), z3.ULE(b.len, 6)))
        # the bits above the prefix are zero
        p.fact(z3.ULE(b.at(p, 0), (1 << prefix) - 1))
        for c, o in spec_encode(v, prefix):
            p.fact(z3.Implies(zb(c), z3.And(b.len == len(o), *[b.at(p, i) == x for i, x in enumerate(o)])))
        return b
    if not is_sym(v):
        for c, o in spec_encode(v, prefix):
            if c is True:
                return Lit(o)
    return p.app('hpack_enc', (v, prefix), build)


def unit_encode(prefix):
    def h(I, p):
        v = p.freshbv('value', 32)
        fn = the_fn(I, 'IntegerEncoder', 'encode')
        info = lambda m: dict(op='ei', prefix=prefix, value=m.eval(v, True).as_long())
        res = I.exec_function(fn, None, [v, prefix])
        for c, octs in spec_encode(v, prefix):
            if p.decide(c):
                prove_eq(p, res, Lit(octs), 'the octets are those of the RFC 7541 5.1 encoder', 'post', info)
                return
        p.prove(False, 'the encoder cases cover every value', 'post')
    return Unit('IntegerEncoder::encode[prefix=%d]' % prefix, 'IntegerEncoder::encode', h, ctx={'unroll': 12})


def unit_encode_refuse():
    def h(I, p):
        v = p.freshbv('value', 32)
        pr = p.freshbv('prefix', 8)
        p.assume(z3.Or(pr == 0, z3.UGT(pr, 8)))
        fn = the_fn(I, 'IntegerEncoder', 'encode')
        try:
            I.exec_function(fn, None, [v, pr])
            p.prove(False, 'a prefix outside 1..8 is refused by an exception', 'post')
        except CppThrow as e:
            p.prove(L.catches('std::exception', e.cls), 'a prefix outside 1..8 is refused by an exception', 'post')
    return Unit('IntegerEncoder::encode[refuse]', 'IntegerEncoder::encode', h)


def unit_roundtrip(prefix):
    """lemma over the two specifications"""
    def h(I, p):
        v = p.freshbv('value', 32)
        tail = p.bytes_('tail')
        for c, octs in spec_encode(v, prefix):
            if p.decide(c):
                hi = p.freshbv('high', 8)
                p.assume((hi & ((1 << prefix) - 1)) == 0)
                s = cat(Lit([simp(bv(octs[0], 8) | hi)] + list(octs[1:])), tail)
                ok, val, cons = spec_decode(s, 0, prefix, p)
                p.prove(And(ok, val == v, cons == len(octs)), 'decoding an encoding gives the value back and consumes it whole', 'lemma')
                return
    return Unit('lemma: decode(encode(v))=v [prefix=%d]' % prefix, 'lemma', h)


def units_c01():
    return [unit_decode(k) for k in range(1, 9)]


def units_c02():
    return [unit_encode(k) for k in range(1, 9)] + [unit_encode_refuse()] + [unit_roundtrip(k) for k in range(1, 9)]

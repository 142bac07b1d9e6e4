"""String literals (RFC 7541 5.2), as read by HeaderBlockDecoder::read_length_and_string."""
from vc.verify import *
from .hpack_int import *
from .hpack_huff import *

LIMIT = 4096


def spec_string(p, s, pos, limit=LIMIT):
    """-> (string, new position) or None; decides the cases on the path"""
    n = sub(s.len, pos)
    if not p.decide(ult(0, n)):
        return None
    huff = p.decide(simp((bv(s.at(p, pos), 8) & 0x80) != 0))
    ok, v, c, _ = int_app(p, s, pos, 7)
    if not p.decide(ok):
        return None
    v64 = z3.ZeroExt(32, bv(v, 32))
    if not p.decide(simp(z3.ULE(v64, sub(n, c)))):
        return None
    body = slice_(p, s, add(pos, c), simp(v64))
    end = simp(bv(pos, 64) + c + v64)
    if huff:
        ok2, out = huff_dec(p, body)
        if not p.decide(ok2):
            return None
    else:
        out = body
    if limit is not None and not p.decide(ule(out.len, limit)):
        return None
    return out, end


CONTRACTS = lambda: [IntDecode(), HuffDecode(), IntEncode()]


def unit_read_string():
    def h(I, p):
        r, s, pos = mk_reader(I, p)
        dec = p.newlv('decoder', Rec('HeaderBlockDecoder', {'dynamic_table_': None, 'huffman_tree_': Opaque('tree')}), parse_type('ion::HeaderBlockDecoder'))
        fn = the_fn(I, 'HeaderBlockDecoder', 'read_length_and_string')
        want = spec_string(p, s, pos)
        res = I.exec_function(fn, dec, [r])
        after = r.load(p)
        info = lambda m: dict(op='strdec', octets=model_bytes(m, s, pos, 12))
        p.prove(Eq(res.has, want is not None), 'a string is returned iff the literal is complete, valid and at most 4096 octets long', 'post', info)
        if want is not None and res.has is not False:
            prove_eq(p, res.val, want[0], 'the string is the one RFC 7541 5.2 assigns', 'post', info)
            p.prove(Eq(after.f['pos_'], want[1]), 'exactly the literal is consumed', 'post', info)
        p.prove(ule(after.f['pos_'], s.len), 'the reader stays within its input', 'inv', info)
    return Unit('HeaderBlockDecoder::read_length_and_string', 'HeaderBlockDecoder::read_length_and_string', h, contracts=CONTRACTS())


def unit_huff_lemma():
    """finite facts from which decode(encode(s)) = s follows by induction over s"""
    def h(I, p):
        for c in range(256):
            code, l = HUFF[c]
            g, out = (0, 0), []
            for k in range(l - 1, -1, -1):
                g, s = spec_bit(g, code >> k & 1)
                if s is not None:
                    out.append(s)
            p.prove(g == (0, 0) and out == [c], 'the code of octet %d is decoded to it and leaves the automaton at its start' % c, 'lemma')
        for k in range(8):
            g, out = (0, 0), []
            for _ in range(k):
                g, s = spec_bit(g, 1)
                if s is not None:
                    out.append(s)
            p.prove(spec_accepts(g) and not out, '%d ones after the last code are accepted as padding' % k, 'lemma')
        p.prove(all(5 <= l <= 30 for c, l in HUFF[:256]), 'every code has 5 to 30 bits', 'lemma')
    return Unit('lemma: huffman decode(encode(s))=s, induction step and base', 'lemma', h)




def unit_literal_lemma(huff):
    """reading back what the writer's contract promises"""
    def h(I, p):
        s, tail = p.bytes_('str'), p.bytes_('tail')
        p.assume(z3.ULE(s.len, MAXSTR))
        if huff:
            b = huff_enc(p, s)
            ok, out = huff_dec(p, b)
            p.fact(z3.And(ok, zb(eq_formula(p, out, s))))       # unit_huff_lemma
        else:
            b = s
        n = z3.Extract(31, 0, bv(b.len, 64))
        e = enc_app(p, n, 7)
        lit = cat(Lit([simp(bv(e.at(p, 0), 8) | (0x80 if huff else 0))]), Slice(e, 1, sub(e.len, 1)), b)
        whole = cat(lit, tail)
        int_roundtrip(p, whole, 0, n, 7, e)
        r = spec_string(p, whole, 0, None)
        p.prove(r is not None, 'the literal is accepted', 'lemma')
        if r is not None:
            prove_eq(p, r[0], s, 'it reads back as the same string', 'lemma')
            p.prove(Eq(r[1], lit.len), 'it is consumed whole', 'lemma')
    return Unit('lemma: read(write(s))=s, %s' % ('Huffman' if huff else 'plain'), 'lemma', h)


def int_roundtrip(p, s, pos, v, prefix, e):
    """instance of the C02 round-trip lemma: s[pos..] starts with enc(v, prefix), other bits in the first octet allowed"""
    ok, val, c, _ = int_app(p, s, pos, prefix)
    p.fact(z3.And(ok, val == v, zb(Eq(c, e.len))))


def units_c04():
    from . import hpack_huff
    return hpack_huff.units_c04() + [unit_read_string(), unit_huff_lemma(), unit_literal_lemma(False), unit_literal_lemma(True)]

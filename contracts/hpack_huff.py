"""Huffman coding, RFC 7541 section 5.2 and appendix B."""
from vc.verify import *
from vc.fold import AutoFold
from oracles.rfc7541_tables import HUFF
from . import hpack_int

# --- the specification: an automaton over bits ------------------------------------------------------
CODE = {(l, c): s for s, (c, l) in enumerate(HUFF)}
PREFIX = {(0, 0)}
for _c, _l in HUFF:
    for _k in range(1, _l):
        PREFIX.add((_k, _c >> (_l - _k)))
DEAD = 'dead'


def spec_bit(g, b):
    """-> (next state, symbol or None); states are the proper prefixes of codes; dead: no string is the result"""
    if g == DEAD:
        return DEAD, None
    n, c = g[0] + 1, g[1] << 1 | b
    s = CODE.get((n, c))
    if s == 256:
        return DEAD, None
    if s is not None:
        return (0, 0), s
    if (n, c) in PREFIX:
        return (n, c), None
    return DEAD, None


def spec_accepts(g):
    return g != DEAD and g[0] <= 7 and g[1] == (1 << g[0]) - 1


# --- HuffmanTree::decode -------------------------------------------------------------------------------
class BitFold(AutoFold):
    """HuffmanTree::decode: the loop simulates the automaton bit by bit"""
    start = (0, 0)

    def __init__(self):
        self.data = None

    def arbitrary(self, st):
        p = st.p
        i = p.ghost['i'] = p.freshbv('bits', 64)
        p.ghost['out'] = p.bytes_('symbols')
        p.assume(z3.ULE(i, bv(self.data.len, 64) * 8))
        p.fact(z3.ULE(p.ghost['out'].len, i))

    def step(self, st):
        p = st.p
        i = p.ghost['i']
        p.ghost['bit'] = p.ghost['g2'] = None
        if p.decide(z3.ULT(bv(i, 64), bv(self.data.len, 64) * 8)):
            o = self.data.at(p, simp(z3.LShR(bv(i, 64), 3)))
            sh = z3.Extract(7, 0, 7 - (bv(i, 64) & 7))
            b = p.ghost['bit'] = p.decide(Eq(simp(z3.LShR(bv(o, 8), sh) & 1), 1))
            p.ghost['g2'], p.ghost['sym'] = spec_bit(p.ghost['g'], int(b))
            p.ghost['path2'] = () if p.ghost['g2'] == (0, 0) else p.ghost['path'] + (int(b),)

    def check_seq(self, st, v):
        p, G = st.p, st.p.ghost
        if G['g2'] == DEAD:
            return
        want = cat(G['out'], Lit([G['sym']])) if G['sym'] is not None else G['out']
        path = G['path'] + (int(G['bit']),)
        prove_eq(p, v, want, 'exactly the symbol whose code the bits complete is appended', 'inv', lambda m: huff_hint(path))


def huff_hint(path):
    b = ''.join(str(x) for x in path)
    b += '1' * (-len(b) % 8)
    return dict(op='huff', octets=int(b, 2).to_bytes(len(b) // 8, 'big').hex() if b else '')


def unit_tree_decode():
    def h(I, p):
        dec = snapshot(I, 'tree', lambda: construct(I, 'HeaderBlockDecoder', [p.newlv('table', Rec('DynamicTable', {'table_': Lit([]), 'table_size_': 0, 'max_table_size_': 4096}), parse_type('ion::DynamicTable'))]))
        data = p.bytes_('data')
        rule.data = data
        dl = p.newlv('octets', data, parse_type('std::vector<unsigned char>'))
        p.ghost.clear()
        fn = the_fn(I, 'HuffmanTree', 'decode')
        trees = [lv for lv in subobjects(I, dec, 'HuffmanTree')]
        if len(trees) != 1:
            raise ToolLimit('the decoder holds %d Huffman trees' % len(trees))
        res = I.exec_function(fn, trees[0], [SpanV(dl, 0, data.len)])
        G = p.ghost
        path = G.get('path', ())
        info = lambda m: huff_hint(path if G.get('where') == 'exit' else path + (int(bool(G.get('bit'))),))
        if 'g' not in G:
            raise ToolLimit('the bit loop was not found')
        bit = G.get('bit')
        if bit is None:
            ok = spec_accepts(G['g'])
            p.prove(Eq(res.has, ok), 'accepted iff the bits after the last symbol are at most 7 ones', 'post', info)
            if ok and res.has is not False:
                prove_eq(p, res.val, G['out'], 'the symbols are those whose codes make up the input', 'post', info)
        else:
            p.prove(And(G['g2'] == DEAD, Not(res.has)), 'decoding ends before the last bit only with an error, when no code fits', 'post', info)
    rule = BitFold()
    return Unit('HuffmanTree::decode on the tree built by HeaderBlockDecoder', 'HuffmanTree::decode', h, rules={'*': lambda I, k, n: rule if 'HeaderBlockDecoder::HeaderBlockDecoder' not in I.p.fnstack and I.p.ghost.get('where') is None else None}, ctx={'unroll': 40}, budget=500)


def subobjects(I, lv, cls, depth=0):
    """sub-objects of a class inside a record"""
    v = lv.load(I.p)
    if isinstance(v, Rec):
        if v.cls.split('::')[-1] == cls:
            return [lv]
        out = []
        for k in v.f:
            x = v.f[k]
            if isinstance(x, UPtr) and depth < 3:
                c = x.cell
                out += subobjects(I, c if isinstance(c, LV) else LVCell(c), cls, depth + 1)
            elif isinstance(x, Rec):
                out += subobjects(I, LVField(lv, k), cls, depth)
        return out
    return []


class HuffDecode:
    """HuffmanTree::decode(data): the string RFC 7541 5.2 assigns to data, or an error (defined by the automaton above)"""
    name = 'HuffmanTree::decode'

    def apply(self, I, this, vals):
        p = I.p
        d = vals[0].load(p) if isinstance(vals[0], LV) else vals[0]
        ok, out = huff_dec(p, d.seq(p))
        return Opt(ok, out, p.freshbv('huff.error', 32), 'expected')


def huff_dec(p, s):
    def build(nm):
        b = Base(p, z3.Const(nm + '.out', Str))
        p.fact(z3.ULE(b.len, bv(s.len, 64) * 8))
        return Rec('hd', {'ok': z3.Bool(nm + '.ok'), 'out': b})
    r = p.app('huff_dec', (s,), build)
    return r.f['ok'], r.f['out']


def huff_enc(p, s):
    """the codes of the octets of s, concatenated and padded with ones to an octet boundary (defined by EncFold)"""
    def build(nm):
        b = Base(p, z3.Const(nm, Str))
        p.fact(z3.And(z3.ULE(b.len, bv(s.len, 64) * 4), z3.Implies(bv(s.len, 64) != 0, b.len != 0)))
        return b
    return p.app('huff_enc', (s,), build)


# --- HeaderBlockEncoder::write_length_and_string -----------------------------------------------------
MAXSTR = 1 << 26


class EncFold(AutoFold):
    """the writer simulates the concatenation of codes; control state: bits pending in the last octet"""
    start = 0

    def __init__(self, v=None):
        self.v = v          # the octet encoded by the arbitrary iteration; None: the loop is done

    def begin(self, st):
        st.p.ghost['w'] = 0

    def arbitrary(self, st):
        p, k = st.p, st.p.ghost['g']
        p.ghost['i'] = self.i
        p.ghost['out'] = p.bytes_('full octets')
        w = p.freshbv('partial', 8)
        p.assume((w & (0xff >> k)) == 0)
        p.ghost['w'] = w if k else 0
        # each octet has at least 5 and at most 30 bits
        p.fact(z3.ULE(p.ghost['out'].len, bv(self.i, 64) * 4))
        p.fact(z3.Implies(z3.UGE(bv(self.i, 64), 2), p.ghost['out'].len != 0))

    def forms(self, p, after):
        w = p.ghost['w2'] if after else p.ghost['w']
        k = p.ghost['g2'] if after else p.ghost.get('g', 0)
        return [('w', w), ('wl', simp(z3.LShR(bv(w, 8), 8 - k)) if k else 0)]

    def first(self, st):
        st.p.ghost['out'], st.p.ghost['w'] = Lit([]), 0

    def step(self, st):
        p, G = st.p, st.p.ghost
        G['g2'] = None
        if self.v is not None:
            c, l = HUFF[self.v]
            k = G['g'] + l
            acc = simp((z3.ZeroExt(56, bv(G['w'], 8)) >> (8 - G['g'])) << l | c) if G['g'] else c     # k <= 37 bits
            new = []
            while k >= 8:
                k -= 8
                new.append(simp(z3.Extract(7, 0, z3.LShR(bv(acc, 64), k))))
            G['g2'], G['new'] = k, new
            G['w2'] = simp(z3.Extract(7, 0, bv(acc, 64) << (8 - k))) if k else 0
            G['path2'] = ()

    def check_seq(self, st, v):
        G = st.p.ghost
        prove_eq(st.p, v, cat(G['out'], Lit(G['new'])), 'exactly the code of the octet is appended to the bit stream', 'inv', lambda m: dict(op='str', octets='%02x' % self.v))


def unit_write_string(part, nparts):
    """arbitrary string = pre ++ [v] ++ post, the arbitrary iteration encodes v; or the iteration after the last octet"""
    rule = EncFold()

    def h(I, p):
        I.globals.update(snap_globals(I))
        vs = [v for v in range(256) if v % nparts == part]
        c = p.choose(len(vs) + (1 if part == 0 else 0))
        if c < len(vs):
            pre, post = p.bytes_('pre'), p.bytes_('post')
            s = cat(pre, Lit([vs[c]]), post)
            rule.v, rule.i = vs[c], pre.len
        else:
            s = p.bytes_('str')
            rule.v, rule.i = None, s.len
        p.assume(z3.ULE(bv(s.len, 64), MAXSTR))
        st = p.newlv('str', s, parse_type('std::string'))
        fn = the_fn(I, 'HeaderBlockEncoder', 'write_length_and_string')
        enc = p.newlv('encoder', I.symbolic(parse_type('ion::HeaderBlockEncoder'), 'encoder'), parse_type('ion::HeaderBlockEncoder'))
        res = I.exec_function(fn, enc, [st])
        G = p.ghost
        info = lambda m: dict(op='str', octets='ff' * 5)
        if 'gk' not in G and rule.v is not None:
            return      # the same call is checked for an arbitrary string in the other mode
        if 'gk' not in G:
            # written without the loop: plain
            n = hpack_int.enc_app(p, z3.Extract(31, 0, bv(s.len, 64)), 7)
            prove_eq(p, res, cat(n, s), 'a plain literal is the length prefix and the octets', 'post', info)
            return
        k = G['g']
        h = cat(G['out'], Lit([simp(bv(G['w'], 8) | (0xff >> k))])) if k else G['out']
        n = hpack_int.enc_app(p, z3.Extract(31, 0, bv(h.len, 64)), 7)
        want = cat(Lit([simp(bv(n.at(p, 0), 8) | 0x80)]), Slice(n, 1, sub(n.len, 1)), h)
        prove_eq(p, res, want, 'a Huffman literal is the H bit, the length prefix and the codes padded with ones', 'post', info)
    return Unit('HeaderBlockEncoder::write_length_and_string[%d/%d]' % (part, nparts), 'HeaderBlockEncoder::write_length_and_string', h,
                rules={'HeaderBlockEncoder::write_length_and_string#0': lambda I, k, n: rule}, contracts=[hpack_int.IntEncode()], ctx={'unroll': 40}, budget=400)


def snap_globals(I):
    return {}


def units_c04():
    return [unit_write_string(k, 8) for k in range(8)]


def units_c03():
    return [unit_tree_decode()]

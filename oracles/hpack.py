"""Reference HPACK (RFC 7541), written from the RFC; used as the oracle for the real code."""
from .rfc7541_tables import STATIC, HUFF

MAX32 = (1 << 32) - 1
STRING_LIMIT = 4096
TABLE_LIMIT = 64 * 1024


class Err(Exception):
    pass


def dec_int(b, pos, prefix):
    """-> (value, new position)"""
    if pos >= len(b):
        raise Err('truncated')
    m = (1 << prefix) - 1
    v = b[pos] & m
    pos += 1
    if v < m:
        return v, pos
    k = 0
    while True:
        if k == 5:
            raise Err('too long')
        if pos >= len(b):
            raise Err('truncated')
        o = b[pos]
        pos += 1
        v += (o & 127) << (7 * k)
        k += 1
        if v > MAX32:
            raise Err('overflow')
        if not o & 128:
            return v, pos


def enc_int(v, prefix, high=0):
    m = (1 << prefix) - 1
    if v < m:
        return bytes([v | high])
    out = [m | high]
    v -= m
    while v >= 128:
        out.append(v % 128 + 128)
        v //= 128
    out.append(v)
    return bytes(out)


_DEC = {(l, c): s for s, (c, l) in enumerate(HUFF)}


def huff_dec(b):
    out = bytearray()
    code = n = 0
    for o in b:
        for i in range(7, -1, -1):
            code = code << 1 | (o >> i) & 1
            n += 1
            s = _DEC.get((n, code))
            if s is not None:
                if s == 256:
                    raise Err('EOS')
                out.append(s)
                code = n = 0
            elif n > 30:
                raise Err('no code')
    if n > 7 or code != (1 << n) - 1:
        raise Err('padding')
    return bytes(out)


def huff_enc(s):
    v = n = 0
    for o in s:
        c, l = HUFF[o]
        v = v << l | c
        n += l
    k = -n % 8
    v = v << k | (1 << k) - 1
    return v.to_bytes((n + k) // 8, 'big')


class Table:
    def __init__(self, mx=4096):
        self.e, self.max, self.size = [], mx, 0

    def sz(self, h):
        return len(h[0]) + len(h[1]) + 32

    def evict(self):
        while self.size > self.max:
            self.size -= self.sz(self.e.pop())

    def insert(self, h):
        self.e.insert(0, h)
        self.size += self.sz(h)
        self.evict()

    def set_max(self, m):
        self.max = m
        self.evict()

    def get(self, i):
        """1-based HPACK index"""
        if i == 0:
            raise Err('index 0')
        if i <= 61:
            return STATIC[i - 1]
        if i - 62 >= len(self.e):
            raise Err('index out of range')
        return self.e[i - 62]


def dec_string(b, pos, limit=STRING_LIMIT):
    if pos >= len(b):
        raise Err('truncated')
    h = b[pos] & 128
    n, pos = dec_int(b, pos, 7)
    if n > len(b) - pos:
        raise Err('truncated string')
    s = b[pos:pos + n]
    if h:
        s = huff_dec(s)
    if len(s) > limit:
        raise Err('string too long')
    return bytes(s), pos + n


def dec_block(b, t, max_limit=TABLE_LIMIT, strict_update_position=False):
    """decode a block with table t (updated in place, also on error up to the failure) -> headers"""
    out, pos = [], 0
    while pos < len(b):
        o = b[pos]
        if o & 0x80:
            i, pos = dec_int(b, pos, 7)
            out.append(t.get(i))
        elif o & 0xc0 == 0x40:
            i, pos = dec_int(b, pos, 6)
            n = t.get(i)[0] if i else None
            if n is None:
                n, pos = dec_string(b, pos)
            v, pos = dec_string(b, pos)
            t.insert((n, v))
            out.append((n, v))
        elif o & 0xe0 == 0x20:
            m, pos = dec_int(b, pos, 5)
            if m > max_limit:
                raise Err('size update above the limit')
            if strict_update_position and out:
                raise Err('size update after a field')
            t.set_max(m)
        else:
            i, pos = dec_int(b, pos, 4)
            n = t.get(i)[0] if i else None
            if n is None:
                n, pos = dec_string(b, pos)
            v, pos = dec_string(b, pos)
            out.append((n, v))
    return out

"""HPACK on the compiled real code against oracles/hpack.py"""
from vc import build as B
from oracles import hpack as H
from oracles.rfc7541_tables import STATIC, HUFF

_SRC = None


def sources():
    import os
    return [s for s in B.all_lib() if '/hpack/' in s]


def driver():
    return B.Driver(B.build('hpack', sources()))


def hx(b):
    return bytes(b).hex() or '-'


def exp_int(b, prefix):
    try:
        v, n = H.dec_int(b, 0, prefix)
        return 'ok %d %d' % (v, n)
    except H.Err:
        return 'err'


def run_cases(rc, d, part, cases):
    """cases: (key, what, cmd, expected)"""
    cases = list(cases)
    try:
        got = d.batch([c[2] for c in cases])
    except B.Crash as e:
        i = next((c for c in cases if c[2] == e.cmd), cases[0])
        rc.violation(part, i[1], i[3], 'abnormal end: ' + e.err, [e.cmd], 'hpack')
        return False
    for c, g in zip(cases, got):
        rc.case(part, c[0], g == c[3], c[1], c[3], g, [c[2]], 'hpack')
    return True


def c01(rc):
    rc.rules.append('integer decode: every 1- and 2-octet input, boundary values and lengths per prefix, truncations, seeded octets; distinct by (prefix, octets)')
    d = driver()
    cs = []

    def add(prefix, b):
        cs.append(((prefix, bytes(b)), 'decode prefix %d octets %s' % (prefix, hx(b)), 'di %d %s' % (prefix, hx(b)), exp_int(bytes(b), prefix)))
    for u, l, h in rc.hints:
        if h.get('op') == 'di':
            add(h['prefix'], bytes.fromhex(h['octets']))
    r = rc.rng
    for prefix in range(1, 9):
        m = (1 << prefix) - 1
        add(prefix, b'')
        for a in range(256):
            add(prefix, [a])
            for b in (0, 1, 0x7f, 0x80, 0xff):
                add(prefix, [a, b])
        for a in (m, 255):
            for n in range(1, 8):
                for fill in (0x80, 0xff, 0x81, 0xfe):
                    for last in (0, 1, 0x0f, 0x10, 0x7f, 0x80, 0xff):
                        add(prefix, [a] + [fill] * (n - 1) + [last])
                        add(prefix, [a] + [fill] * (n - 1) + [last, 0x55, 0x80])
        for v in [0, 1, m - 1, m, m + 1, m + 127, m + 128, m + 16383, m + 16384, (1 << 21) + m, (1 << 28) + m - 1, (1 << 28) + m, (1 << 32) - 1, 1 << 32, (1 << 32) + m, (1 << 35) - 1]:
            e = H.enc_int(v, prefix)
            for hi in {0, (0xff << prefix) & 0xff}:
                e2 = bytes([e[0] | hi]) + e[1:]
                add(prefix, e2)
                add(prefix, e2 + b'\xff')
                for k in range(len(e2)):
                    add(prefix, e2[:k])
        for _ in range(rc.scale(150)):
            b = [r.choice((m, 255, r.randrange(256)))] + [r.choice((0x80, 0xff, 0, 0x7f, r.randrange(256))) for _ in range(r.randrange(8))]
            add(prefix, b)
    run_cases(rc, d, 'decode', cs)
    d.close()


def c02(rc):
    rc.rules.append('integer encode: boundary and seeded values per prefix, then decoded again; prefixes 0 and 9..255 refused; distinct by (prefix, value)')
    d = driver()
    cs, back = [], []

    def add(prefix, v):
        e = H.enc_int(v, prefix)
        cs.append(((prefix, v), 'encode %d prefix %d' % (v, prefix), 'ei %d %d' % (v, prefix), hx(e)))
        back.append(((prefix, v, 'back'), 'decode the encoding of %d prefix %d' % (v, prefix), 'di %d %s' % (prefix, hx(e)), 'ok %d %d' % (v, len(e))))
    for u, l, h in rc.hints:
        if h.get('op') == 'ei':
            add(h['prefix'], h['value'])
    for prefix in range(1, 9):
        m = (1 << prefix) - 1
        vs = set(range(600))
        for k in range(33):
            for o in (-2, -1, 0, 1):
                vs |= {(1 << k) + o, (1 << k) + o + m}
        vs |= {rc.rng.randrange(1 << rc.rng.randrange(1, 33)) for _ in range(rc.scale(300))}
        for v in sorted(vs):
            if 0 <= v < 1 << 32:
                add(prefix, v)
    for p in [0] + list(range(9, 256)):
        cs.append(((p, 'bad'), 'encode prefix %d' % p, 'ei 5 %d' % p, 'throw'))
    run_cases(rc, d, 'encode', cs)
    run_cases(rc, d, 'roundtrip', back)
    d.close()


def exp_block(b, t):
    try:
        r = H.dec_block(b, t)
        return 'ok' + ''.join(' %s:%s' % (hx(n), hx(v)) for n, v in r)
    except H.Err:
        return 'err'


def dump(t):
    return ' T %d %d %d' % (t.size, t.max, len(t.e)) + ''.join(' %s:%s' % (hx(n), hx(v)) for n, v in t.e)


def lit(b, huff):
    """string literal"""
    if huff:
        e = H.huff_enc(b)
        return H.enc_int(len(e), 7, 0x80) + e
    return H.enc_int(len(b), 7) + bytes(b)


def lit_raw(e, huff=True):
    return H.enc_int(len(e), 7, 0x80 if huff else 0) + bytes(e)


def c03(rc):
    rc.rules.append('Huffman: every symbol, symbol pairs, every padding length 0..15 and content for every symbol, EOS in every bit position, truncations, bit flips, all 1- and 2-octet inputs, seeded; distinct by octets. '
                    'Decoded through HeaderBlockDecoder::decode (literal without indexing, Huffman value)')
    d = driver()
    seen = set()
    cs = [(0, 'new decoder', 'nd 1 4096', 'ok')]

    def add(e):
        e = bytes(e)
        if e in seen:
            return
        seen.add(e)
        blk = b'\x00' + lit(b'n', False) + lit_raw(e)
        try:
            s = H.huff_dec(e)
            x = 'err' if len(s) > 4096 else 'ok %s:%s' % (hx(b'n'), hx(s))
        except H.Err:
            x = 'err'
        cs.append((e, 'Huffman octets %s' % hx(e), 'dq 1 %s' % hx(blk), x))

    def bits(s):
        v = n = 0
        for o in s:
            c, l = HUFF[o]
            v, n = v << l | c, n + l
        return v, n

    def emit(v, n, pv, pn):
        v, n = v << pn | pv, n + pn
        if n % 8 == 0 and n:
            add(v.to_bytes(n // 8, 'big'))
    for u, l, h in rc.hints:
        if h.get('op') == 'huff':
            add(bytes.fromhex(h['octets']))
    r = rc.rng
    for a in range(256):
        add([a])
        v, n = bits([a])
        k0 = -n % 8
        for pn in (k0, k0 + 8, k0 + 16):
            pats = {(1 << pn) - 1, 0} | {((1 << pn) - 1) ^ (1 << i) for i in range(pn)}
            for pv in pats:
                emit(v, n, pv, pn)
        # EOS after the symbol
        ev, en = v << 30 | (1 << 30) - 1, n + 30
        for pv in (0, (1 << (-en % 8)) - 1):
            emit(ev, en, pv, -en % 8)
        # the symbol's code cut short by each number of bits
        for o in range(256) if rc.thorough else [r.randrange(256) for _ in range(24)]:
            v2, n2 = bits([a, o])
            emit(v2, n2, (1 << (-n2 % 8)) - 1, -n2 % 8)
    for a in range(256):
        for b in (range(256) if rc.thorough else (0, 0x7f, 0x80, 0xfe, 0xff, a)):
            add([a, b])
    for n in range(0, 9):
        add([0xff] * n)
        add([0xff] * n + [0xfe])
        add([0xff] * n + [0x00])
    for _ in range(rc.scale(600)):
        s = bytes(r.choice((r.randrange(256), r.randrange(32, 127))) for _ in range(r.randrange(1, 40)))
        e = bytearray(H.huff_enc(s))
        add(e)
        if e:
            i = r.randrange(len(e))
            e[i] ^= 1 << r.randrange(8)
            add(e)
            add(e[:-1])
            add(bytes(e) + bytes([r.choice((0xff, 0, 0x7f, r.randrange(256)))]))
        add(bytes(r.randrange(256) for _ in range(r.randrange(1, 12))))
    run_cases(rc, d, 'huffman', cs)
    d.close()


def strings(rc, n):
    r = rc.rng
    yield b''
    for a in range(256):
        yield bytes([a])
        yield bytes([a]) * 4
        yield b'abc' + bytes([a])
    for k in (1, 2, 3, 4, 5, 7, 8, 15, 16, 30, 31, 32, 126, 127, 128, 129, 200, 254, 255, 256, 300, 1000, 2047, 2048, 4094, 4095, 4096):
        yield b'a' * k
        yield bytes([0xff]) * k
        yield bytes(r.randrange(256) for _ in range(k))
        yield bytes(range(256)) * (k // 256) + bytes(range(k % 256))
    for _ in range(n):
        yield bytes(r.choice((r.randrange(256), r.randrange(32, 127), r.randrange(128, 256))) for _ in range(r.randrange(0, 60)))


def c04(rc):
    rc.rules.append('string literals: every single octet, lengths around 3, 127, 255 and 4096, seeded strings; as written by the encoder (new name, table limit 0), parsed by the reference and read back by the decoder; '
                    'over-long strings refused; distinct by string')
    d = driver()
    ss = list(strings(rc, rc.scale(200)))
    run_cases(rc, d, 'setup', [(0, 'new', 'ne 1 0', 'ok'), (1, 'new', 'nd 1 0', 'ok')])
    cmds = []
    for s in ss:
        cmds.append('e 1 %s %s' % (hx(b'n' + s[:1000]), hx(s)))
    got = d.batch(cmds)
    back = []
    for s, c, g in zip(ss, cmds, got):
        try:
            blk = bytes.fromhex(g.split()[1].replace('-', ''))
        except Exception:
            blk = b''
        try:
            ok = blk[:1] == b'\x40'
            n, pos = H.dec_string(blk, 1, 1 << 30)
            v, pos = H.dec_string(blk, pos, 1 << 30)
            ok = ok and (n, v, pos) == (b'n' + s[:1000], s, len(blk))
            gotv = '%s %s' % (hx(n), hx(v))
        except H.Err as e:
            ok, gotv = False, 'not a valid literal: %s' % e
        rc.case('encode', s, ok, 'encode string of %d octets %s' % (len(s), hx(s)[:200]), 'two valid literals for the name n+s[:1000] and the value s', '%s -> %s' % (g[:400], gotv[:400]), ['ne 1 0', c], 'hpack')
        if len(s) <= 4096:
            back.append((s, 'read back string of %d octets %s' % (len(s), hx(s)[:200]), 'dq 1 ' + hx(blk), 'ok %s:%s' % (hx(b'n' + s[:1000]), hx(s))))
    run_cases(rc, d, 'readback', back)
    lim = []
    for k in (4095, 4096, 4097, 4098, 5000, 8192, 16384, 40000):
        for huff in (False, True):
            for ch in (b'a', b'\xff', b'0'):
                s = ch * k
                for blk, nm in ((b'\x00' + lit(b'n', False) + lit(s, huff), 'value'), (b'\x10' + lit(s, huff) + lit(b'v', False), 'name')):
                    x = ('ok %s:%s' % ((hx(b'n'), hx(s)) if nm == 'value' else (hx(s), hx(b'v')))) if k <= 4096 else 'err'
                    lim.append(((k, huff, ch, nm), '%s of %d octets %r, Huffman %s' % (nm, k, ch, huff), 'dq 1 ' + hx(blk), x))
    run_cases(rc, d, 'limit', lim)
    d.close()


def c05(rc):
    rc.rules.append('dynamic table: seeded histories of insert, maximum change and lookup with sizes around the limits, state compared after each step; distinct by (history, step)')
    d = driver()
    r = rc.rng
    for hist in range(rc.scale(60)):
        mx = r.choice((0, 31, 32, 33, 64, 100, 128, 200, 4096, 65536))
        t = H.Table(mx)
        cmds, exps, whats = ['nt 1 %d' % mx], ['ok'], ['new']
        names = [b'', b'a', b'b', b'A', b'name', b'name\0', b'\0', b'nam', b'x' * 30]
        for step in range(40):
            o = r.random()
            if o < 0.6:
                n = r.choice(names)
                if r.random() < 0.25 and t.max >= 32 + len(n):
                    v = b'v' * max(0, t.max - 32 - len(n) + r.choice((-1, 0, 1)))
                    v = v[:70000]
                else:
                    v = bytes(r.choice((97, 98, 99) if hist % 2 else (0, 65, 97, 255)) for _ in range(r.choice((0, 1, 2, 3, 20, 60))))
                t.insert((n, v))
                cmds.append('ti 1 %s %s' % (hx(n), hx(v)))
                exps.append('ok' + dump(t))
            elif o < 0.75:
                m = r.choice((0, 31, 32, 33, t.size, max(0, t.size - 1), t.size + 1, r.randrange(300), 4096))
                t.set_max(m)
                cmds.append('tm 1 %d' % m)
                exps.append('ok' + dump(t))
            else:
                if t.e and r.random() < 0.7:
                    n, v = r.choice(t.e)
                    if r.random() < 0.4:
                        v = v + b'q'
                else:
                    n, v = r.choice(names), b'a'
                fi = next((i for i, h in enumerate(t.e) if h == (n, v)), -1)
                ni = next((i for i, h in enumerate(t.e) if h[0] == n), -1)
                cmds.append('tf 1 %s %s' % (hx(n), hx(v)))
                exps.append('ok %d %d' % (fi, ni))
            whats.append(cmds[-1][:200])
        _history(rc, d, 'history', hist, cmds, exps)
    # an insertion equal to a reference into the table itself cannot be expressed through this driver
    d.close()


def _history(rc, d, part, hist, cmds, exps):
    try:
        got = d.batch(cmds)
    except B.Crash as e:
        i = cmds.index(e.cmd) if e.cmd in cmds else len(cmds) - 1
        rc.violation(part, 'history %s' % hist, exps[i], 'abnormal end: ' + e.err, cmds[:i + 1], 'hpack')
        raise
    for i, (g, x) in enumerate(zip(got, exps)):
        if not rc.case(part, (hist, i), g == x, 'history %s step %d: %s' % (hist, i, cmds[i][:300]), x, g, cmds[:i + 1] if g != x else (), 'hpack', trivial=i == 0):
            return False
    return True


def rnd_block(r, t, valid):
    """a header block for a decoder whose table is t, mostly valid"""
    out = b''
    sh = H.Table(t.max)
    sh.e, sh.size = list(t.e), t.size
    for _ in range(r.randrange(1, 6)):
        o = r.random()
        cnt = 61 + len(sh.e)
        if o < 0.35:
            i = r.choice((r.randrange(1, cnt + 1), 61, 62, cnt, 1)) if valid or r.random() < 0.7 else r.choice((0, cnt + 1, cnt + 2, 127, 200, 1 << 31, (1 << 32) - 1, 1 << 32))
            out += H.enc_int(i, 7, 0x80)
        elif o < 0.85:
            kind, pre = r.choice(((0x40, 6), (0, 4), (0x10, 4)))
            i = r.choice((0, 0, r.randrange(1, cnt + 1), cnt)) if valid or r.random() < 0.7 else r.choice((cnt + 1, 1 << 20, (1 << 32) - 1, 1 << 33))
            out += H.enc_int(i, pre, kind)
            n = None
            if i == 0:
                n = bytes(r.randrange(97, 123) if r.random() < 0.9 else r.randrange(256) for _ in range(r.choice((0, 1, 4, 20))))
                out += lit(n, r.random() < 0.5)
            v = bytes(r.randrange(256) for _ in range(r.choice((0, 1, 5, 30, 140))))
            out += lit(v, r.random() < 0.5)
            if kind == 0x40:
                try:
                    sh.insert((n if n is not None else sh.get(i)[0], v))
                except H.Err:
                    pass
        else:
            m = r.choice((0, 100, 4096, 65535, 65536)) if valid or r.random() < 0.6 else r.choice((65537, 70000, (1 << 32) - 1, 1 << 32))
            out += H.enc_int(m, 5, 0x20)
            if m <= 65536:
                sh.set_max(m)
    if not valid:
        o = r.random()
        if o < 0.4 and out:
            out = out[:r.randrange(len(out))]
        elif o < 0.6:
            b = bytearray(out)
            b[r.randrange(len(b))] = r.randrange(256)
            out = bytes(b)
        elif o < 0.7:
            out = bytes(r.randrange(256) for _ in range(r.randrange(1, 12)))
    return out


def c06(rc):
    rc.rules.append('header blocks: all 1- and 2-octet blocks, all static and first dynamic indices in each representation, truncations and mutations of seeded blocks, over histories that share one dynamic table; distinct by (table state, block)')
    d = driver()
    r = rc.rng
    run_cases(rc, d, 'setup', [(0, 'new', 'nd 1 4096', 'ok')])
    cs = []

    def one(b, mx=4096, pre=b''):
        """fresh decoder, after the valid block pre"""
        t = H.Table(mx)
        cmds, exps = ['nd 2 %d' % mx], ['ok']
        for x in ((pre, b) if pre else (b,)):
            e = exp_block(x, t)
            cmds.append(('d 2 ' if e != 'err' else 'dq 2 ') + hx(x))
            exps.append(e + (dump(t) if e != 'err' else ''))
        cs.append((cmds, exps))
    for u, l, h in rc.hints:
        if h.get('op') == 'block':
            one(bytes.fromhex(h['octets']))
    fill = b''.join(b'\x40' + lit(b'n%d' % i, False) + lit(b'v%d' % i, False) for i in range(5))
    for a in range(256):
        one([a] if False else bytes([a]), pre=fill)
        for b in (0, 1, 0x7f, 0x80, 0x81, 0xff):
            one(bytes([a, b]), pre=fill)
    for i in list(range(0, 75)) + [126, 127, 128, 200, 255, 256, 1 << 16, (1 << 32) - 1, 1 << 32]:
        one(H.enc_int(i, 7, 0x80), pre=fill)
        one(H.enc_int(i, 7, 0x80))
        for kind, pre in ((0x40, 6), (0, 4), (0x10, 4)):
            one(H.enc_int(i, pre, kind) + (lit(b'nn', False) if i == 0 else b'') + lit(b'val', True) + b'\xbe', pre=fill)
    for m in (0, 1, 30, 31, 32, 68, 69, 100, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, (1 << 32) - 1):
        one(H.enc_int(m, 5, 0x20), pre=fill)
        one(H.enc_int(m, 5, 0x20) + b'\xbe', pre=fill)
        one(b'\x82' + H.enc_int(m, 5, 0x20) + b'\x40\x01a\x01b\xbe', pre=fill)
    for cmds, exps in cs:
        if not _history(rc, d, 'directed', hx(b'') + cmds[-1][:200] + ('p' if len(cmds) > 2 else ''), cmds, exps):
            pass
    for hist in range(rc.scale(150)):
        t = H.Table(4096)
        cmds, exps = ['nd 3 4096'], ['ok']
        for k in range(12):
            valid = r.random() < 0.7
            b = rnd_block(r, t, valid)
            e = exp_block(b, t)
            cmds.append(('d 3 ' if e != 'err' else 'dq 3 ') + hx(b))
            exps.append(e + (dump(t) if e != 'err' else ''))
            if e == 'err':
                break
        _history(rc, d, 'history', hist, cmds, exps)
    d.close()


def rnd_headers(r, pool):
    out = []
    for _ in range(r.randrange(0, 7)):
        o = r.random()
        if o < 0.2:
            n, v = r.choice(STATIC)
            if r.random() < 0.5:
                v = bytes(r.randrange(97, 100) for _ in range(r.randrange(4)))
        elif o < 0.7:
            n, v = r.choice(pool)
            if r.random() < 0.4:
                v = bytes(r.randrange(256) for _ in range(r.choice((0, 3, 4, 40))))
        else:
            n = bytes(r.randrange(97, 100) for _ in range(r.randrange(0, 6)))
            v = bytes(r.randrange(256) for _ in range(r.choice((0, 1, 3, 4, 5, 40, 200, 3900, 5000))))
        out.append((n, v))
    return out


def c07(rc):
    rc.rules.append('encoder/decoder sync: seeded histories of header lists and peer table sizes on one encoder, including more than 66 live entries and evictions; each block decoded by the reference (RFC 7541, table limit as announced) and by the real decoder; '
                    'distinct by (history, block)')
    d = driver()
    r = rc.rng
    for hist in range(rc.scale(60)):
        t = H.Table(4096)
        limit = low = 4096
        mode = hist % 4
        pool = [(b'p%d' % i, b'v%d' % i) for i in range(130 if mode == 1 else 6)]
        if mode == 3:
            pool += [(b'p%d' % i, b'x' * (4096 - 32 - len(b'p%d' % i) + k)) for i, k in ((0, -1), (1, 0), (2, 1))]
        cmds = ['ne 1 4096']
        d.ask(cmds[0])
        for k in range(25):
            if mode >= 2 and r.random() < 0.3:
                m = r.choice((0, 40, 100, 200, 1000, 4095, 4096))
                limit, low = m, min(low, m)
                cmds.append('em 1 %d' % m)
                d.ask(cmds[-1])
                if r.random() < 0.3:
                    limit = r.choice((0, 60, 4096, m))
                    low = min(low, limit)
                    cmds.append('em 1 %d' % limit)
                    d.ask(cmds[-1])
            if mode == 1 and k < 6:
                hs = pool[k * 22:(k + 1) * 22]
            else:
                hs = rnd_headers(r, pool)
            cmds.append('e 1' + ''.join(' %s %s' % (hx(n), hx(v)) for n, v in hs))
            g = d.ask(cmds[-1])
            what = 'history %d block %d: %s' % (hist, k, cmds[-1][:300])
            try:
                toks = g.split()
                blk = bytes.fromhex(toks[1].replace('-', ''))
                back = ref_decode(blk, t, limit, low)
                low = limit
                ok = back == hs and ' T' + g.split(' T', 1)[1] == dump(t)
                gotv = '%r table%s, reference table%s' % (back, g.split(' T', 1)[1][:600], dump(t)[:600])
            except (H.Err, IndexError, ValueError) as e:
                ok, gotv = False, 'reference decoder: %s on %s' % (e, g[:600])
            if not rc.case('sync', (hist, k), ok, what, 'the same list back and equal tables', gotv[:1500], cmds if not ok else (), 'hpack'):
                break
    d.close()
    from .conn import c07_settings
    c07_settings(rc)


def ref_decode(blk, t, limit, low=None):
    """a conforming decoder that announced SETTINGS_HEADER_TABLE_SIZE = limit (and, since the last block, low at its lowest): strings
    unlimited, updates at the start only, a reduction signalled at its lowest (RFC 7541 4.2)"""
    out, pos = [], 0
    due = low if low is not None and low < t.max else None
    n_out = 0
    while pos < len(blk):
        o = blk[pos]
        if o & 0x80:
            i, pos = H.dec_int(blk, pos, 7)
            out.append(t.get(i))
        elif o & 0xe0 == 0x20:
            m, pos = H.dec_int(blk, pos, 5)
            if m > max(limit, 0):
                raise H.Err('size update above what the decoder announced')
            if out:
                raise H.Err('size update after a field')
            t.set_max(m)
            if due is not None and m <= due:
                due = None
        else:
            inc = o & 0xc0 == 0x40
            i, pos = H.dec_int(blk, pos, 6 if inc else 4)
            if i:
                n = t.get(i)[0]
            else:
                n, pos = H.dec_string(blk, pos, 1 << 30)
            v, pos = H.dec_string(blk, pos, 1 << 30)
            if inc:
                t.insert((n, v))
            out.append((n, v))
        if out and due is not None:
            raise H.Err('the smallest size announced, %d, is not signalled' % due)
        if out and t.max > limit:
            raise H.Err('field before the required size update')
    return [tuple(x) for x in out]

"""Http2Connection (compiled real code, scripted transport) against oracles/conn.py"""
import random
from vc import build as B
from oracles import hpack as H, conn as O
from oracles.conn import PREFACE, frame
from .hpack import hx, ref_decode, lit, rnd_block

DEF_ROUTES = [
    (b'GET', b'/', 200, '#3', [(b'ab', b'cd')]),
    (b'GET', b'/empty', 204, '-', []),
    (b'POST', b'/', 201, '6162', [(b'content-type', b'x'), (b'x', b'')]),
    (b'GET', b'/throw', 200, 'throw', []),
    (b'GET', b'/int', 200, 'throwint', []),
    (b'GET', b'/big', 200, '#50000', []),
    (b'GET', b'/hdr', 200, '-', [(b'h%d' % i, b'v' * 4000) for i in range(7)]),
]


def driver():
    return B.Driver(B.build('conn', B.all_lib()))


def blk(*hs):
    return b''.join(b'\x00' + lit(n, False) + lit(v, False) for n, v in hs)


def req(sid, path=b'/', method=b'GET', extra=(), flags=5):
    return frame(1, flags, sid, blk((b':method', method), (b':path', path), *extra))


class Run:
    """one connection; every command is recorded for the replay"""

    def __init__(self, rc, d, part, key, routes=DEF_ROUTES, ip='10.0.0.1'):
        self.rc, self.d, self.part, self.key = rc, d, part, key
        self.cmds = []
        self.m = O.Model(routes)
        self.sent, self.calls, self.res = b'', [], None
        self.ok = True
        self.reads = self.shut = 0
        self.ask('reset')
        for m, p, st, b, hs in routes:
            self.ask('route %s %s %d %s%s' % (hx(m), hx(p), st, b, ''.join(' %s %s' % (hx(n), hx(v)) for n, v in hs)))
        self.ask('new 1 %s' % (ip or '-'))

    def ask(self, c):
        self.cmds.append(c)
        return self.d.ask(c)

    def fail(self, what, expected, got):
        self.ok = False
        self.rc.violation(self.part, '%s: %s' % (self.key, what), expected, got, self.cmds, 'conn')
        return False

    def rx(self, *chunks):
        """octets, or an error code as '!n'"""
        if chunks:
            self.ask('rx 1 ' + ' '.join(c if isinstance(c, str) else hx(c) for c in chunks))

    def proc(self):
        a = self.ask('proc 1').split()
        self.res = a[0]
        self.sent += bytes.fromhex(a[1].replace('-', ''))
        self.last_sent = len(a[1]) // 2 if a[1] != '-' else 0
        kv = {}
        for x in a[2:]:
            if x.startswith('call:'):
                self.calls.append(x)
            else:
                k, v = x.split('=')
                kv[k] = int(v)
        self.kv = kv
        self.reads += kv['reads']
        self.shut += kv['shutdowns']
        return self.res

    def want_calls(self):
        return ['call:%s:%s:%s:%s' % (hx(a), hx(b), hx(c), hx(e)) + ''.join(',%s=%s' % (hx(n), hx(v)) for n, v in hs) for a, b, c, e, hs in self.m.calls]

    def compare(self, what='', count=True, res=None):
        """everything sent so far and every call, against the model"""
        if not self.ok:
            return False
        diff = O.Client().check(self.sent, self.m.events, ref_decode)
        if diff is None and self.calls != self.want_calls():
            diff = 'handler calls %r instead of %r' % (self.calls, self.want_calls())
        want = res or ('D' if self.m.state == 'dead' else 'R')
        if diff is None and self.res != want:
            diff = 'process() returned %s instead of %s' % (self.res, want)
        if diff:
            return self.fail(what, repr(self.m.events)[:1500] + ' result ' + want, diff)
        if count:
            self.rc.case(self.part, (self.key, what), True, '%s %s' % (self.key, what), repr(self.m.events)[:200], 'as expected')
        return True


def whole(rc, d, part, key, stream, routes=DEF_ROUTES, splits=None, writes=None):
    """stream delivered in the pieces given; compared after every piece; output accepted as scripted"""
    r = Run(rc, d, part, key, routes)
    pieces = splits or [stream]
    for i, c in enumerate(pieces):
        r.rx(c)
        if writes:
            r.ask('tx 1 ' + ' '.join(str(w) for w in writes(i)))
        r.m.feed(c)
        n = 0
        while r.proc() == 'W' and n < 4000:
            n += 1
        if not r.compare('after %d of %d octets' % (sum(map(len, pieces[:i + 1])), len(stream)), count=i == len(pieces) - 1):
            return r
        if r.m.state == 'dead':
            break
    return r


def cut(b, points):
    pts = sorted(set(x for x in points if 0 < x < len(b)))
    return [b[i:j] for i, j in zip([0] + pts, pts + [len(b)])]


def rnd_frame(r, t):
    k = r.random()
    sid = r.choice((0, 1, 3, 5, 7, 101, 0x7fffffff))
    if k < 0.35:
        return req(sid, r.choice([x[1] for x in DEF_ROUTES] + [b'/none', b'/?q']), r.choice((b'GET', b'GET', b'POST', b'PUT')))
    if k < 0.5:
        tt = H.Table(4096)
        tt.e, tt.max, tt.size = list(t.e), t.max, t.size
        return frame(1, 4 | r.choice((0, 1)), sid, rnd_block(r, tt, r.random() < 0.9)[:16000])
    if k < 0.6:
        pl = b''.join(r.choice((1, 1, 2, 3, 4, 5, 6, 0xffff)).to_bytes(2, 'big') + r.choice((0, 1, 100, 4096, 5000, 1 << 31, (1 << 32) - 1)).to_bytes(4, 'big') for _ in range(r.randrange(4)))
        return frame(4, r.choice((0, 0, 0, 1)), 0, pl + (b'\0' * r.randrange(1, 6) if r.random() < 0.1 else b''))
    if k < 0.7:
        return frame(8, 0, sid, bytes(r.randrange(256) for _ in range(4 if r.random() < 0.9 else r.randrange(8))))
    if k < 0.72:
        return frame(7, 0, 0, bytes(8))
    if k < 0.75:
        return frame(r.choice((0, 2, 3, 5, 6, 10, 255)), r.randrange(256), sid, b'', length=r.choice((16385, 1 << 20, (1 << 24) - 1)))
    return frame(r.choice((0, 2, 3, 5, 6, 9, 10, 200)), r.randrange(256), sid, bytes(r.randrange(256) for _ in range(r.choice((0, 1, 5, 8, 9, 100)))), reserved=r.randrange(2))


def padded(r, b, pad, prio, short=0):
    fl = 4 | 1
    pl = b''
    if pad is not None:
        fl |= 8
        pl += bytes([pad])
    if prio:
        fl |= 0x20
        pl += bytes(r.randrange(256) for _ in range(5))
    pl += b + bytes(pad or 0)
    if short:
        pl = pl[:max(0, len(pl) - short)]
    return frame(1, fl, 1, pl)


# ---------------------------------------------------------------------------------------------------------
SIZES = {'Http2FrameHeader': (9, [3, 1, 1, 4]), 'Http2Setting': (6, [2, 4]), 'Http2GoAwayPayload': (8, [4, 4]), 'Http2WindowUpdate': (4, [4])}
MASK = {'Http2FrameHeader': [-1, -1, -1, 0x7fffffff], 'Http2Setting': [-1, -1], 'Http2GoAwayPayload': [0x7fffffff, -1], 'Http2WindowUpdate': [0x7fffffff]}


def c08(rc):
    rc.rules.append('structures: every octet position with 0, 1, 0x7f, 0x80, 0xff and seeded contents; SETTINGS payloads of every length 0..130 and seeded; all 256 flag octets; distinct by (structure, octets)')
    d = driver()
    r = rc.rng
    cmds = []

    def parse(cls, b):
        n, ws = SIZES[cls]
        out, pos = [], 0
        for w, m in zip(ws, MASK[cls]):
            v = int.from_bytes(b[pos:pos + w], 'big')
            out.append(v & m if m >= 0 else v)
            pos += w
        cmds.append((('p', cls, b), 'parse %s %s' % (cls, hx(b)), 'parse %s %s' % (cls, hx(b)), ' '.join(map(str, out))))
        ser = b''.join(v.to_bytes(w, 'big') for v, w in zip(out, ws))
        cmds.append((('s', cls, ser), 'serialise %s %s' % (cls, out), 'ser %s %s' % (cls, ' '.join(map(str, out))), ser.hex()))
        if cls != 'Http2Setting':
            hi = list(out)
            k = 3 if cls == 'Http2FrameHeader' else 0
            hi[k] |= 1 << 31
            cmds.append((('r', cls, ser), 'serialise %s %s' % (cls, hi), 'ser %s %s' % (cls, ' '.join(map(str, hi))), ser.hex()))

    def settings(b):
        if len(b) % 6:
            e = 'err'
        else:
            e = 'ok' + ''.join(' %d=%d' % (int.from_bytes(b[k:k + 2], 'big'), int.from_bytes(b[k + 2:k + 6], 'big')) for k in range(0, len(b), 6))
        cmds.append((('settings', b), 'SETTINGS payload %s' % hx(b), 'settings ' + hx(b), e))
    for u, l, h in rc.hints:
        if h.get('op') == 'parse':
            parse(h['cls'], bytes.fromhex(h['octets']))
        elif h.get('op') == 'settings':
            settings(bytes.fromhex(h['octets']))
    for cls, (n, ws) in SIZES.items():
        for k in range(n):
            for v in (0, 1, 0x7f, 0x80, 0xff):
                for base in (0, 0xff, 0x5a):
                    b = bytearray([base] * n)
                    b[k] = v
                    parse(cls, bytes(b))
        for _ in range(rc.scale(200)):
            parse(cls, bytes(r.randrange(256) for _ in range(n)))
    for f in range(256):
        w = ''.join(c if f & m else '-' for c, m in (('S', 1), ('H', 4), ('P', 8), ('R', 32)))
        cmds.append((('flags', f), 'flags octet %#04x' % f, 'flags %d' % f, w))
    for n in range(0, 131):
        settings(bytes(r.randrange(256) for _ in range(n)))
    for _ in range(rc.scale(60)):
        settings(bytes(r.randrange(256) for _ in range(6 * r.randrange(40))))
    for n in (127, 128, 255, 256, 257, 300, 1000, 2048, 2730):
        settings(bytes(r.randrange(256) for _ in range(6 * n)))
        settings(bytes(r.randrange(256) for _ in range(6 * n + 1 + n % 5)))
    got = d.batch([c[2] for c in cmds])
    for c, g in zip(cmds, got):
        rc.case('structures', c[0], all(x in (y, '?') for x, y in zip(g, c[3])) if c[0][0] == 'flags' else g == c[3], c[1], c[3], g, [c[2]], 'conn')
    d.close()


def c09(rc):
    rc.rules.append('frames: HEADERS with every pad length/priority combination around its payload size, WINDOW_UPDATE and SETTINGS of every small length, every frame type and flag octet, undecodable blocks; distinct by frame')
    d = driver()
    r = rc.rng
    ok = req(9, b'/empty')
    b = blk((b':method', b'GET'), (b':path', b'/'))

    def one(key, f):
        whole(rc, d, 'frame', key, PREFACE + f + ok)
    for n in (0, 1, 2, 5, 6, 7, 8):
        for fl in (0x04, 0x0c, 0x24, 0x2c, 0x2d, 0x08, 0x20, 0x28):
            for v in (0, 1, 2, 5, 255):
                pl = bytes([v] + [0x82] * 20)[:n]
                one('headers fl=%#x %s' % (fl, hx(pl)), frame(1, fl, 1, pl))
    for pad in (None, 0, 1, 2, 100, 255):
        for prio in (False, True):
            for short in (0, 1, 2, 5, 6):
                one('padded %s %s %d' % (pad, prio, short), padded(r, b, pad, prio, short))
    for n in range(0, 10):
        one('wu %d' % n, frame(8, 0, 0, bytes(range(n))))
        one('wu1 %d' % n, frame(8, 0xff, 1, bytes(range(n))))
    for n in range(0, 20):
        one('settings %d' % n, frame(4, 0, 0, bytes(n)))
        one('settings ack %d' % n, frame(4, 1, 0, bytes(n)))
    for n in (40, 127, 128, 255, 256, 257, 512, 1000, 2047, 2048, 2730):
        one('%d settings' % n, frame(4, 0, 0, b'\0\3\0\0\0\1' * (n - 1) + b'\0\1\0\0\0\x20'))
        one('%d settings, small table first' % n, frame(4, 0, 0, b'\0\1\0\0\0\0' + b'\0\3\0\0\0\1' * (n - 1)))
    for t in list(range(0, 16)) + [0x80, 0xff]:
        for fl in (0, 1, 4, 8, 0x20, 0x2d, 0xff):
            for n in (0, 1, 4, 8):
                if t == 7 and fl:
                    continue
                one('type %d fl %#x len %d' % (t, fl, n), frame(t, fl, r.choice((0, 1)), bytes([0x82] * n)))
    for k in range(rc.scale(60)):
        pl = bytes(r.randrange(256) for _ in range(r.randrange(0, 40)))
        one('random headers %s' % hx(pl), frame(1, r.choice((4, 5, 0xc, 0x24, 0x2c)), 1, pl))
    for bad in (b'\x80', b'\xbe', b'\xff\xff\xff\xff\xff\xff', b'\x00\x05ab', b'\x40\x81\xff', b'\x3f\xe2\xff\x03', b'\x82' * 5 + b'\x80'):
        one('undecodable %s' % hx(bad), frame(1, 5, 1, bad))
    d.close()


def c10(rc):
    rc.rules.append('segmentation: streams of frames delivered octet by octet, split at every position, at seeded positions, and in one piece larger than the buffer; compared with the reference after every delivery; distinct by (stream, split)')
    d = driver()
    r = rc.rng
    base = PREFACE + frame(4, 0, 0, b'\0\3\0\0\0\5') + req(1) + frame(0, 1, 1, b'abc') + req(3, b'/empty') + frame(8, 0, 0, b'\0\0\1\0')
    for p in range(1, len(base)):
        whole(rc, d, 'split', 'at %d' % p, base, splits=cut(base, [p]))
    whole(rc, d, 'split', 'octet by octet', base, splits=[base[i:i + 1] for i in range(len(base))])
    for k in range(24):
        bad = bytearray(base)
        bad[k] ^= 1 << r.randrange(8)
        whole(rc, d, 'preface', 'octet %d wrong' % k, bytes(bad))
        whole(rc, d, 'preface', 'octet %d wrong, split' % k, bytes(bad), splits=cut(bytes(bad), [k, 23, 24]))
        whole(rc, d, 'preface', 'only %d octets' % k, base[:k])
    for n in (16383, 16384, 16385, 16386, 20000, 65535, 1 << 23, (1 << 24) - 1):
        h = frame(0, 0, 1, b'', length=n)
        whole(rc, d, 'size', 'announced %d' % n, PREFACE + h + bytes(100))
        whole(rc, d, 'size', 'announced %d, header in pieces' % n, PREFACE + h, splits=cut(PREFACE + h, range(24, 34)))
        if n <= 16386:
            s = PREFACE + frame(0, 0, 1, bytes(n)) + req(1)
            whole(rc, d, 'size', 'whole %d' % n, s, splits=cut(s, [33, 33 + n - 1, 33 + n, 33 + n + 1]))
    big = PREFACE + b''.join(frame(0, 0, 1, bytes([i & 255]) * 16384) + req(2 * i + 1, b'/empty') for i in range(12))
    whole(rc, d, 'large', 'one piece of %d' % len(big), big)
    whole(rc, d, 'large', 'pieces of 16384', big, splits=[big[i:i + 16384] for i in range(0, len(big), 16384)])
    for k in range(rc.scale(40)):
        t = H.Table(4096)
        fs = [rnd_frame(r, t) for _ in range(r.randrange(1, 8))]
        s = PREFACE + b''.join(fs)
        whole(rc, d, 'random', k, s, splits=cut(s, [r.randrange(len(s)) for _ in range(r.randrange(8))]))
    # the buffered octets stay within 64 KiB even when nothing can be sent
    for n in (70000, 300000):
        run = Run(rc, d, 'buffer', n)
        s = PREFACE + req(1, b'/big') + b''.join(frame(0, 0, 1, bytes(1000)) for _ in range(n // 1009))
        run.rx(s)
        run.ask('tx 1 100000 -1 -1 -1')
        run.proc()
        run.m.feed(PREFACE + req(1, b'/big'))
        buffered = len(s) - run.kv['left'] - run.m.consumed
        rc.case('buffer', n, run.res == 'W' and 0 <= buffered <= 65536, 'output blocked with %d octets waiting' % n, 'at most 65536 octets buffered', '%s %d' % (run.res, buffered), run.cmds, 'conn')
    d.close()


def c11(rc):
    rc.rules.append('response framing: body sizes around every multiple of the chunk and frame sizes, header blocks from empty to 70000 octets, stream identifiers; distinct by (body size, header size, stream)')
    d = driver()
    r = rc.rng
    sizes = [0, 1, 2, 100]
    for m in (16256, 16384, 2 * 16256, 2 * 16384, 3 * 16256, 65536, 100000):
        sizes += [m - 1, m, m + 1]
    for n in sizes:
        rt = [(b'GET', b'/', 200, '#%d' % n, [(b'a', b'b')]), (b'GET', b'/e', 200, '-', [])]
        whole(rc, d, 'body', n, PREFACE + req(1) + req(3, b'/e') + req(5), routes=rt)
    hsz = [0, 1, 100, 4000]
    for m in (16384, 2 * 16384, 3 * 16384):
        hsz += [m - 200, m - 90, m - 60, m, m + 100]
    for m in hsz:
        for body in ('-', '#10'):
            hs, left, i = [], m, 0
            while left > 0:
                v = bytes(r.choice(b'\x00\x01\xf0\xfe') for _ in range(min(left, 3900) // 4 + 1))
                hs.append((b'n%d' % i, v))
                left -= 3900
                i += 1
            whole(rc, d, 'headers', (m, body), PREFACE + req(1) + req(7), routes=[(b'GET', b'/', 200, body, hs)])
    # block sizes one by one around the frame size
    for k in range(-12, 13):
        v = 16384 + k - 40
        hs = [(b'x', b'0' * 3000)] * 0 + [(b'k%d' % i, b'\x00' * 1000) for i in range(4)] + [(b'z', b'\x00' * max(0, (v - 4 * 1640) * 8 // 13))]
        whole(rc, d, 'headers', ('near', k), PREFACE + req(1), routes=[(b'GET', b'/', 200, '#5', hs)])
    for sid in (0, 1, 2, 0x7fffffff):
        whole(rc, d, 'stream', sid, PREFACE + req(sid) + req(sid, b'/big'))
    for n in LARGE:
        whole(rc, d, 'large body', n, PREFACE + req(1) + req(3), routes=[(b'GET', b'/', 200, '#%d' % n, [])])
    d.close()


def c07_settings(rc):
    """the peer's HEADER_TABLE_SIZE settings reach the encoder of the connection: responses before and after them, decoded by the reference"""
    rc.rules.append('connections: SETTINGS with none, one and several HEADER_TABLE_SIZE entries among others, between requests whose responses insert, refer to and evict entries; distinct by (settings, requests)')
    d = driver()
    r = rc.rng
    routes = [(b'GET', b'/', 200, '#3', [(b'ab', b'cd')]), (b'GET', b'/a', 200, '-', [(b'x-a', b'v' * 30)]), (b'GET', b'/b', 201, '-', [(b'x-b%d' % i, b'w' * 40) for i in range(5)]),
              (b'GET', b'/c', 404, '-', [(b'ab', b'cd'), (b'x-b3', b'w' * 40), (b'x-c', b'')])]
    S = lambda *es: frame(4, 0, 0, b''.join(a.to_bytes(2, 'big') + v.to_bytes(4, 'big') for a, v in es))
    fixed = [((1, v),) for v in (0, 1, 31, 32, 64, 100, 500, 4095, 4096, 4097, 65536, (1 << 32) - 1)]
    fixed += [((1, a), (1, b)) for a in (0, 100, 4096, 1 << 31) for b in (0, 100, 4096, 1 << 20)]
    fixed += [((3, 1), (1, 64)), ((1, 64), (3, 1)), ((3, 0), (4, 1), (5, 16384), (1, 0), (6, 9)), ((2, 0),), ((0x101, 0),), ((1, 0), (2, 0), (1, 4096), (4, 7))]
    warm = b''.join(req(2 * i + 1, p) for i, p in enumerate((b'/', b'/a', b'/b')))
    after = b''.join(req(2 * i + 7, p) for i, p in enumerate((b'/', b'/a', b'/b', b'/c', b'/', b'/b')))
    for es in fixed:
        whole(rc, d, 'settings', es, PREFACE + warm + S(*es) + after, routes=routes)
        whole(rc, d, 'settings first', es, PREFACE + S(*es) + after + S((1, 4096)) + after, routes=routes)
    for k in range(rc.scale(60)):
        s = PREFACE
        for i in range(r.randrange(2, 14)):
            if r.random() < 0.5:
                s += S(*((r.choice((1, 1, 1, 2, 3, 4, 5, 6, 9)), r.choice((0, 1, 32, 40, 64, 70, 100, 200, 300, 1000, 4096, 9999, 16384))) for _ in range(r.randrange(4))))
            else:
                s += req(2 * i + 1, r.choice((b'/', b'/a', b'/b', b'/c')))
        whole(rc, d, 'seeded settings', k, s, routes=routes)
    d.close()


LARGE = (1 << 20, 3 << 20, 9 << 20)
KINDS = ['throw', 'throwint'] + ['throw:' + k for k in 'logic invalid range length domain overflow system fs ios alloc array cast call optional future exception own thing string chars code'.split()]


def c12(rc):
    rc.rules.append('responses: requests with missing, repeated and reordered pseudo-headers, every status code length, handler headers of all kinds, handlers that throw, unknown routes, several requests per connection; distinct by request/handler')
    d = driver()
    r = rc.rng
    reqs = {
        'plain': [(b':method', b'GET'), (b':path', b'/')],
        'no method': [(b':path', b'/')],
        'no path': [(b':method', b'GET')],
        'nothing': [],
        'two paths': [(b':path', b'/empty'), (b':method', b'GET'), (b':path', b'/')],
        'two methods': [(b':method', b'POST'), (b':method', b'GET'), (b':path', b'/')],
        'late': [(b'x', b'y'), (b':path', b'/'), (b'a', b''), (b':method', b'GET'), (b'cookie', b'1'), (b'cookie', b'2')],
        'case': [(b':Path', b'/'), (b':method', b'GET')],
        'empty path': [(b':path', b''), (b':method', b'GET')],
        'throw': [(b':method', b'GET'), (b':path', b'/throw')],
        'throw int': [(b':method', b'GET'), (b':path', b'/int')],
        'unknown': [(b':method', b'GET'), (b':path', b'/nope')],
        'other method': [(b':method', b'PUT'), (b':path', b'/')],
        'binary': [(b':method', b'GET'), (b':path', b'/'), (bytes(range(1, 40)), bytes(range(256)))],
    }
    near = [b':path', b':method']
    for nm in near:
        for x in (nm + b'x', nm + b'\0', nm[:-1], nm[1:], nm.upper(), b' ' + nm, nm + b'-override', b'x' + nm, nm[:-1] + b'\0', b':', b''):
            reqs['%s before' % x] = [(x, b'/empty'), (b':method', b'GET'), (b':path', b'/')]
            reqs['%s instead' % x] = [h for h in ((x, b'/'), (b':method', b'GET'), (b':path', b'/')) if h[0] != nm]
            reqs['%s GET before' % x] = [(x, b'POST'), (b':path', b'/'), (b':method', b'GET')]
    for m in (b'get', b'GET ', b'GE', b'GETT', b'', b'HEAD', b'G\0', b'POST'):
        reqs['method %s' % m] = [(b':method', m), (b':path', b'/')]
    for p in (b'/empty/', b'/Empty', b'/emp', b'//', b'/ ', b'/\0', b'/?', b'*', b'/empty#', b'/empt%79'):
        reqs['path %s' % p] = [(b':method', b'GET'), (b':path', p)]
    for n, hs in reqs.items():
        whole(rc, d, 'request', n, PREFACE + frame(1, 5, 1, blk(*hs)) + req(3) + frame(1, 5, 5, blk(*hs)) + req(7, b'/empty'))
    for k in KINDS:
        whole(rc, d, 'thrown', k, PREFACE + req(1) + req(3, b'/empty') + req(5), routes=[(b'GET', b'/', 200, k, [(b'a', b'b')])] + DEF_ROUTES[1:])
    for st in (0, 1, 99, 100, 200, 204, 304, 400, 404, 500, 599, 999, 1000, 65535):
        for b in ('-', '#1', '#10'):
            whole(rc, d, 'status', (st, b), PREFACE + req(1) + req(3), routes=[(b'GET', b'/', st, b, [(b'a', b'b')])])
    for k in range(rc.scale(40)):
        hs = [(bytes(r.randrange(97, 123) for _ in range(r.randrange(1, 12))), bytes(r.randrange(256) for _ in range(r.choice((0, 1, 4, 30, 300))))) for _ in range(r.randrange(6))]
        if k % 4 == 0:
            hs += [(b'content-length', b'5'), (b'server', b'x'), (b'content-type', b'text/html')]
        pool = [b'x-a', b'x-b', b'server', b'date', b'etag', b'set-cookie', b':status', b':x', b'', b'A-B', b'content-length', b'content-type', b'X', b'zz', b'\0']
        if k % 2:
            hs = [(r.choice(pool), bytes(r.randrange(256) for _ in range(r.randrange(5)))) for _ in range(r.randrange(1, 9))]
        if k % 8 == 1:
            hs = [(b'x-' + n, v) for n, v in hs]
        rt = [(b'GET', b'/', r.choice((200, 201, 301, 404)), '#%d' % r.choice((0, 1, 9, 10, 99, 100, 1000)), hs), (b'GET', b'/', 500, '-', [])]
        ex = [(bytes(r.randrange(97, 123) for _ in range(3)), b'v' * r.randrange(50)) for _ in range(r.randrange(4))]
        whole(rc, d, 'handler', k, PREFACE + req(1, extra=ex) + req(3) + req(5, b'/x'), routes=rt)
    d.close()


def c13(rc):
    rc.rules.append('output: responses accepted one octet, a few octets or not at all at a time in seeded orders, failures of every kind at every write; the accepted octets compared with the framed responses; distinct by (responses, write outcomes)')
    d = driver()
    r = rc.rng
    # the transport accepts what it is told to; the model of the output does not depend on it
    s = PREFACE + frame(4, 0, 0, b'') + req(1) + req(3, b'/empty') + req(5)
    for w in (1, 2, 3, 7, 9, 17, 50):
        whole(rc, d, 'partial', w, s, writes=lambda i: [w] * 600)
    for k in range(rc.scale(40)):
        rr = random.Random('%s/%d' % (rc.seed, k))
        st = PREFACE + b''.join(req(2 * i + 1, rr.choice((b'/', b'/empty', b'/big', b'/hdr'))) for i in range(rr.randrange(1, 4)))
        whole(rc, d, 'mixed', k, st, writes=lambda i: [rr.choice((-1, -1, 0, 1, 5, 100, 16384, 20000)) for _ in range(40)])
    for n in LARGE:
        for w in ([-1, -1], [-1, 70000, -1, 1 << 22, 1, -1], [100] * 20):
            whole(rc, d, 'large', (n, tuple(w)), PREFACE + req(1) + req(3), routes=[(b'GET', b'/', 200, '#%d' % n, [])], writes=lambda i: w)
    # while output is pending nothing is read or processed
    for blocked in (1, 3, 5):
        run = Run(rc, d, 'blocked', blocked)
        run.rx(PREFACE + req(1))
        run.ask('tx 1' + ' 100000' + ' -1' * blocked)
        run.m.feed(PREFACE + req(1))
        for k in range(blocked):
            run.rx(req(3, b'/empty'))
            res = run.proc()
            reads = run.kv['reads']
            good = res == 'W' and len(run.calls) == 1 and (k == 0 or reads == 0)
            rc.case('blocked', (blocked, k), good, 'write blocked %d times' % (k + 1), 'W, nothing read or handled', '%s calls=%d reads=%d' % (res, len(run.calls), reads), run.cmds, 'conn')
        run.proc()
        for k in range(blocked):
            run.m.feed(req(3, b'/empty'))
        run.compare('after the block')
    # a partial write after which more is blocked
    for first in (1, 9, 10, 26, 27, 28, 30):
        run = Run(rc, d, 'blocked', ('first', first))
        run.rx(PREFACE + req(1))
        run.ask('tx 1 %d -1 -1' % first)
        run.m.feed(PREFACE + req(1))
        while run.proc() == 'W':
            pass
        run.compare('first write of %d' % first)
    # failures
    for err in (1, 2, 3, 4):
        for at in range(4):
            run = Run(rc, d, 'failure', (err, at))
            run.rx(PREFACE + req(1) + req(3))
            run.ask('tx 1' + ' 100000' * at + ' %d' % (-1 - err))
            run.proc()
            n = len(run.sent)
            a = run.res
            calls = len(run.calls)
            good = True
            if at <= 2:
                good = a == 'D'
                before = run.sent
                run.rx(req(5))
                run.proc()
                good = good and run.res == 'D' and len(run.calls) == calls
            rc.case('failure', (err, at), good, 'write %d fails with error %d' % (at + 1, err), 'the connection is discarded', '%s then %s, calls %d' % (a, run.res, len(run.calls)), run.cmds, 'conn')
    d.close()


def c14(rc):
    rc.rules.append('ends: every way a connection ends (errors in frames of each kind, GOAWAY, end of input, handshake and read failures, handler and transport exceptions) after histories of requests, followed by more input; distinct by (history, end)')
    d = driver()
    r = rc.rng
    ends = {
        'too big': frame(0, 0, 1, b'', length=16385),
        'settings': frame(4, 0, 0, b'\0'),
        'window update': frame(8, 0, 0, b'\0'),
        'headers': frame(1, 5, 99, b'\x80'),
        'padding': frame(1, 0x0d, 99, b'\xff'),
        'goaway': frame(7, 0, 0, bytes(8)),
        'goaway short': frame(7, 0, 0, b''),
    }
    hists = {'none': [], 'one': [1], 'up': [1, 3, 5], 'down': [5, 3, 1], 'mixed': [3, 0x7fffffff, 5], 'zero': [0]}
    for en, e in ends.items():
        for hn, hs in hists.items():
            for block in (False, True):
                run = Run(rc, d, 'end', (en, hn, block))
                s = PREFACE + b''.join(req(i) for i in hs) + e
                run.rx(s + req(201) + e)
                if block:
                    run.ask('tx 1' + ' -1 3 -1 2' * 2)
                run.m.feed(s)
                n = 0
                while run.proc() == 'W' and n < 500:
                    n += 1
                if not run.compare('end'):
                    continue
                # nothing more is handled, nothing more is answered
                run.rx(req(203))
                before = (run.sent, list(run.calls))
                for _ in range(3):
                    run.proc()
                good = run.res == 'D' and run.calls == before[1] and run.sent == before[0]
                rc.case('after', (en, hn, block), good, 'more input after %s' % en, 'D, no call, nothing sent', '%s calls %d sent %s' % (run.res, len(run.calls) - len(before[1]), run.sent[len(before[0]):].hex()), run.cmds, 'conn')
    # the GOAWAY of a protocol error is delivered even if the transport accepts it piecewise at first
    for code, want in ((0, None), (1, 'any'), (2, 'D'), (3, 'D'), (4, 'any')):
        for at in range(0, 3):
            run = Run(rc, d, 'read', (code, at))
            run.rx(*([PREFACE, req(1), req(3)][:at] + ['!%d' % code]))
            run.proc()
            got = run.res
            x = got
            if want is None or want == 'any':
                good = got in ('R', 'D') and got != 'X'
            else:
                if got == 'W' or got == 'R':
                    run.proc()
                good = run.res == 'D'
                calls = len(run.calls)
                run.rx(req(9))
                run.proc()
                good = good and run.res == 'D' and len(run.calls) == calls
            rc.case('read', (code, at), good, 'read result %d after %d pieces' % (code, at), want or 'R', run.res, run.cmds, 'conn')
    # handshake
    for hs, want in (((0, 0, -1), 'RRR'), ((2,), 'D'), ((3,), 'D'), ((1,), 'D'), ((4,), 'D'), ((0, 3), 'RD'), ((0, 2), 'RD')):
        run = Run(rc, d, 'handshake', hs)
        run.ask('hs 1 ' + ' '.join(map(str, hs)))
        run.rx(PREFACE + req(1))
        got = ''
        for _ in want:
            run.proc()
            got += run.res
            if run.res == 'D':
                break
        good = got == want and len(run.calls) == (1 if want.endswith('R') else 0) and (want.endswith('R') or (not run.sent and run.reads == 0))
        rc.case('handshake', hs, good, 'handshake results %s' % (hs,), want, '%s calls %d sent %s' % (got, len(run.calls), run.sent.hex()), run.cmds, 'conn')
    # nothing throws to the caller
    for name, cmds in [('read %d' % k, ['rx 1 !%d' % (100 + k)]) for k in range(10)] + [('write %d' % k, ['rx 1 ' + hx(PREFACE + req(1)), 'tx 1 %d' % (-101 - k)]) for k in range(10)]:
        run = Run(rc, d, 'throw', name)
        for c in cmds:
            run.ask(c)
        run.proc()
        rc.case('throw', name, run.res == 'D', 'the transport throws on %s' % name, 'D', run.res, run.cmds, 'conn')
        if name[0] == 'w':
            run.rx(req(3))
            run.proc()
            rc.case('throw', name + '2', run.res == 'D' and len(run.calls) == 0, 'after the exception', 'D and no call', '%s %d' % (run.res, len(run.calls)), run.cmds, 'conn')
    # random histories
    for k in range(rc.scale(60)):
        t = H.Table(4096)
        s = PREFACE + b''.join(rnd_frame(r, t) for _ in range(r.randrange(1, 12)))
        run = whole(rc, d, 'history', k, s)
        if run.ok and run.m.state == 'dead':
            n, c = len(run.sent), len(run.calls)
            run.rx(req(77))
            run.proc()
            rc.case('after', ('history', k), run.res == 'D' and len(run.sent) == n and len(run.calls) == c, 'more input after the end', 'D', run.res, run.cmds, 'conn')
    d.close()


def c28(rc):
    """spans recorded by the OpenTelemetry stand-in, per request"""
    import os
    rc.rules.append('tracing: requests of every kind (plain, missing or repeated pseudo-headers, handlers that throw, unknown routes, several per connection and interleaved over two connections, undecodable blocks, other frames); the spans recorded, their attributes, '
                    'what was current in handlers and log lines; distinct by request sequence')
    d = B.Driver(B.build('conn', B.all_lib() + [os.path.join(B.VERIF, 'drivers', 'flag.cpp'), os.path.join(B.REPO, 'app', 'trace_id_flag.cpp')]))
    r = rc.rng

    def tid(k):
        return bytes(b'0123456789abcdef'[(k + i) % 16] for i in range(32))

    def expect(hs, routes, ip):
        """(attributes, handler called, status, body size)"""
        first = lambda n: next((v for k, v in hs if k == n), None)
        p, m = first(b':path'), first(b':method')
        if p is None or m is None:
            return {b'http.status_code': b'400'}, False
        st, called = 404, False
        for rm, rp, s, b, _ in routes:
            if (rm, rp) == (m, p):
                st, called = (500 if b.startswith('throw') else s), True
                break
        return {b'http.method': m, b'http.target': p, b'ion.client_ip': ip, b'http.status_code': b'%d' % st}, called

    def run(part, key, seq, ip='10.0.0.1'):
        """seq: list of header lists (requests), or ('raw', octets, is the rest dead)"""
        x = Run(rc, d, part, key, ip=ip)
        x.ask('accesslog 1')
        x.ask('trace 1')
        x.ask('outside')
        want = [(None, [b'outside'])]
        s = PREFACE
        for i, q in enumerate(seq):
            s += q[1] if q[:1] and q[0] == 'raw' else frame(1, 5, 2 * i + 1, blk(*q))
        x.rx(*cut(s, [r.randrange(len(s))] if len(seq) % 2 else []))
        n = 0
        if r.random() < 0.3:
            x.ask('tx 1 ' + ' '.join(str(r.choice((-1, 1, 20))) for _ in range(20)))
        while x.proc() == 'W' and n < 100:
            n += 1
        x.proc()
        x.ask('outside')
        a = x.ask('events')
        x.ask('lines')
        x.ask('trace 0')
        x.ask('accesslog 0')
        ev = a.split('|')
        bad = None
        if ev[0].split()[1] != '0':
            bad = 'a span is still current'
        spans, cur = {}, []
        mine = []
        for e in ev[1:]:
            w = e.split(' ')
            if w[0] == 'start':
                spans[w[1]] = dict(name=w[2], attrs={}, ended=0, handlers=0, lines=[])
                mine.append(w[1])
            elif w[0] == 'attr':
                spans[w[1]]['attrs'][w[2].encode()] = bytes.fromhex(w[3].replace('-', ''))
            elif w[0] == 'end':
                spans[w[1]]['ended'] += 1
            elif w[0] == 'handler':
                if w[1] not in spans or spans[w[1]]['ended']:
                    bad = bad or 'a handler runs without a current span'
                else:
                    spans[w[1]]['handlers'] += 1
            elif w[0] == 'line':
                t = bytes.fromhex(w[2])
                out = t == b'outside'
                if w[1] == '0':
                    if not out:
                        bad = bad or 'a line of a request is written without a current span: %r' % t
                elif out or not t.startswith(b'[' + tid(int(w[1])) + b'] ') or spans[w[1]]['ended']:
                    bad = bad or 'line %r while span %s is current' % (t, w[1])
                else:
                    spans[w[1]]['lines'].append(t)
        if bad is None and any(v['ended'] != 1 for v in spans.values()):
            bad = 'a span is not ended exactly once'
        exp = []
        for q in seq:
            if q[:1] and q[0] == 'raw':
                if q[2]:
                    break
                continue
            exp.append(expect(q, DEF_ROUTES, ip.encode() if ip else b''))
        done = [spans[k] for k in mine if b'http.status_code' in spans[k]['attrs'] or spans[k]['handlers'] or spans[k]['lines']]
        if bad is None and [(x['name'], x['attrs'], x['handlers'], len(x['lines'])) for x in done] != [('http_request', a, int(c), 1 + c) for a, c in exp]:
            bad = 'spans %r' % ([(x['name'], x['attrs'], x['handlers'], len(x['lines'])) for x in done],)
        rc.case(part, key, bad is None, '%r from %s' % (seq, ip), 'one finished span per request: %r' % (exp,), bad or 'as expected', x.cmds, 'conn')

    try:
        G, M, P = (b':method', b'GET'), b':method', b':path'
        for n, hs in {'plain': [G, (P, b'/')], 'empty body': [G, (P, b'/empty')], 'no method': [(P, b'/')], 'no path': [G], 'nothing': [], 'throws': [G, (P, b'/throw')], 'throws an int': [G, (P, b'/int')],
                      'unknown': [G, (P, b'/nope')], 'post': [(M, b'POST'), (P, b'/')], 'two paths': [(P, b'/empty'), G, (P, b'/')], 'two methods': [(M, b'POST'), G, (P, b'/')],
                      'large': [G, (P, b'/big')], 'binary': [(M, b'\x00\xff'), (P, bytes(range(256)))], 'empty values': [(M, b''), (P, b'')], 'query': [G, (P, b'/?a=b')], 'long': [G, (P, b'/' + b'x' * 3000)]}.items():
            for ip in ('10.0.0.1', '::1', None):
                run('request', (n, ip), [hs], ip)
            run('request', (n, 'twice'), [hs, [G, (P, b'/')], hs])
        raws = [('raw', frame(4, 0, 0, b''), False), ('raw', frame(8, 0, 0, bytes(4)), False), ('raw', frame(6, 0, 0, bytes(8)), False), ('raw', frame(0, 0, 1, b'abc'), False),
                ('raw', frame(1, 5, 99, b'\x80'), True), ('raw', frame(1, 0x0d, 99, b'\xff'), True), ('raw', frame(7, 0, 0, bytes(8)), True), ('raw', frame(8, 0, 0, b'\0'), True)]
        for i, q in enumerate(raws):
            run('frames', i, [[G, (P, b'/')], q, [G, (P, b'/empty')]])
        for k in range(rc.scale(20)):
            seq = [r.choice(raws[:4]) if r.random() < 0.3 else r.choice(([G, (P, b'/')], [G, (P, b'/throw')], [(P, b'/')], [(M, b'POST'), (P, b'/')], [G, (P, b'/nope')], [G, (P, bytes(r.randrange(256) for _ in range(r.randrange(20))))]))
                   for _ in range(r.randrange(1, 7))]
            run('sequence', k, seq)
    finally:
        d.close()

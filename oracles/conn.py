"""Reference behaviour of one HTTP/2 connection of the server, as the properties state it (RFC 9113 framing, RFC 7541 blocks)."""
from . import hpack as H

PREFACE = b'PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n'
MAXF = 16384


def frame(t, flags, sid, payload, length=None, reserved=0):
    n = len(payload) if length is None else length
    return n.to_bytes(3, 'big') + bytes([t, flags]) + (sid | reserved << 31).to_bytes(4, 'big') + payload


class Bad(Exception):
    pass


def body_of(spec):
    if spec[:1] == '#':
        n = int(spec[1:])
        return bytes((i * 7 + i // 251) & 255 for i in range(n))
    return bytes.fromhex(spec.replace('-', ''))


class Model:
    """what the connection does with the octets it has received so far"""

    def __init__(self, routes):
        self.routes = routes            # [(method, path, status, body spec, headers)]
        self.buf = b''
        self.state = 'preface'
        self.events, self.calls = [], []
        self.t = H.Table(4096)
        self.last = 0
        self.limit = 4096
        self.consumed = 0

    def feed(self, octets):
        self.buf += octets
        while self.step():
            pass

    def take(self, n):
        b, self.buf = self.buf[:n], self.buf[n:]
        self.consumed += n
        return b

    def error(self):
        self.state = 'dead'
        self.events.append(('goaway', self.last, 1))
        return False

    def step(self):
        if self.state == 'preface':
            if len(self.buf) < 24:
                return False
            if self.buf[:24] != PREFACE:
                self.state = 'dead'
                return False
            self.take(24)
            self.state = 'frames'
            self.events.append(('settings',))
            return True
        if self.state != 'frames' or len(self.buf) < 9:
            return False
        n = int.from_bytes(self.buf[:3], 'big')
        if n > MAXF:
            return self.error()
        if len(self.buf) < 9 + n:
            return False
        f = self.take(9 + n)
        t, fl, sid, pl = f[3], f[4], int.from_bytes(f[5:9], 'big') & 0x7fffffff, f[9:]
        if t == 4:
            if fl & 1:
                return True
            if n % 6:
                return self.error()
            for k in range(0, n, 6):
                if int.from_bytes(pl[k:k + 2], 'big') == 1:
                    self.events.append(('limit', int.from_bytes(pl[k + 2:k + 6], 'big')))
            self.events.append(('ack',))
        elif t == 1:
            pre = (1 if fl & 8 else 0) + (5 if fl & 0x20 else 0)
            if n < pre:
                return self.error()
            pad = pl[0] if fl & 8 else 0
            if pad > n - pre:
                return self.error()
            try:
                hs = H.dec_block(pl[pre:n - pad], self.t)
            except H.Err:
                return self.error()
            self.last = max(self.last, sid)
            self.events.append(('resp', sid) + self.request(hs))
        elif t == 8:
            if n != 4:
                return self.error()
        elif t == 7:
            self.state = 'dead'
            return False
        return True

    def request(self, hs):
        first = lambda n: next((v for k, v in hs if k == n), None)
        path, meth = first(b':path'), first(b':method')
        hh, body = [], b''
        if path is None or meth is None:
            st = 400
        else:
            r = next((r for r in self.routes if r[1] == path and r[0] == meth), None)
            if r is None:
                st = 404
            else:
                self.calls.append((r[0], r[1], meth, path, tuple(hs)))
                if r[3].startswith('throw'):
                    st = 500
                else:
                    st, body, hh = r[2], body_of(r[3]), list(r[4])
        out = [(b':status', b'%d' % st)] + hh
        if body:
            out.append((b'content-length', b'%d' % len(body)))
        return out, body


def parse_frames(b):
    out = []
    while b:
        if len(b) < 9:
            raise Bad('incomplete frame header sent: %s' % b.hex())
        n = int.from_bytes(b[:3], 'big')
        if n > MAXF:
            raise Bad('frame of %d octets sent' % n)
        if len(b) < 9 + n:
            raise Bad('frame of %d octets sent with %d' % (n, len(b) - 9))
        if b[5] & 0x80:
            raise Bad('reserved bit sent')
        out.append((b[3], b[4], int.from_bytes(b[5:9], 'big'), b[9:9 + n]))
        b = b[9 + n:]
    return out


class Client:
    """parses what the server sent, as a conforming client; compares with the model's events"""

    def __init__(self):
        self.t = H.Table(4096)
        self.limit = self.low = 4096         # the table size announced last, the smallest announced since the last block

    def check(self, sent, events, ref_decode, complete=True):
        """sent: all octets; events: all expected; None or a description of the first difference"""
        try:
            fs = parse_frames(sent)
        except Bad as e:
            return str(e)
        i = 0
        for ev in events:
            if ev[0] == 'limit':
                self.limit = ev[1]
                self.low = min(self.low, ev[1])
                continue
            if i >= len(fs):
                return 'missing: %s' % repr(ev)[:300]
            t, fl, sid, pl = fs[i]
            i += 1
            if ev[0] == 'settings':
                if t != 4 or fl or sid or len(pl) % 6:
                    return 'SETTINGS expected, got type %d flags %d' % (t, fl)
                m = {int.from_bytes(pl[k:k + 2], 'big'): int.from_bytes(pl[k + 2:k + 6], 'big') for k in range(0, len(pl), 6)}
                if m.get(5, 16384) != 16384:
                    return 'SETTINGS_MAX_FRAME_SIZE announced as %d, 16384 accepted' % m[5]
            elif ev[0] == 'ack':
                if t != 4 or fl != 1 or sid or pl:
                    return 'SETTINGS ACK expected, got type %d flags %d' % (t, fl)
            elif ev[0] == 'goaway':
                if t != 7 or sid or len(pl) != 8 or int.from_bytes(pl[:4], 'big') != ev[1] or int.from_bytes(pl[4:], 'big') != ev[2]:
                    return 'GOAWAY(last=%d, code=%d) expected, got type %d stream %d %s' % (ev[1], ev[2], t, sid, pl[:40].hex())
            else:
                _, wsid, wh, body = ev
                if t != 1 or sid != wsid:
                    return 'HEADERS on stream %d expected, got type %d stream %d' % (wsid, t, sid)
                blk = pl
                end = bool(fl & 1)
                if fl & ~5:
                    return 'HEADERS flags %#x' % fl
                done = fl & 4
                while not done:
                    if i >= len(fs) or fs[i][0] != 9 or fs[i][2] != wsid or fs[i][1] & ~4:
                        return 'CONTINUATION expected'
                    done = fs[i][1] & 4
                    blk += fs[i][3]
                    i += 1
                if end != (not body):
                    return 'END_STREAM on the header frame is %s, body of %d octets' % (end, len(body))
                try:
                    hs = ref_decode(blk, self.t, self.limit, self.low)
                except H.Err as e:
                    return 'header block: %s' % e
                self.low = self.limit
                n = len(wh)
                if hs[:n] != wh:
                    return 'headers %r instead of %r' % (hs[:n + 2], wh)
                if [k for k, v in hs[n:]] != [b'server', b'x-powered-by'] or not all(v for k, v in hs[n:]):
                    return 'after the headers of the handler: %r' % hs[n:]
                got = b''
                while not end:
                    if i >= len(fs) or fs[i][0] != 0 or fs[i][2] != wsid or fs[i][1] & ~1:
                        return 'DATA on stream %d expected after %d of %d body octets' % (wsid, len(got), len(body))
                    got += fs[i][3]
                    end = fs[i][1] & 1
                    i += 1
                if got != body:
                    return 'body of %d octets instead of %d, or other contents' % (len(got), len(body))
        if i < len(fs):
            return 'not expected: frame type %d flags %d stream %d %s' % (fs[i][0], fs[i][1], fs[i][2], fs[i][3][:40].hex())
        return None

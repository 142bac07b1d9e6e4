"""sockets, transports, pollers and the server (compiled real code) on the scripted kernel of drivers/sys.cpp"""
import os
from vc import build as B

WRAP = ('read recv write send close shutdown socket accept accept4 bind listen setsockopt getsockopt fcntl fcntl64 ioctl getpeername '
        'epoll_create epoll_create1 epoll_ctl epoll_wait epoll_pwait poll '
        'SSL_CTX_new SSL_CTX_free SSL_CTX_use_certificate_file SSL_CTX_use_certificate_chain_file SSL_CTX_use_PrivateKey_file SSL_CTX_check_private_key '
        'SSL_CTX_set_alpn_select_cb SSL_CTX_set_keylog_callback SSL_new SSL_free SSL_set_fd SSL_read SSL_write SSL_read_ex SSL_write_ex SSL_accept '
        'SSL_do_handshake SSL_set_accept_state SSL_get_error SSL_shutdown SSL_get_wbio BIO_ctrl ERR_clear_error ERR_get_error ERR_peek_error '
        'ERR_peek_last_error ERR_print_errors_fp').split()


def driver(signals=False):
    more = [os.path.join(B.VERIF, 'drivers', 'signals.cpp'), os.path.join(B.REPO, 'app', 'signal_handler.cpp')] if signals else []
    return B.Driver(B.build('sys', B.all_lib() + more, link=['-Wl,--wrap=%s' % w for w in WRAP]))


WANT_READ, WANT_WRITE, ZERO, SSLE, SYSCALL = 2, 3, 6, 1, 5
EAGAIN, ECONNRESET, EPIPE, EBADF, ENOTCONN, EIO, EINTR = 11, 104, 32, 9, 107, 5, 4
STALE = 0x0A000123          # an error of the SSL library left on the queue by an earlier connection
EOF_REASON = 0x0A000126     # SSL_R_UNEXPECTED_EOF_WHILE_READING (294)


def _pre(rc, d, part, key, what, cmds, want):
    """want(answer of the last command) -> (ok, expected text)"""
    got = ''
    try:
        for c in ['reset'] + cmds:
            got = d.ask(c)
    except B.Crash as e:
        rc.violation(part, what, 'an answer', 'abnormal end: ' + e.err, cmds, 'sys')
        raise
    ok, exp = want(got)
    rc.case(part, key, ok, what, exp, got, cmds, 'sys')
    return ok


def head(a):
    return a.split(' |')[0]


def nobad(a):
    return a.rstrip().endswith('| bad')


def calls(a, nm):
    """how often a call was made"""
    return sum(x.split('(')[0] == nm for x in a.split('|')[1].split()) if '|' in a else 0


def c21(rc):
    rc.rules.append('TcpTransport and TlsTransport on scripted results of read/write/SSL_read/SSL_write/SSL_accept/SSL_get_error, each (result, error code, stale error) once per buffer size; distinct: by that combination')
    d = driver()
    try:
        _c21(rc, d)
    finally:
        d.close()


def _c21(rc, d):
    data = bytes(range(1, 65))
    for n in (1, 2, 16, 64):
        for k in sorted({1, n // 2 or 1, n - 1 or 1, n}):
            for tr in ('tcp', 'tls'):
                exp = 'ok %d %s' % (k, (data[:k] + b'\xa5' * (n - k)).hex())
                _pre(rc, d, 'read', (tr, n, k), '%s read of %d octets, %d transferred' % (tr, n, k), ['script read %d 0 %s' % (k, data[:k].hex()), '%s read %d' % (tr, n)],
                     lambda a, exp=exp: (head(a) == exp and nobad(a), exp))
            pat = bytes((i * 7 + 1) & 255 for i in range(n))
            exp = 'ok %d %s' % (k, pat[:k].hex())
            _pre(rc, d, 'write', ('tcp', n, k), 'tcp write of %d octets, %d taken' % (n, k), ['script write %d 0' % k, 'tcp write %d' % n], lambda a, exp=exp: (head(a) == exp and nobad(a), exp))
        pat = bytes((i * 7 + 1) & 255 for i in range(n))
        exp = 'ok %d %s' % (n, pat.hex())
        _pre(rc, d, 'write', ('tls', n, n), 'tls write of %d octets' % n, ['script write %d 0' % n, 'tls write %d' % n], lambda a, exp=exp: (head(a) == exp and nobad(a), exp))
    fail = ('protocol', 'write', 'other')
    # TCP
    for what in ('read', 'write'):
        for e in (EAGAIN, ECONNRESET, EPIPE, EIO, ENOTCONN, EBADF) + tuple(e for e in range(1, 134) if e not in (EAGAIN, 4, ECONNRESET, EPIPE, EIO, ENOTCONN, EBADF)):
            ex = ('want',) if e == EAGAIN else fail + (('closed',) if e in (ECONNRESET, EPIPE) else ())
            _pre(rc, d, what, ('tcp', e), 'tcp %s fails with errno %d' % (what, e), ['script %s -1 %d' % (what, e), 'tcp %s 8' % what],
                 lambda a, ex=ex: (a.split()[0] in ex and nobad(a), '|'.join(ex)))
    _pre(rc, d, 'read', ('tcp', 'eof'), 'tcp read at end of stream', ['script read 0 0', 'tcp read 8'], lambda a: (a.split()[0] == 'closed' and nobad(a), 'closed'))
    _pre(rc, d, 'handshake', 'tcp', 'tcp handshake', ['tcp accept'], lambda a: (head(a) == 'ok' and nobad(a), 'ok'))
    # TLS
    for what in ('read', 'write', 'accept'):
        for v in (-1, 0):
            for code in (WANT_READ, WANT_WRITE, ZERO, SSLE, SYSCALL):
                for push in ((0,) if code != SSLE else (0x0A000102, 0x0A00009C) + ((EOF_REASON,) if what == 'accept' else ())):
                    for stale in ((), (STALE,), (STALE, 0x02000002)):
                        ex = {WANT_READ: ('want',), WANT_WRITE: ('want',), ZERO: ('closed',), SSLE: ('protocol',) if push != EOF_REASON else ('closed', 'protocol'),
                              SYSCALL: fail + ('closed',)}[code]
                        _pre(rc, d, what, ('tls', v, code, push, len(stale)), 'SSL_%s returns %d, SSL_get_error %d%s%s' % (
                            what, v, code, ' (reason 0x%x)' % push if push else '', ', an older error on the queue' if stale else ''),
                            ['stale %d' % s for s in stale] + (['errpush %d' % push] if push else []) + ['script %s %d %d' % (what, v, code), 'tls %s 8' % what],
                            lambda a, ex=ex: (a.split()[0] in ex and nobad(a), '|'.join(ex)))
    for stale in ((), (STALE,)):
        _pre(rc, d, 'handshake', ('tls', len(stale)), 'SSL_accept returns 1', ['stale %d' % s for s in stale] + ['script accept 1 0', 'tls accept'], lambda a: (head(a) == 'ok' and nobad(a), 'ok'))
        # an error left by one connection is not seen by the next: failure on one, would-block on the other
        for first in ('read', 'write', 'accept'):
            for second in ('read', 'write', 'accept'):
                _pre(rc, d, 'cross', (first, second), 'SSL_%s of one connection fails, then SSL_%s of another would block' % (first, second),
                     ['errpush %d' % 0x0A000102, 'script %s -1 %d' % (first, SSLE), 'tls %s 8' % first, 'errpush 0', 'script %s -1 %d' % (second, WANT_READ), 'tls %s 8' % second],
                     lambda a: (a.split()[0] == 'want' and nobad(a), 'want'))
    for tr in ('tcp', 'tls'):
        for r in (0, 1, -1):
            _pre(rc, d, 'shutdown', (tr, r), '%s graceful_shutdown (result %d)' % (tr, r), ['script shutdown %d 0' % r] + (['fail shutdown 0 107'] if r < 0 else []) + ['%s shutdown' % tr],
                 lambda a, tr=tr: (head(a) == 'done' and nobad(a) and ('shutdown(100000,1)' in a if tr == 'tcp' else 'SSL_shutdown' in a), 'the peer is notified on its own descriptor'))


# ---- C22 -------------------------------------------------------------------------------------------
IN, PRI, OUT, ERR, HUP, NVAL, RDHUP = 1, 2, 4, 8, 16, 32, 0x2000
R, W, H, E = 1, 2, 4, 8


def ev_of(m):
    return (R if m & IN else 0) | (W if m & OUT else 0) | (H if m & HUP else 0) | (E if m & ERR else 0)


def mask_of(ev):
    return (IN if ev & R else 0) | (OUT if ev & W else 0)


class PollRun:
    def __init__(self, rc, d, kind, part):
        self.rc, self.d, self.kind, self.part = rc, d, kind, part
        self.cmds, self.want, self.fds = [], {}, []
        self.ask('reset')
        self.ask('poller ' + kind)

    def ask(self, c):
        self.cmds.append(c)
        return self.d.ask(c)

    def mk(self):
        f = int(self.ask('mk'))
        self.fds.append(f)
        return f

    def set(self, f, e, fail=None):
        if fail:
            self.ask('fail epoll_ctl 0 %d' % fail)
        self.ask('pset %d %d' % (f, e))
        if not fail or self.kind == 'poll':
            self.want[f] = e

    def rem(self, f):
        self.ask('prem %d' % f)
        self.want.pop(f, None)

    def poll(self, evs, ms=25, what=''):
        """evs: {fd: mask}; checks what the kernel was asked for and what came back"""
        for f, m in evs.items():
            self.ask('pend %d %d' % (f, m))
        got_all, asked, rounds = {}, None, 0
        expect = {f: m for f, m in evs.items() if f in self.want and m}
        while True:
            a = self.ask('ppoll %d' % ms)
            h, t, k = [x.strip() for x in a.split('|')]
            rounds += 1
            if rounds == 1:
                asked = dict(tuple(x.split(':')) for x in k.split())
                if t != str(ms):
                    return self.res(False, what, 'time-out %d' % ms, a)
            if not h.startswith('ok'):
                break
            for x in h.split()[1:]:
                f, e = x.split(':')
                if int(e):
                    got_all[int(f)] = got_all.get(int(f), 0) | int(e)
            if self.kind == 'poll' or rounds > 40:
                break
        if self.kind == 'poll':
            self.ask('script wait 0 0')      # forget the pending events
            self.fresh()
        exp_asked = {str(f): str(mask_of(e)) for f, e in self.want.items()}
        exp = {f: ev_of(m) for f, m in expect.items() if ev_of(m)}
        ok = asked == exp_asked and got_all == exp and (bool(expect) or h == 'timeout' or self.kind != 'poll' or not evs)
        return self.res(ok, what, 'asked for %s, delivers %s' % (exp_asked, exp), '%s; asked %s; all rounds %s' % (a, asked, got_all))

    def fresh(self):
        """a new history with the same registrations (poll(2): pending events do not go away by themselves)"""
        w = dict(self.want)
        n = len(self.fds)
        self.cmds = []
        self.ask('reset')
        self.ask('poller ' + self.kind)
        self.fds = []
        for _ in range(n):
            self.mk()
        for f, e in w.items():
            self.ask('pset %d %d' % (f, e))

    def res(self, ok, what, exp, got):
        return self.rc.case(self.part, (self.kind, what, len(self.cmds), self.cmds[-1]), ok, '%s: %s' % (self.kind, what), exp, got, self.cmds, 'sys')


def c22(rc):
    rc.rules.append('EPollPoller and PollPoller on a scripted kernel: every event mask, every interest, seeded set/remove/poll histories, bursts above the buffer size, injected epoll_ctl failures; distinct: by history and mask')
    d = driver()
    try:
        _c22(rc, d)
    finally:
        d.close()


def _c22(rc, d):
    for kind in ('epoll', 'poll'):
        r = PollRun(rc, d, kind, 'mask')
        # descriptor numbers start after the epoll descriptor
        f = r.mk()
        for e in (R, W, R | W, 0):
            r.set(f, e)
            for m in range(0, 64):
                if kind == 'epoll' and (m & NVAL or not m):
                    continue
                if not r.poll({f: m}, what='interest %d, kernel reports 0x%x' % (e, m)):
                    return
        for v, er, exp in ((0, 0, 'timeout'), (-1, EINTR, 'intr'), (-1, EBADF, 'error'), (-1, 22, 'error'), (-1, EAGAIN, 'error')):
            for ms in (0, 25, 1000, -1):
                a = ''
                cmds = ['reset', 'poller ' + kind, 'mk', 'pset 100001 1', 'script wait %d %d' % (v, er), 'ppoll %d' % ms]
                if kind == 'poll':
                    cmds[3] = 'pset 100000 1'
                for c in cmds:
                    a = d.ask(c)
                rc.case('error', (kind, v, er, ms), a.split(' |')[0] == exp and '| %d |' % ms in a, '%s returns %d, errno %d, time-out %d' % (kind, v, er, ms), exp, a, cmds, 'sys')
        # bursts
        for n in (1, 63, 64, 65, 127, 128, 129, 200, 300):
            if n > 200 and not rc.thorough and kind == 'poll':
                continue
            r = PollRun(rc, d, kind, 'burst')
            fs = [r.mk() for _ in range(n)]
            for i, f in enumerate(fs):
                r.set(f, R if i % 3 else R | W)
            if not r.poll({f: (IN, OUT | IN, HUP | IN, ERR)[i % 4] for i, f in enumerate(fs)}, what='burst of %d' % n):
                return
            if kind == 'epoll' and not r.poll({f: IN for f in fs}, what='second burst of %d' % n):
                return
        # histories
        for h in range(rc.scale(25)):
            r = PollRun(rc, d, kind, 'history')
            fs = [r.mk() for _ in range(rc.rng.choice([1, 2, 3, 6]))]
            for s in range(rc.rng.choice([3, 8, 20])):
                f = rc.rng.choice(fs)
                x = rc.rng.random()
                if x < 0.45:
                    r.set(f, rc.rng.choice([R, W, R | W, 0]), rc.rng.choice([28, 12]) if kind == 'epoll' and f not in r.want and rc.rng.random() < 0.15 else None)
                elif x < 0.65:
                    r.rem(f)
                elif not r.poll({g: rc.rng.choice([IN, OUT, IN | OUT, HUP, ERR, HUP | ERR, IN | HUP]) for g in fs if rc.rng.random() < 0.6}, rc.rng.choice([0, 25]), 'history %d' % h):
                    return
            if not r.poll({g: IN | OUT for g in fs}, 25, 'history %d, end' % h):
                return
        # a descriptor closed before it is removed, its number used again
        for e1 in (R, R | W):
            for e2 in (R, W):
                r = PollRun(rc, d, kind, 'reuse')
                f, g = r.mk(), r.mk()
                r.set(f, e1)
                r.set(g, R)
                r.ask('shut %d' % f)
                r.rem(f)
                r.ask('mkat %d' % f)
                r.set(f, e2)
                r.poll({f: IN | OUT, g: IN}, 25, 'descriptor number used again')
    # the poller in use reports like the others
    r = PollRun(rc, d, 'default', 'mask')
    f = r.mk()
    r.set(f, R)
    r.kind = 'poll' if f == 100000 else 'epoll'
    r.poll({f: IN | HUP}, what='Poller::create')


# ---- C23 -------------------------------------------------------------------------------------------
class Own:
    """ownership model: slot -> descriptor or -1; every step's close calls are compared"""

    def __init__(self, rc, d, part, key, mode=''):
        self.rc, self.d, self.part, self.key = rc, d, part, key
        self.cmds, self.own = [], {}
        self.ask('reset')
        self.base = int(self.ask('s get0 0 0').split(' ssl ')[1].split()[0])      # SSL objects that were live before
        self.ssl = 0
        self.ok = True

    def ask(self, c):
        self.cmds.append(c)
        return self.d.ask(c)

    def step(self, c, closes=(), ssl=0, what=''):
        a = self.ask(c)
        self.ssl += ssl
        exp = 'closed%s ssl %d bad' % (''.join(' %d' % x for x in closes), self.ssl + self.base)
        got = a[a.index('closed'):].rstrip()
        good = got == exp
        self.ok = self.ok and good
        self.rc.case(self.part, (self.key, len(self.cmds)), good, '%s (step %d)' % (c, len(self.cmds)), exp, a, self.cmds, 'sys')
        return a

    def live(self, *slots):
        return [self.own[s] for s in slots if self.own.get(s, -1) >= 0]


def own_history(rc, d, key, rng, n):
    r = Own(rc, d, 'history', key)
    if key % 3 == 1:
        r.ask('low 0')       # descriptors 0, 1, 2, ... as in a process started without standard streams
    S, T, U = {}, {}, {}            # slot -> descriptor (-1: released)
    for _ in range(n):
        if not r.ok:
            return False
        if key % 4 == 2 and rng.random() < 0.5:
            r.ask('fail close 0 %d' % rng.choice([4, 5, 28, 122]))       # the descriptor is gone all the same
        tab, nm = rng.choice([(S, 's'), (S, 's'), (T, 't'), (U, 'u')])
        i, j = rng.randrange(3), rng.randrange(3)
        x = rng.random()
        sslw = nm == 'u'
        if nm == 's' and x < 0.3 or not S:
            f = int(r.ask('s open 0 0').split()[0]) if rng.random() < 0.9 else -1
            old = S.get(i, -1)
            S[i] = f
            r.step('s new %d %d' % (i, f), [old] if old >= 0 else [])
        elif nm != 's' and x < 0.35:
            src = rng.choice(list(S))
            old = tab.get(i)
            f, S[src] = S[src], -1
            tab[i] = f
            # emplace destroys the old one first
            r.step('%s new %d %d' % (nm, i, src), [old] if old is not None and old >= 0 else [], (1 - (old is not None and 1 or 0)) if sslw and old != -2 else (1 if sslw else 0))
        elif x < 0.55 and j in tab and i != j:
            old, was = tab.get(i), i in tab
            tab[i], tab[j] = tab[j], -1 if not sslw else -2
            d_ssl = 0
            if sslw and was and old != -2:
                d_ssl = -1
            r.step('%s mv %d %d' % (nm, i, j), [old] if was and old >= 0 else [], d_ssl)
        elif x < 0.75 and j in tab and i in tab:
            old = tab[i]
            if i == j:
                r.step('%s as %d %d' % (nm, i, j))
            else:
                tab[i], tab[j] = tab[j], -1 if not sslw else -2
                r.step('%s as %d %d' % (nm, i, j), [old] if old >= 0 else [], -1 if sslw and old != -2 else 0)
        elif x < 0.85 and nm == 's' and i in S:
            old, S[i] = S[i], -1
            r.step('s cl %d 0' % i, [old] if old >= 0 else [])
        elif i in tab:
            old = tab.pop(i)
            r.step('%s del %d 0' % (nm, i), [old] if old >= 0 else [], -1 if sslw and old != -2 else 0)
    for tab, nm in ((S, 's'), (T, 't'), (U, 'u')):
        for i in sorted(tab):
            old = tab[i]
            r.step('%s del %d 0' % (nm, i), [old] if old >= 0 else [], -1 if nm == 'u' and old != -2 else 0)
    return r.ok


def c23(rc):
    rc.rules.append('SocketFd, TcpTransport, TlsTransport in seeded histories of construction, move, assignment, close and destruction on a kernel that records every close; TcpListener with every call failing in turn; distinct: by history and step')
    d = driver()
    try:
        for k in range(rc.scale(60)):
            if not own_history(rc, d, k, rc.rng, rc.rng.choice([4, 10, 25])):
                break
        # copying, where a class allows it
        d.ask('reset')
        a = d.ask('copy')
        cl = a.split(' closed')[1].split(' open')[0].split()
        rc.case('copy', 'copy', len(set(cl)) == len(cl) and not a.split(' open')[1].split('|')[0].split() and nobad(a), 'descriptors and transports copied where the class allows it, all destroyed',
                'every descriptor closed exactly once', a, ['reset', 'copy'], 'sys')
        # the listener: every call of its set-up and of accepting fails in turn
        calls = [None] + [(n, k) for n in ('socket', 'fcntl', 'setsockopt', 'bind', 'listen') for k in range(6)]
        for fl in calls:
            for acc in ([], [100500], [100500, -EAGAIN, 100501], [-24, 100500], [-103], [100500, 100501, 100502]):
                cmds = ['fail %s %d 13' % fl] if fl else []
                cmds += ['accept %d' % a for a in acc] + ['listener 8443 %d' % (len(acc) + 1)]

                def want(a):
                    h = head(a)
                    cl = [int(x) for x in h.split('closed')[1].split(' open')[0].split()]
                    op = h.split(' open')[1].split()
                    taken = [int(x.split(':')[1]) for x in h.split() if x.startswith('got:')]
                    return (not op and len(set(cl)) == len(cl) and nobad(a) and set(taken) <= set(cl), 'every descriptor opened is closed exactly once')
                if not _pre(rc, d, 'listener', (fl, tuple(acc)), 'listener, failing call %s, accepts %s' % (fl, acc), cmds, want):
                    return
        # set-up of a TLS transport fails after it took the descriptor
        for nm in ('SSL_new', 'SSL_set_fd'):
            r = Own(rc, d, 'setup', nm)
            f = int(r.ask('s open 0 0').split()[0])
            r.step('s new 0 %d' % f)
            r.ask('u prep 0 0')
            r.ask('fail %s 0 5' % nm)
            a = r.ask('u new 0 0')
            a2 = r.ask('s del 0 0')
            cl = [int(x) for y in (a, a2) for x in y.split('closed')[1].split(' ssl')[0].split()]
            rc.case('setup', nm, a.startswith('threw') and cl == [f] and a.rstrip().endswith('bad') and a2.rstrip().endswith('bad'),
                    'TLS transport set-up fails in %s' % nm, 'exception, descriptor closed exactly once', a + ' / ' + a2, r.cmds, 'sys')
    finally:
        d.close()


# ---- C18, C19: the whole server ---------------------------------------------------------------------
from oracles.conn import PREFACE, frame      # noqa: E402
from .conn import req                        # noqa: E402

HELLO = PREFACE + frame(4, 0, 0, b'')
SEC = 1000000000
T0 = 1000 * SEC


class Server:
    """Http2Server::start on the scripted kernel; the model says which connections are held and for what they are polled"""

    def __init__(self, rc, d, part, key, mode=''):
        self.rc, self.d, self.part, self.key = rc, d, part, key
        self.cmds, self.ok = [], True
        self.ask('reset')
        self.cmds.append('clock')
        self.state = self.parse(self.ask('serve ' + mode if mode else 'serve'))
        self.held = {}           # fd -> dict(sent, blocked, streams, last)
        self.now = T0
        self.listener = None
        if self.state['what'] == 'wait' and self.state['open']:
            self.listener = self.state['open'][0]
        self.fd = 100050
        self.gone = set()
        self.tx = {}
        if self.state['what'] == 'wait':
            self.send('clock %d' % self.now)

    def ask(self, c):
        self.cmds.append(c)
        return self.d.ask(c)

    def send(self, c):
        self.cmds.append(c)
        self.d.log.append(c)
        self.d.p.stdin.write(c.encode() + b'\n')

    def parse(self, a):
        out, cur = {'what': a.split(' open')[0], 'raw': a}, None
        for w in a[a.index(' open'):].split():
            if w in ('open', 'reg', 'closed', 'bad', 'tx', 'timeout', 'told', 'lsn'):
                cur = w
                out[cur] = []
            else:
                out[cur].append(w)
        out['open'] = [int(x) for x in out['open']]
        out['closed'] = [int(x) for x in out['closed']]
        reg = {}
        for x in out['reg']:
            f, m = x.split(':')
            reg[int(f)] = -1 if m.endswith('!') else int(m)
        out['reg'] = reg
        tx = {}
        for x in out['tx']:
            f, h = x.split(':')
            tx[int(f)] = bytes.fromhex(h)
        out['tx'] = tx
        return out

    # -- actions for the next round
    def accept(self, err=None):
        """one connection attempt; returns its descriptor"""
        if err:
            self.send('accept %d' % -err)
            return None
        f = self.fd
        self.fd += 1
        self.send('accept %d' % f)
        return f

    def rx(self, f, b):
        self.send('rx %d %s' % (f, b.hex()))

    def clock(self, dt):
        self.now += dt
        self.send('clock %d' % self.now)

    def round(self):
        self.state = self.parse(self.ask('go'))
        for f, b in self.state['tx'].items():
            self.tx[f] = self.tx.get(f, b'') + b
        return self.state

    def stop(self):
        self.state = self.parse(self.ask('stop'))
        return self.state

    # -- verdicts
    def check(self, what, held, blocked=(), closed=None):
        """held: descriptors of the connections that must be connected and polled now"""
        s = self.state
        want_reg = {f: IN | (OUT if f in blocked else 0) for f in held}
        if self.listener is not None:
            want_reg[self.listener] = IN
        exp = 'loop continues, connected %s, polled %s%s' % (sorted(held), want_reg, '' if closed is None else ', closed now %s' % sorted(closed))
        reg = {f: (m | IN if f in blocked and f in held and m >= 0 else m) for f, m in s['reg'].items()}      # a blocked writer need not be polled for reading
        ok = s['what'] == 'wait' and set(s['open']) == set(held) | ({self.listener} if self.listener is not None else set()) and reg == want_reg and not s['bad']
        ok = ok and len(set(s['closed'])) == len(s['closed']) and (closed is None or sorted(s['closed']) == sorted(closed))
        self.ok = self.ok and ok
        self.rc.case(self.part, (self.key, len(self.cmds)), ok, '%s: %s' % (self.key, what), exp, s['raw'][:3000], self.cmds, 'sys')
        return ok

    def answered(self, f, sid, n, what):
        """the response on stream sid of connection f is complete, with n octets of body"""
        b, heads, data, end = self.tx.get(f, b''), 0, 0, False
        while len(b) >= 9:
            ln = int.from_bytes(b[:3], 'big')
            t, fl, st = b[3], b[4], int.from_bytes(b[5:9], 'big') & 0x7fffffff
            if st == sid and t == 1:
                heads += 1
            if st == sid and t == 0:
                data += ln
            if st == sid and t in (0, 1) and fl & 1:
                end = True
            b = b[9 + ln:]
        ok = heads == 1 and data == n and end and not b
        self.ok = self.ok and ok
        self.rc.case(self.part, (self.key, 'answer', len(self.cmds)), ok, '%s: %s' % (self.key, what), 'one response with %d octets of body on stream %d' % (n, sid),
                     '%d HEADERS, %d octets, %s, %d octets of an incomplete frame' % (heads, data, 'ended' if end else 'not ended', len(b)), self.cmds, 'sys')
        return ok

    def finish(self):
        """stop the server; everything it held is closed exactly once"""
        if self.state['what'] != 'wait':
            return
        opened = set(self.state['open'])
        s = self.stop()
        ok = s['what'] == 'returned' and not s['open'] and not s['bad'] and opened <= set(s['closed']) and len(set(s['closed'])) == len(s['closed'])
        self.rc.case(self.part, (self.key, 'stop'), ok, '%s: server stopped' % (self.key,), 'returns, every descriptor closed exactly once', s['raw'][:2000], self.cmds, 'sys')


def admit(s, n):
    """n clients, one per round; returns their descriptors"""
    out = []
    for _ in range(n):
        out.append(s.accept())
        s.round()
    return out


def serve_one(s, f, sid=1, hello=False):
    s.rx(f, (HELLO if hello else b'') + req(sid))


def c18(rc):
    rc.rules.append('Http2Server::start on a scripted kernel with epoll semantics: capacity, hang-up, error, end of input, injected accept/fcntl/getpeername/epoll failures, blocked writers, seeded histories; '
                    'connected and polled descriptors compared after every round; distinct: by history and round')
    d = driver()
    try:
        _c18(rc, d)
    except B.Crash as e:
        rc.violation('crash', 'the server ended abnormally (status %s)' % e.rc, 'an answer', e.err, d.log[-400:], 'sys')
    finally:
        d.close()


def _c18(rc, d):
    # capacity
    for over in (1, 3):
        s = Server(rc, d, 'capacity', over)
        fs = admit(s, 128)
        s.check('128 clients', fs)
        serve_one(s, fs[0], hello=True)
        s.round()
        s.answered(fs[0], 1, 2, 'first of 128 is served')
        for k in range(over):
            g = s.accept()
            s.round()
            s.check('client %d beyond capacity is disconnected' % (k + 1), fs, closed=[g])
        serve_one(s, fs[1], hello=True)
        serve_one(s, fs[127], hello=True)
        s.round()
        s.answered(fs[1], 1, 2, 'served while full')
        s.answered(fs[127], 1, 2, 'served while full')
        s.send('eof %d' % fs[5])
        s.round()
        s.check('one leaves', [f for f in fs if f != fs[5]], closed=[fs[5]])
        g = s.accept()
        s.round()
        rest = [f for f in fs if f != fs[5]] + [g]
        s.check('its place is taken', rest)
        h = s.accept()
        s.round()
        s.check('full again', rest, closed=[h])
        s.finish()
    # failures of accepting and of setting up: none stops the server or touches the others
    fails = [('accept', e) for e in (4, 11, 12, 23, 24, 103, 105, 71, 1)] + [('fcntl', 0), ('fcntl', 1), ('setsockopt', 0), ('getpeername', 0)]
    for nm, k in fails:
        s = Server(rc, d, 'setup failure', (nm, k))
        fs = admit(s, 2)
        held = list(fs)
        if nm == 'accept':
            s.accept(k)
            s.round()
        else:
            s.send('fail %s %d 5' % (nm, k))
            g = s.accept()
            s.round()
            if nm != 'fcntl':
                held.append(g)
        s.check('%s fails (%d)' % (nm, k), held)
        for f in held:
            serve_one(s, f, hello=True)
        s.round()
        for f in held:
            s.answered(f, 1, 2, 'still served after %s failed' % nm)
        held += admit(s, 1)
        s.check('next client admitted', held)
        s.finish()
    for e in (4, 9, 22):
        s = Server(rc, d, 'wait failure', e)
        fs = admit(s, 2)
        s.send('waiterr %d' % e)
        s.round()
        s.check('wait fails with errno %d' % e, fs)
        serve_one(s, fs[1], hello=True)
        s.round()
        s.answered(fs[1], 1, 2, 'served afterwards')
        s.finish()
    # ends of one connection
    ends = {'hang-up': 'force %d 16', 'error': 'force %d 8', 'hang-up with data': 'force %d 17', 'error, hang-up, writable': 'force %d 28', 'end of input': 'eof %d', 'read error': 'rderr %d 104\nforce %d 25',
            'garbage': 'rx %d ' + (b'GET / HTTP/1.1\r\n\r\n' + b' ' * 20).hex(), 'oversized frame': 'rx %d ' + (HELLO + frame(0, 0, 1, b'', length=20000)).hex(), 'write error': 'wrerr %d 32'}
    for nm, cmd in ends.items():
        for fresh in (False, True):
            for pos in (0, 1, 2):
                s = Server(rc, d, 'end', (nm, fresh, pos))
                fs = admit(s, 3)
                v = fs[pos]
                for f in fs:
                    if not (fresh and f == v):
                        serve_one(s, f, hello=True)
                s.round()
                s.check('three clients', fs)
                if nm == 'oversized frame' and not fresh:
                    cmd_ = 'rx %d ' + frame(0, 0, 1, b'', length=20000).hex()
                elif nm == 'garbage' and not fresh:
                    cmd_ = 'rx %d ' + frame(1, 5, 3, b'\xff\xff\xff').hex()
                else:
                    cmd_ = cmd
                for c in cmd_.split('\n'):
                    s.send(c % v)
                if nm == 'write error':
                    s.rx(v, (HELLO if fresh else b'') + req(3))
                s.round()
                rest = [f for f in fs if f != v]
                if not s.check('%s on one connection' % nm, rest, closed=[v]):
                    return
                for f in rest:
                    serve_one(s, f, 3)
                s.round()
                for f in rest:
                    s.answered(f, 3, 2, 'another connection after %s' % nm)
                n = s.accept()
                s.round()
                s.check('a new client after %s' % nm, rest + [n])
                s.finish()
    # a descriptor number used again
    s = Server(rc, d, 'reuse', 0)
    fs = admit(s, 2)
    for nm in ('eof %d', 'force %d 16', 'force %d 8'):
        serve_one(s, fs[0], hello=True)
        s.round()
        s.send(nm % fs[0])
        s.round()
        s.check('closed', [fs[1]], closed=[fs[0]])
        s.tx.pop(fs[0], None)
        s.send('accept %d' % fs[0])
        s.round()
        s.check('same descriptor number accepted again', fs)
    s.finish()
    # blocked writers
    for cap in (0, 1, 30, 1000, 20000):
        s = Server(rc, d, 'blocked', cap)
        fs = admit(s, 2)
        v = fs[0]
        s.rx(v, HELLO)
        s.rx(fs[1], HELLO)
        s.round()
        s.round()
        s.send('wcap %d %d' % (v, cap))
        s.rx(v, req(1, b'/big'))
        s.round()
        s.check('output blocked after %d octets' % cap, fs, blocked=[v])
        serve_one(s, fs[1])
        s.round()
        s.answered(fs[1], 1, 2, 'the other connection while one is blocked')
        s.check('still blocked', fs, blocked=[v])
        s.rx(v, req(3))
        s.round()
        s.check('more requests while blocked', fs, blocked=[v])
        for extra in (1, 5000):
            s.send('wcap %d %d' % (v, extra))
            s.round()
            s.round()
            s.check('peer takes %d more octets' % extra, fs, blocked=[v])
        s.send('wcap %d -1' % v)
        for _ in range(3):
            s.round()
        s.check('drained', fs)
        s.answered(v, 1, 40000, 'response complete after draining')
        s.answered(v, 3, 2, 'second response complete after draining')
        s.finish()
    # events without meaning: unknown descriptors, empty masks
    s = Server(rc, d, 'spurious', 0)
    fs = admit(s, 2)
    for m in (2, 64, 4, 1):
        s.send('force %d %d' % (fs[0], m))
        s.round()
        s.check('spurious event 0x%x' % m, fs)
    s.finish()
    # histories
    for k in range(rc.scale(12)):
        if not history(rc, d, k, rc.rng):
            return


def history(rc, d, key, rng):
    s = Server(rc, d, 'history', key)
    held, blocked, sid, hello, dead = [], set(), {}, set(), None
    for step in range(rng.choice([10, 25, 60])):
        closed = []
        acts = rng.randrange(4)
        acc = None
        if rng.random() < 0.5:
            acc = s.accept()
        elif rng.random() < 0.1:
            s.accept(rng.choice([24, 103, 11]))
        ask = []
        for f in rng.sample(held, min(len(held), acts)):
            x = rng.random()
            if f in blocked:
                if x < 0.6:
                    s.send('wcap %d -1' % f)
                    blocked.discard(f)
                elif x < 0.75:
                    s.send('force %d 16' % f)
                    closed.append(f)
                continue
            if x < 0.55:
                sid[f] = sid.get(f, -1) + 2
                p = rng.choice([b'/', b'/big', b'/none', b'/throw'])
                blk = rng.random() < 0.15 and p == b'/big' and f in hello
                if blk:
                    s.send('wcap %d %d' % (f, rng.choice([0, 10, 3000])))
                    blocked.add(f)
                s.rx(f, (b'' if f in hello else HELLO) + req(sid[f], p))
                hello.add(f)
                if not blk:
                    ask.append((f, sid[f], {b'/': 2, b'/big': 40000}.get(p)))
            elif x < 0.8:
                s.send(rng.choice(['eof %d', 'force %d 16', 'force %d 8', 'force %d 25']) % f)
                closed.append(f)
            elif x < 0.9:
                s.rx(f, frame(4, 0, 0, b'\x00' * 5) if f in hello else b'X' * 30)
                closed.append(f)
        s.round()
        s.round()
        s.round()
        for f in closed:
            held.remove(f)
            blocked.discard(f)
            hello.discard(f)
        if acc is not None:
            held.append(acc)
        if not s.check('round %d' % step, held, blocked):
            return False
        for f, i, n in ask:
            if n is not None and not s.answered(f, i, n, 'round %d' % step):
                return False
    s.finish()
    return s.ok


def c19(rc):
    rc.rules.append('Http2Server::start with a scripted clock: seeded and boundary activity histories of up to 12 connections; exactly those idle for more than 5 s must be gone after each round; distinct: by history and round')
    d = driver()
    try:
        _c19(rc, d)
    except B.Crash as e:
        rc.violation('crash', 'the server ended abnormally (status %s)' % e.rc, 'an answer', e.err, d.log[-400:], 'sys')
    finally:
        d.close()


def _c19(rc, d):
    # boundary, for each kind of last activity
    for kind in ('created', 'read', 'read partial', 'write'):
        for dt in (5 * SEC - 1, 5 * SEC, 5 * SEC + 1, 4 * SEC, 6 * SEC, 3600 * SEC):
            s = Server(rc, d, 'boundary', (kind, dt))
            f = admit(s, 1)[0]
            if kind != 'created':
                s.clock(3 * SEC)
                if kind == 'write':
                    s.rx(f, HELLO)
                    s.round()
                    s.round()
                    s.send('wcap %d 0' % f)
                    s.rx(f, req(1, b'/big'))
                    s.round()
                    s.clock(2 * SEC)
                    s.send('wcap %d 9' % f)
                    s.round()
                else:
                    s.rx(f, HELLO if kind == 'read' else PREFACE[:5])
                    s.round()
                    s.round()
            s.clock(dt)
            # events that are no activity
            if kind != 'created':
                s.send('force %d 1' % f)
            s.round()
            gone = dt > 5 * SEC
            s.check('%d ns after %s' % (dt, kind), [] if gone else [f], blocked=[f] if kind == 'write' else (), closed=[f] if gone else [])
            s.finish()
    # the number of a connection reaped is used again
    for m in (1, 2, 3):
        s = Server(rc, d, 'number used again', m)
        fs = admit(s, 2)
        for _ in range(2):
            s.clock(5 * SEC)
            for i, f in enumerate(fs):
                if not m >> i & 1:
                    s.rx(f, HELLO if _ == 0 else frame(4, 1, 0, b''))
            s.round()
            s.clock(1)
            s.round()
            gone = [f for i, f in enumerate(fs) if m >> i & 1]
            if not s.check('idle connections %s' % bin(m), [f for f in fs if f not in gone], closed=gone):
                return
            for f in gone:
                s.tx.pop(f, None)
                s.send('accept %d' % f)
                s.round()
            if not s.check('the same numbers accepted again', fs):
                return
            for f in gone:
                serve_one(s, f, hello=True)
            s.round()
            for f in gone:
                s.answered(f, 1, 2, 'a client whose descriptor number was used before')
        s.finish()
    # several at once: every subset of four reaped in one round, at the front, middle and end of the table
    for m in range(16):
        s = Server(rc, d, 'subset', m)
        fs = admit(s, 4)
        s.clock(3 * SEC)
        keep = [f for i, f in enumerate(fs) if not m >> i & 1]
        for f in keep:
            s.rx(f, HELLO)
        s.round()
        s.round()
        s.clock(3 * SEC)
        s.round()
        if not s.check('idle connections %s' % bin(m), keep, closed=[f for f in fs if f not in keep]):
            return
        for f in keep:
            s.rx(f, req(1))
        s.round()
        for f in keep:
            s.answered(f, 1, 2, 'the others are still served')
        s.finish()
    for k in range(rc.scale(15)):
        s = Server(rc, d, 'history', k)
        last, hello = {}, set()
        for step in range(rc.rng.choice([10, 30])):
            s.clock(rc.rng.choice([0, SEC, SEC // 2, 2 * SEC, 5 * SEC, 5 * SEC + 1, 3 * SEC, 1]))
            act = [f for f in last if rc.rng.random() < 0.4]
            for f in act:
                s.rx(f, HELLO if f not in hello else frame(4, 1, 0, b''))
                hello.add(f)
            for f in last:
                if f not in act and f in hello and rc.rng.random() < 0.2:
                    s.send('force %d 1' % f)
            acc = s.accept() if rc.rng.random() < 0.4 and len(last) < 12 else None
            s.round()
            for f in act:
                last[f] = s.now
            if acc:
                last[acc] = s.now
            gone = [f for f in last if s.now - last[f] > 5 * SEC]
            for f in gone:
                del last[f]
            if not s.check('step %d' % step, list(last), closed=gone):
                return
        s.finish()


# --- C26 ---------------------------------------------------------------------------------------------------------
def c26(rc):
    rc.rules.append('Http2Server::start, stop and SignalHandler on the scripted kernel: told to stop (a call of stop, SIGINT, SIGTERM) before the start, while idle, while waiting with input pending, and during the k-th accept, read, write, epoll_ctl, fcntl, getpeername or close of a busy round; distinct: by that combination')
    d = driver(True)
    try:
        _c26(rc, d)
    except B.Crash as e:
        rc.violation('crash', 'the server ended abnormally (status %s)' % e.rc, 'an answer', e.err, d.log[-400:], 'sys')
    finally:
        d.close()


def ended(s, what, opened, served, idle=False):
    """the loop has returned (or does after one more wait in which nothing is done), everything is closed"""
    st = s.state
    ok, more = True, 0
    while st['what'] == 'wait' and more < 2:
        more += 1
        ok = ok and st['told'] == ['1']
        if idle:
            st = s.state = s.parse(s.ask('timeout'))
        else:
            s.accept()
            st = s.round()
    ok = ok and more < 2 and st['what'] == 'returned' and not st['open'] and not st['bad'] and len(set(st['closed'])) == len(st['closed'])
    s.rc.case(s.part, s.key, ok, what, 'the server returns within one wait and closes every descriptor once', st['raw'][:2000], s.cmds, 'sys')
    if ok:
        for f in served:
            s.answered(f, 1, 2, what + ': the round is finished')
    return ok


def _c26(rc, d):
    for how in (0, 2, 15):
        nm = {0: 'stop()', 2: 'SIGINT', 15: 'SIGTERM'}[how]
        s = Server(rc, d, 'before the start', how, 'signals %d' % how)
        if not ended(s, '%s before the start' % nm, [], []):
            return
        for intr in ('intr', 'events', 'timeout'):
            for busy in (None, 0, 1, 2):
                s = Server(rc, d, 'while waiting', (how, intr, busy), 'signals')
                t = s.state.get('timeout', ['0'])
                rc.case('wait', (how, intr, busy), s.state['what'] == 'wait' and 0 <= int(t[0]) <= 1000, 'time-out of a wait', '0 to 1000 ms', str(t), s.cmds, 'sys')
                fs = [] if busy is None else admit(s, 2)
                busy = busy or 0
                for f in fs[:busy]:
                    serve_one(s, f, hello=True)
                if intr == 'timeout':
                    for _ in range(3 if busy else 2):     # an idle server goes on waiting until it is told to stop
                        s.state = s.parse(s.ask('go' if _ == 0 and busy else 'timeout'))
                        rc.case('wait', (how, intr, busy), s.state['what'] == 'wait' and s.state['told'] == ['0'], 'a wait that ends without events', 'the server waits again', s.state['raw'][:400], s.cmds, 'sys')
                s.state = s.parse(s.ask('tell %d %s' % (how, intr)))
                for f, b in s.state['tx'].items():
                    s.tx[f] = s.tx.get(f, b'') + b
                if not ended(s, '%s while waiting (%s), %d requests pending' % (nm, intr, busy), s.state['open'], fs[:busy] if intr == 'events' else [], intr == 'timeout'):
                    return
        for call in ('accept(', 'read(', 'write(', 'epoll_ctl(', 'fcntl(', 'getpeername(', 'close('):
            for k in (0, 1, 2, 5):
                s = Server(rc, d, 'during a call', (how, call, k), 'signals')
                fs = admit(s, 3)
                for f in fs[:2]:
                    serve_one(s, f, hello=True)
                s.send('eof %d' % fs[2])
                s.accept()
                s.send('stopin %d %s %d' % (how, call, k))
                s.round()
                for _ in range(3):      # the call may come in a later round
                    if s.state['what'] == 'wait' and s.state['told'] == ['0']:
                        s.accept()
                        s.round()
                if s.state['what'] == 'wait' and s.state['told'] == ['0']:
                    s.state = s.parse(s.ask('tell %d events' % how))
                    for f, b in s.state['tx'].items():
                        s.tx[f] = s.tx.get(f, b'') + b
                if not ended(s, '%s during %s call %d' % (nm, call[:-1], k), s.state['open'], fs[:2]):
                    return


    for e in (4, 9, 22, 12, 14, 11):
        s = Server(rc, d, 'waits that fail', e, 'signals')
        fs = admit(s, 1)
        for _ in range(3):
            s.send('waiterr %d' % e)
            s.state = s.parse(s.ask('go'))
            rc.case('wait', ('fails', e, _), s.state['what'] == 'wait', 'a wait that fails with errno %d' % e, 'the server goes on', s.state['raw'][:400], s.cmds, 'sys')
        if s.state['what'] != 'wait':
            return
        s.state = s.parse(s.ask('tell 15 events'))
        if not ended(s, 'SIGTERM after waits that failed', s.state['open'], []):
            return
    # SIGPIPE: a client that went away, or a standard stream nobody reads
    for kinds in [a + b for a in '-pfsb' for b in '-pfsb']:
        for busy in (0, 2):
            s = Server(rc, d, 'SIGPIPE', (kinds, busy), 'signals')
            fs = admit(s, 2) if busy else []
            s.state = s.parse(s.ask('pipe ' + kinds))
            for f, b in s.state['tx'].items():
                s.tx[f] = s.tx.get(f, b'') + b
            what = 'SIGPIPE, standard output %s, standard error %s' % tuple({'-': 'as it is', 'p': 'a pipe that is read', 'f': 'a file', 's': 'a socket', 'b': 'a pipe nobody reads'}[c] for c in kinds)
            if 'b' not in kinds:
                s.state = s.parse(s.ask('timeout')) if s.state['what'] == 'wait' else s.state
                rc.case('SIGPIPE', (kinds, busy), s.state['what'] == 'wait', what, 'the server goes on', s.state['raw'][:400], s.cmds, 'sys')
                if s.state['what'] != 'wait':
                    return
                s.state = s.parse(s.ask('tell 0 events'))
            if not ended(s, what, s.state['open'], []):
                return


# --- C29 ---------------------------------------------------------------------------------------------------------
def c29(rc):
    rc.rules.append('TcpListener, SocketFd::client_ip and Http2Server::start on the scripted kernel: ports, every call of set-up and accepting failing in turn, accept outcomes, peer addresses of both families; distinct: by that combination')
    d = driver()
    try:
        _c29(rc, d)
    except B.Crash as e:
        rc.violation('crash', 'abnormal end (status %s)' % e.rc, 'an answer', e.err, d.log[-400:], 'sys')
    finally:
        d.close()


PORTS = (0, 1, 80, 255, 256, 443, 8443, 0x1234, 32768, 65280, 65535)


def _c29(rc, d):
    import ipaddress, random
    def st(port, backlog):
        return 'nb=1,bound=2/0/%d/1,backlog=%s' % (port, backlog)
    for port in PORTS:
        exp = 'made %s listening %s open' % (st(port, 'no'), st(port, 'yes'))
        if not _pre(rc, d, 'listener', port, 'a listener for port %d' % port, ['lsn %d 0' % port], lambda a: (head(a).split(' |')[0].strip() == exp and nobad(a), exp)):
            return
    # a refusal of any call is an error, and nothing stays open
    for nm, ks in (('socket', 1), ('fcntl', 2), ('bind', 1), ('listen', 1)):
        for k in range(ks):
            for e in (1, 9, 12, 13, 22, 24, 98, 99):
                if not _pre(rc, d, 'refused', (nm, k, e), 'a listener, call %d of %s fails with errno %d' % (k, nm, e), ['fail %s %d %d' % (nm, k, e), 'lsn 8443 0'],
                            lambda a, nm=nm, k=k: ((calls(a, nm) <= k and not head(a).startswith('threw') or head(a).split(' open')[0].split()[-1] == 'threw' and not head(a).split(' open')[1].split()) and nobad(a), 'an exception, nothing left open')):
                    return
    # accepting
    for e in (EAGAIN, EINTR, 23, 24, 12, 103, 105, 71, 1):
        exp = 'none' if e in (EAGAIN, EINTR) else 'threw'
        _pre(rc, d, 'accept', e, 'accept fails with errno %d' % e, ['accept %d' % -e, 'accept 100500', 'lsn 8443 2'],
             lambda a, exp=exp: (' %s got:100500:1:1 end %s open' % (exp, st(8443, 'yes')) in head(a) and nobad(a), '%s, then the next connection' % exp))
    for n in (0, 1, 2, 3):
        exp = ' '.join(['got:%d:1:1' % (100500 + i) for i in range(n)] + ['none'])
        _pre(rc, d, 'accept', ('n', n), '%d connections waiting' % n, ['accept %d' % (100500 + i) for i in range(n)] + ['lsn 8443 %d' % (n + 1)],
             lambda a, exp=exp: (' %s end %s open' % (exp, st(8443, 'yes')) in head(a) and nobad(a), exp))
    # fcntl calls 0 and 1 set up the listener, 2 and 3 the first connection
    for k in (2, 3):
        _pre(rc, d, 'accept', ('fcntl', k), 'a connection that cannot be made non-blocking', ['fail fcntl %d 9' % k, 'accept 100500', 'accept 100501', 'lsn 8443 2'],
             lambda a, k=k: (calls(a, 'fcntl') <= k and ' got:100500:1:1 got:100501:1:1 ' in head(a) and nobad(a) or
                             (' threw got:100501:1:1 ' in head(a) or ' got:100500:1:1 threw ' in head(a)) and not head(a).split(' open')[1].split() and nobad(a), 'an exception, the other connection accepted'))
    _pre(rc, d, 'accept', 'nodelay', 'TCP_NODELAY is refused', ['fail setsockopt 1 92', 'accept 100500', 'lsn 8443 1'], lambda a: ((' got:100500:1:0 end' in head(a) or calls(a, 'setsockopt') < 2) and nobad(a), 'the connection is served all the same'))
    # the client's address
    rnd = random.Random(B.SEED if hasattr(B, 'SEED') else 1)
    v4 = ['0.0.0.0', '127.0.0.1', '255.255.255.255', '1.2.3.4', '192.168.100.200', '10.0.0.255'] + [str(ipaddress.IPv4Address(rnd.getrandbits(32))) for _ in range(20)]
    v6 = ['::', '::1', 'fe80::1', '2001:db8::ff00:42:8329', '1:2:3:4:5:6:7:8', 'ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff', '::ffff:1.2.3.4', '2001:db8:0:0:1::'] + [str(ipaddress.IPv6Address(rnd.getrandbits(128))) for _ in range(20)]
    for t in v4 + v6:
        a = ipaddress.ip_address(t)

        def same(x, a=a):
            try:
                return ipaddress.ip_address(x.split()[0]) == a
            except (ValueError, IndexError):
                return False
        _pre(rc, d, 'address', t, 'a client at %s' % t, ['s open 0 0', 's new 0 100000', 'peer 100000 %s' % a.packed.hex(), 's ip 0 0'], lambda x, same=same, t=t: (same(x), t))
    for fam in (1, 16, 17, 38):
        _pre(rc, d, 'address', ('family', fam), 'a client of address family %d' % fam, ['s open 0 0', 's new 0 100000', 'peer 100000 %02x' % fam, 's ip 0 0'], lambda x: (x.split()[0] == 'err', 'an error'))
    _pre(rc, d, 'address', 'refused', 'getpeername fails', ['s open 0 0', 's new 0 100000', 'fail getpeername 0 107', 's ip 0 0'], lambda x: (x.split()[0] == 'err', 'an error'))
    # the whole server
    for port in PORTS:
        s = StartOn(rc, d, port, None)
        if not s.done('the server listens on port %d' % port, s.state['what'] == 'wait' and s.state.get('lsn') == [st(port, 'yes')]):
            return
    for nm, ks in (('socket', 1), ('fcntl', 2), ('bind', 1), ('listen', 1)):
        for k in range(ks):
            for e in (13, 24, 98):
                s = StartOn(rc, d, 8443, (nm, k, e))
                if not s.done('the server cannot listen (call %d of %s, errno %d): starting fails' % (k, nm, e), s.state['what'].startswith('threw') and not s.state['open']):
                    return


class StartOn(Server):
    def __init__(self, rc, d, port, fail):
        self.rc, self.d, self.cmds = rc, d, []
        self.key = (port, fail)
        self.ask('reset')
        self.ask('port %d' % port)
        if fail:
            self.ask('fail %s %d %d' % fail)
        self.state = self.parse(self.ask('serve'))

    def done(self, what, ok):
        raw = self.state['raw']
        self.rc.case('start', self.key, ok and not self.state['bad'], what, what, raw[:400], list(self.cmds), 'sys')
        if self.state['what'] == 'wait':
            end = self.parse(self.ask('stop'))
            ok2 = end['what'] == 'returned' and not end['open']
            self.rc.case('stop', self.key, ok2, 'the server is stopped', 'it returns with nothing open', end['raw'][:400], list(self.cmds), 'sys')
            return ok and ok2
        return ok

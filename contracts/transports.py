"""The transports against the documented results of the socket and OpenSSL calls (the contract of Transport used by conn.py)."""
from vc.verify import *
from vc import lib as L
from .sockets import sock, S, x_errno, CTX, fd_of, tfd

EAGAIN, EINTR = 11, 4
SSL_ERROR = dict(NONE=0, SSL=1, WANT_READ=2, WANT_WRITE=3, SYSCALL=5, ZERO_RETURN=6)
OTHER_SSL = (4, 7, 8, 9, 10, 11, 12)     # X509_LOOKUP, WANT_CONNECT, WANT_ACCEPT, ASYNC..., RETRY_VERIFY: not produced by a blocking socket BIO
INTMAX = (1 << 31) - 1


def span_of(I, p, ptr, n, what):
    """the octets [ptr, ptr+n) exist"""
    if isinstance(ptr, Null):
        p.require(Eq(n, 0), '%s: no octets through a null pointer' % what)
        return None, 0
    if not isinstance(ptr, Ptr) or ptr.lv is None:
        raise ToolLimit('%s through %r' % (what, ptr))
    i = 0 if ptr.idx is None else ptr.idx
    p.require(And(ule(i, L.seqlen(I, ptr.lv)), ule(n, sub(L.seqlen(I, ptr.lv), i))), '%s: within the buffer' % what)
    return ptr.lv, i


def u64(I, a):
    return I.int_cast(I.rv(a), I.T(a), L.U64)


def deliver(p, lv, i, got):
    old = lv.load(p)
    n = add(i, got.len)
    lv.store(p, cat(slice_(p, old, 0, i), got, slice_(p, old, n, sub(old.len, n))))


def x_read(I, args, node):
    """read(2)/recv(2): up to n octets stored, 0 at the end of the stream, -1 with errno"""
    p = I.p
    fd = bv(I.rv(args[0]), 32)
    n = u64(I, args[2])
    lv, i = span_of(I, p, I.rv(args[1]), n, 'read')
    k = p.choose(3)
    c = dict(op='read', fd=fd, n=n, k=k)
    p.ghost['io'].append(c)
    x_errno(I)
    if k == 0:
        got = p.bytes_('received')
        p.assume(And(ult(0, got.len), ule(got.len, n)))
        deliver(p, lv, i, got)
        c['got'] = got
        return got.len
    if k == 1:
        return 0
    c['errno'] = L.errno_lv(I).load(p)
    return (1 << 64) - 1


def x_write(I, args, node):
    p = I.p
    fd = bv(I.rv(args[0]), 32)
    n = u64(I, args[2])
    lv, i = span_of(I, p, I.rv(args[1]), n, 'write')
    k = p.choose(2)
    data = slice_(p, L.seq_of(I, lv), i, n) if lv is not None else EMPTY
    c = dict(op='write', fd=fd, n=n, k=k, data=data)
    p.ghost['io'].append(c)
    x_errno(I)
    if k == 0:
        w = p.freshbv('written', 64)
        p.assume(ule(w, n))
        c['w'] = w
        return w
    c['errno'] = L.errno_lv(I).load(p)
    return (1 << 64) - 1


def x_shutdown(I, args, node):
    p = I.p
    p.ghost['io'].append(dict(op='shutdown', fd=bv(I.rv(args[0]), 32), how=I.rv(args[1])))
    x_errno(I)
    return p.freshbv('shutdown', 32)


# --- OpenSSL: result > 0 is a transfer, otherwise SSL_get_error classifies it if the error queue was empty before ---
def x_clear(I, args, node):
    I.p.ghost['queue'] = 'empty'


def ssl_op(p, c):
    c['cleared'] = p.ghost['queue'] == 'empty'
    p.ghost['queue'] = 'own'
    p.ghost['io'].append(c)


def x_ssl_read(I, args, node):
    p = I.p
    ssl = I.rv(args[0])
    n32 = bv(I.rv(args[2]), 32)
    p.require(n32 >= 0, 'SSL_read is given a non-negative size')
    n = simp(z3.ZeroExt(32, n32))
    lv, i = span_of(I, p, I.rv(args[1]), n, 'SSL_read')
    k = p.choose(2)
    c = dict(op='read', ssl=ssl, n=n, k=k)
    ssl_op(p, c)
    if k == 0:
        got = p.bytes_('received')
        p.assume(And(ult(0, got.len), ule(got.len, n)))
        deliver(p, lv, i, got)
        c['got'] = got
        return simp(z3.Extract(31, 0, bv(got.len, 64)))
    return failed(I, p, c)


def failed(I, p, c):
    r = p.freshbv('result', 32)
    p.fact(r <= 0)
    e = p.freshbv('ssl_error', 32)
    p.fact(z3.And(e >= 1, e <= 12))
    c['r'], c['error'] = r, e
    return r


def x_ssl_write(I, args, node):
    p = I.p
    ssl = I.rv(args[0])
    n32 = bv(I.rv(args[2]), 32)
    p.require(n32 > 0, 'SSL_write is given a positive size')
    n = simp(z3.ZeroExt(32, n32))
    lv, i = span_of(I, p, I.rv(args[1]), n, 'SSL_write')
    k = p.choose(2)
    c = dict(op='write', ssl=ssl, n=n, k=k, data=slice_(p, L.seq_of(I, lv), i, n))
    ssl_op(p, c)
    if k == 0:          # without SSL_MODE_ENABLE_PARTIAL_WRITE success means everything
        c['w'] = n
        return n32
    return failed(I, p, c)


def x_ssl_accept(I, args, node):
    p = I.p
    c = dict(op='handshake', ssl=I.rv(args[0]), k=p.choose(2))
    ssl_op(p, c)
    if c['k'] == 0:
        return 1
    return failed(I, p, c)


def x_get_error(I, args, node):
    p = I.p
    r = bv(I.rv(args[1]), 32)
    io = [c for c in p.ghost['io'] if 'ssl' in c and c['op'] in ('read', 'write', 'handshake')]
    if not io or 'error' not in io[-1]:
        p.require(False, 'SSL_get_error follows a failed operation')
        raise PathEnd()
    c = io[-1]
    p.prove(c['cleared'], 'the error queue was emptied before the operation whose error is asked for', 'post')
    p.prove(Eq(r, c['r']), 'SSL_get_error is given the result of the operation', 'post')
    return c['error']


def x_err(I, args, node):
    """ERR_get_error: the operation's own queue entry, removed"""
    I.p.ghost['queue'] = 'unknown'
    return I.p.freshbv('err', 64)


def x_void(I, args, node):
    return None


def x_int(I, args, node):
    return I.p.freshbv('int', 32)


def x_shut(I, args, node):
    I.p.ghost['io'].append(dict(op='ssl_shutdown', ssl=I.rv(args[0])))
    return I.p.freshbv('ssl_shutdown', 32)


EXT = dict(read=x_read, recv=x_read, write=x_write, send=x_write, shutdown=x_shutdown, ERR_clear_error=x_clear, SSL_read=x_ssl_read, SSL_write=x_ssl_write,
           SSL_accept=x_ssl_accept, SSL_do_handshake=x_ssl_accept, SSL_get_error=x_get_error, ERR_get_error=x_err, ERR_peek_error=x_err, ERR_error_string_n=x_void,
           SSL_shutdown=x_shut, SSL_get_wbio=lambda I, a, n: Opaque('BIO', 0), BIO_ctrl=lambda I, a, n: I.p.freshbv('bio', 64),
           ERR_GET_REASON=lambda I, a, n: I.p.freshbv('reason', 32), ERR_GET_LIB=lambda I, a, n: I.p.freshbv('lib', 32))
TCTX = dict(externs=EXT)


def mk(I, p, cls):
    f = {}
    p.ghost['io'], p.ghost['queue'] = [], 'unknown'
    for x in I.all_fields(cls):
        t = I.T(x)
        if t.strip().simple == S:
            s, fd = sock(I, p, 'fd')
            f[x['name']] = s.load(p)
        elif t.kind == 'ptr':
            ssl = p.ghost['ssl'] = Ptr(p.newlv('ssl', Opaque('SSL', 0), None))
            f[x['name']] = ssl
        else:
            f[x['name']] = I.symbolic(t, x['name'])
    return p.newlv('transport', Rec(cls, f), parse_type('ion::' + cls))


def TE(I, *names):
    c = I.P.enums['TransportError']['consts']
    return lambda e: Or(*[Eq(e, c[n]) for n in names])


FAIL = ('ProtocolError', 'WriteError', 'OtherError')


def on_self(I, p, cls, lv, c, what):
    if cls == 'TcpTransport':
        p.prove(Eq(c['fd'], tfd(I, p, lv)), '%s uses the transport\'s descriptor' % what, 'post')
    else:
        p.prove(isinstance(c['ssl'], Ptr) and c['ssl'].lv.key() == p.ghost['ssl'].lv.key(), '%s uses the transport\'s TLS object' % what, 'post')


def judge_error(I, p, cls, c, r, what):
    """r: the std::expected reported for the failed operation c"""
    p.prove(Not(r.has), 'a failed %s is not reported as a success' % what, 'post')
    if r.err is None:
        return
    e = r.err
    info = p.ghost.get('info')
    if cls == 'TcpTransport':
        en = bv(c['errno'], 32)
        p.prove(Implies(Eq(en, EAGAIN), TE(I, 'WantReadOrWrite')(e)), 'a %s that would block is reported as retryable' % what, 'post', info)
        p.prove(Implies(And(Not(Eq(en, EAGAIN)), Not(Eq(en, EINTR))), TE(I, *FAIL)(e)), 'another failure of a %s is reported as an error' % what, 'post', info)
        return
    x = c['error']
    is_ = lambda *ns: Or(*[Eq(x, SSL_ERROR[n]) for n in ns])
    p.prove(Implies(is_('WANT_READ', 'WANT_WRITE'), TE(I, 'WantReadOrWrite')(e)), 'a TLS %s that would block is reported as retryable' % what, 'post', info)
    p.prove(Implies(is_('ZERO_RETURN'), TE(I, 'ConnectionClosed')(e)), 'the end of the TLS connection is reported as closed', 'post', info)
    if what == 'handshake':
        p.prove(Implies(is_('SSL'), TE(I, 'ProtocolError', 'ConnectionClosed')(e)), 'a TLS failure of the handshake is an error or a disconnection', 'post', info)
    else:
        p.prove(Implies(is_('SSL'), TE(I, 'ProtocolError')(e)), 'a TLS protocol failure is reported as a protocol error', 'post', info)
    p.prove(Implies(Not(is_('WANT_READ', 'WANT_WRITE', 'ZERO_RETURN', 'SSL')), TE(I, *FAIL)(e)), 'another failure of a TLS %s is reported as an error' % what, 'post', info)


def unit_rw(cls, op):
    def h(I, p):
        lv = mk(I, p, cls)
        b0 = lv.load(p)
        buf = p.bytes_('buffer')
        p.assume(And(ult(0, buf.len), ule(buf.len, INTMAX)))
        cell = p.newlv('buf', buf, parse_type('std::vector<unsigned char>'))
        fn = the_fn(I, cls, op)
        try:
            r = I.exec_function(fn, lv, [SpanV(cell, 0, buf.len)])
        except CppThrow as e:
            p.prove(False, '%s does not throw' % op, 'post')
            return
        io = [c for c in p.ghost['io'] if c['op'] in ('read', 'write', 'handshake')]
        p.prove(len(io) == 1 and io[0]['op'] == op, 'one %s is made' % op, 'post')
        if len(io) != 1 or io[0]['op'] != op:
            return
        c = io[0]
        p.ghost['info'] = lambda m: dict(op=op, cls=cls, k=c['k'], **{n: m.eval(bv(c[n], 32), True).as_long() for n in ('errno', 'error', 'r') if n in c})
        on_self(I, p, cls, lv, c, op)
        p.prove(Eq(c['n'], buf.len), 'the whole buffer is offered', 'post')
        prove_eq(p, lv.load(p), b0, 'the transport is not changed', 'frame')
        if op == 'write':
            prove_eq(p, c['data'], buf, 'the octets offered are the buffer', 'post')
            prove_eq(p, cell.load(p), buf, 'the buffer is not changed', 'frame')
            if c['k'] == 0:
                p.prove(r.has, 'a successful write is reported as such', 'post')
                if r.val is not None:
                    p.prove(Eq(bv(r.val, 64), c['w']), 'the octets written are reported', 'post')
                return
        elif c['k'] == 0:
            p.prove(r.has, 'a successful read is reported as such', 'post')
            if r.val is not None:
                p.prove(Eq(bv(r.val, 64), c['got'].len), 'the octets read are reported', 'post')
            prove_eq(p, slice_(p, cell.load(p), 0, c['got'].len), c['got'], 'the octets read are at the front of the buffer', 'post')
            return
        elif c['k'] == 1 and cls == 'TcpTransport':
            p.prove(And(Not(r.has), TE(I, 'ConnectionClosed')(r.err) if r.err is not None else False), 'the end of the stream is reported as closed', 'post')
            return
        judge_error(I, p, cls, c, r, op)
    return Unit('%s::%s' % (cls, op), '%s::%s' % (cls, op), h, ctx=TCTX)


def unit_handshake(cls):
    def h(I, p):
        lv = mk(I, p, cls)
        b0 = lv.load(p)
        r = I.exec_function(the_fn(I, cls, 'handshake'), lv, [])
        io = [c for c in p.ghost['io']]
        prove_eq(p, lv.load(p), b0, 'the transport is not changed', 'frame')
        if cls == 'TcpTransport':
            p.prove(r.has, 'a TCP transport needs no handshake', 'post')
            p.prove(not io, 'and performs no I/O for it', 'post')
            return
        p.prove(len(io) == 1 and io[0]['op'] == 'handshake', 'one handshake step is made', 'post')
        if len(io) != 1 or io[0]['op'] != 'handshake':
            return
        on_self(I, p, cls, lv, io[0], 'handshake')
        c = io[0]
        p.ghost['info'] = lambda m: dict(op='handshake', cls=cls, k=c['k'], **{n: m.eval(bv(c[n], 32), True).as_long() for n in ('error', 'r') if n in c})
        if c['k'] == 0:
            p.prove(r.has, 'a completed handshake is reported as such', 'post')
            return
        judge_error(I, p, cls, c, r, 'handshake')
    return Unit('%s::handshake' % cls, '%s::handshake' % cls, h, ctx=TCTX)


def unit_shutdown(cls):
    def h(I, p):
        lv = mk(I, p, cls)
        b0 = lv.load(p)
        I.exec_function(the_fn(I, cls, 'graceful_shutdown'), lv, [])
        io = p.ghost['io']
        prove_eq(p, lv.load(p), b0, 'the transport is not changed', 'frame')
        p.prove(len(io) >= 1 and all(c['op'] == ('shutdown' if cls == 'TcpTransport' else 'ssl_shutdown') for c in io), 'the connection is shut down, nothing else', 'post')
        for c in io:
            on_self(I, p, cls, lv, c, 'shutdown')
    return Unit('%s::graceful_shutdown' % cls, '%s::graceful_shutdown' % cls, h, ctx=TCTX)


def units_c21():
    return [f for c in ('TcpTransport', 'TlsTransport') for f in (unit_rw(c, 'read'), unit_rw(c, 'write'), unit_handshake(c), unit_shutdown(c))]

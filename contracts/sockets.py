"""Ownership of socket descriptors: every descriptor is closed exactly once."""
from vc.verify import *
from vc import lib as L

S = 'SocketFd'
INT = parse_type('int')


def x_close(I, args, node):
    """close(2): recorded; a negative descriptor must never be passed, nor one already closed"""
    p = I.p
    fd = bv(I.rv(args[0]), 32)
    p.prove(fd >= 0, 'only valid descriptors are closed', 'post')
    p.ghost['closed'].append(fd)
    L.errno_lv(I).store(p, p.freshbv('errno', 32))
    return p.freshbv('close', 32)


def x_errno(I, name='errno'):
    L.errno_lv(I).store(I.p, I.p.freshbv(name, 32))


X = {'close': x_close}
CTX = dict(externs=X, raii=True)


def fd_of(I, p, lv):
    f = [x['name'] for x in I.all_fields(S)]
    if len(f) != 1:
        raise ToolLimit('SocketFd is not a single descriptor')
    return bv(lv.load(p).f[f[0]], 32)


def sock(I, p, name):
    """a SocketFd in an arbitrary state (any negative number: no descriptor)"""
    f = [x['name'] for x in I.all_fields(S)]
    if len(f) != 1:
        raise ToolLimit('SocketFd is not a single descriptor')
    v = p.freshbv(name, 32)
    return p.newlv(name, Rec(S, {f[0]: v}), parse_type('ion::' + S)), v


def owned(v):
    return bv(v, 32) >= 0


def closed_is(p, want, what):
    """want: list of (condition, descriptor); exactly those are closed, once each"""
    got = p.ghost['closed']
    n = 0
    for c, fd in want:
        if p.decide(c):
            p.prove(n < len(got) and Eq(got[n], fd), '%s: the descriptor is closed' % what, 'post')
            n += 1
    p.prove(len(got) == n, '%s: nothing else is closed' % what, 'post')


def released(I, p, lv, what):
    p.prove(Not(owned(fd_of(I, p, lv))), '%s holds no descriptor any more' % what, 'post')


def unit_ctor():
    def h(I, p):
        p.ghost['closed'] = []
        fd = p.freshbv('fd', 32)
        lv = construct(I, S, [fd], 1)
        p.prove(Eq(fd_of(I, p, lv), fd), 'a new owner holds the descriptor', 'post')
        closed_is(p, [], 'construction')
    return Unit('SocketFd(int)', 'SocketFd::SocketFd', h, ctx=CTX)


def ctor_of(I, cls, kind):
    """the move constructor of cls"""
    for f in L.user_special(I, cls, cls):
        ps = I.params(f)
        if len(ps) == 1 and I.T(ps[0]).kind == 'ref' and I.T(ps[0]).strip().simple == cls and '&&' in L.node_type_str(ps[0]):
            return f
    return None


def unit_move_ctor():
    def h(I, p):
        p.ghost['closed'] = []
        o, fd = sock(I, p, 'other')
        v = L.transfer(I, o, parse_type('ion::' + S), True)
        lv = p.newlv('moved', v, parse_type('ion::' + S))
        p.prove(Implies(owned(fd), Eq(fd_of(I, p, lv), fd)), 'moving transfers the descriptor', 'post')
        p.prove(Implies(Not(owned(fd)), Not(owned(fd_of(I, p, lv)))), 'moving from an empty owner gives an empty one', 'post')
        released(I, p, o, 'the moved-from owner')
        closed_is(p, [], 'moving')
    return Unit('SocketFd(SocketFd&&)', 'SocketFd::SocketFd', h, ctx=CTX)


def unit_assign():
    def h(I, p):
        p.ghost['closed'] = []
        a, fa = sock(I, p, 'this')
        b, fb = sock(I, p, 'other')
        p.assume(Implies(And(owned(fa), owned(fb)), Not(Eq(fa, fb))))
        same = p.choose(2)
        fn = the_fn(I, S, 'operator=')
        I.exec_function(fn, a, [a if same else b])
        if same:
            p.prove(Eq(fd_of(I, p, a), fa), 'self-assignment keeps the descriptor', 'post')
            closed_is(p, [], 'self-assignment')
            return
        p.prove(Implies(owned(fb), Eq(fd_of(I, p, a), fb)), 'assignment transfers the descriptor', 'post')
        p.prove(Implies(Not(owned(fb)), Not(owned(fd_of(I, p, a)))), 'assigning an empty owner gives an empty one', 'post')
        released(I, p, b, 'the assigned-from owner')
        closed_is(p, [(owned(fa), fa)], 'assignment')
    return Unit('SocketFd::operator=', 'SocketFd::operator=', h, ctx=CTX)


def unit_close(dtor):
    def h(I, p):
        p.ghost['closed'] = []
        a, fa = sock(I, p, 'this')
        if dtor:
            L.destroy(I, a, parse_type('ion::' + S))
        else:
            I.exec_function(the_fn(I, S, 'close'), a, [])
            released(I, p, a, 'the closed owner')
        closed_is(p, [(owned(fa), fa)], 'destruction' if dtor else 'close()')
    return Unit('SocketFd::' + ('~SocketFd' if dtor else 'close'), 'SocketFd::' + ('~SocketFd' if dtor else 'close'), h, ctx=CTX)


def unit_conv():
    def h(I, p):
        p.ghost['closed'] = []
        a, fa = sock(I, p, 'this')
        fn = [f for n, fs in I.P.funcs.items() if n.startswith('operator int') for f in fs if f['_cls'] == S]
        if not fn:
            raise ToolLimit('no conversion to int')
        r = I.exec_function(fn[0], a, [])
        p.prove(Eq(bv(r, 32), fa), 'the raw descriptor is the one held', 'post')
        closed_is(p, [], 'reading the raw descriptor')
        p.prove(Eq(fd_of(I, p, a), fa), 'the owner keeps it', 'frame')
    return Unit('SocketFd::operator int', 'SocketFd::operator int', h, ctx=CTX)


# --- the transports, which hold a SocketFd (and an SSL object) -----------------------------------------------
def x_ssl_free(I, args, node):
    v = I.rv(args[0])
    I.p.ghost['freed'].append(v)
    return None


TX = dict(X, SSL_free=x_ssl_free)


def transport(I, p, cls, name):
    """a transport holding an arbitrary descriptor; for TLS an SSL object or none -> (lv, fd, ssl)"""
    f, fd, ssl = {}, None, None
    for x in I.all_fields(cls):
        t = I.T(x).strip()
        if t.simple == S:
            s, fd = sock(I, p, name + '.fd')
            f[x['name']] = s.load(p)
        elif I.T(x).kind == 'ptr':
            k = p.choose(2)
            ssl = Ptr(p.newlv('ssl.' + name, Opaque('SSL', name), None)) if k else Null()
            f[x['name']] = ssl
        else:
            f[x['name']] = I.symbolic(t, name + '.' + x['name'])
    if fd is None:
        raise ToolLimit('no descriptor in %s' % cls)
    return p.newlv(name, Rec(cls, f), parse_type('ion::' + cls)), fd, ssl


def tfd(I, p, lv):
    for x in I.all_fields(lv.load(p).cls):
        if I.T(x).strip().simple == S:
            return fd_of(I, p, LVField(lv, x['name']))


def tssl(I, p, lv):
    for x in I.all_fields(lv.load(p).cls):
        if I.T(x).kind == 'ptr':
            return lv.load(p).f[x['name']]


def skey(v):
    return v.lv.key() if isinstance(v, Ptr) else None


def unit_transport(cls, op):
    def h(I, p):
        p.ghost['closed'], p.ghost['freed'] = [], []
        T = parse_type('ion::' + cls)
        a, fa, sa = transport(I, p, cls, 'this')
        freed = lambda: [skey(v) for v in p.ghost['freed'] if skey(v)]
        if op == '~':
            L.destroy(I, a, T)
            closed_is(p, [(owned(fa), fa)], 'destruction')
            p.prove(freed() == ([skey(sa)] if skey(sa) else []), 'destruction frees the TLS object once', 'post')
            return
        if op == 'move':
            v = L.transfer(I, a, T, True)
            n = p.newlv('moved', v, T)
            p.prove(Implies(owned(fa), Eq(tfd(I, p, n), fa)), 'moving transfers the descriptor', 'post')
            p.prove(Not(owned(tfd(I, p, a))), 'the moved-from transport holds no descriptor', 'post')
            p.prove(skey(tssl(I, p, n)) == skey(sa) and skey(tssl(I, p, a)) is None, 'moving transfers the TLS object', 'post')
            closed_is(p, [], 'moving')
            p.prove(freed() == [], 'moving frees nothing', 'post')
            return
        b, fb, sb = transport(I, p, cls, 'other')
        p.assume(Implies(And(owned(fa), owned(fb)), Not(Eq(fa, fb))))
        same = p.choose(2)
        I.exec_function(the_fn(I, cls, 'operator='), a, [a if same else b])
        if same:
            p.prove(Eq(tfd(I, p, a), fa), 'self-assignment keeps the descriptor', 'post')
            p.prove(skey(tssl(I, p, a)) == skey(sa), 'self-assignment keeps the TLS object', 'post')
            closed_is(p, [], 'self-assignment')
            p.prove(freed() == [], 'self-assignment frees nothing', 'post')
            return
        p.prove(Implies(owned(fb), Eq(tfd(I, p, a), fb)), 'assignment transfers the descriptor', 'post')
        p.prove(Not(owned(tfd(I, p, b))), 'the assigned-from transport holds no descriptor', 'post')
        p.prove(skey(tssl(I, p, a)) == skey(sb) and skey(tssl(I, p, b)) is None, 'assignment transfers the TLS object', 'post')
        closed_is(p, [(owned(fa), fa)], 'assignment')
        p.prove(freed() == ([skey(sa)] if skey(sa) else []), 'assignment frees the TLS object replaced, once', 'post')
    q = {'~': '~' + cls, 'move': cls, '=': 'operator='}[op]
    return Unit('%s::%s' % (cls, q), '%s::%s' % (cls, q), h, ctx=dict(CTX, externs=TX))


# --- functions that obtain descriptors ----------------------------------------------------------------------
def ret(I, name, w=32):
    """any result; errno becomes arbitrary"""
    x_errno(I)
    return I.p.freshbv(name, w)


def x_any(name):
    def f(I, args, node):
        return ret(I, name)
    return f


def x_open(name):
    """a call that returns a new descriptor, or a negative number"""
    def f(I, args, node):
        p = I.p
        fd = ret(I, name)
        p.ghost['opened'].append(fd)
        return fd
    return f


def x_ssl_new(I, args, node):
    p = I.p
    return Ptr(p.newlv('ssl.new', Opaque('SSL', 'new'), None)) if p.choose(2) else Null()


SYS = dict(TX, socket=x_open('socket'), accept=x_open('accept'), accept4=x_open('accept4'), SSL_new=x_ssl_new,
           **{n: x_any(n) for n in ('fcntl', 'setsockopt', 'bind', 'listen', 'SSL_set_fd', 'getpeername')})


def gone(I, p, what):
    """every descriptor obtained is closed exactly once"""
    closed_is(p, [(owned(fd), fd) for fd in p.ghost['opened']], what)


def start(p):
    p.ghost['closed'], p.ghost['freed'], p.ghost['opened'] = [], [], []


def unit_listener():
    def h(I, p):
        start(p)
        port = p.freshbv('port', 16)
        try:
            lv = construct(I, 'TcpListener', [port])
        except CppThrow:
            gone(I, p, 'a failed construction of the listener')
            return
        o = [fd for fd in p.ghost['opened']]
        p.prove(len(o) == 1, 'one socket is opened', 'post')
        closed_is(p, [], 'construction of the listener')
        if o:
            p.prove(And(owned(o[0]), Eq(tfd(I, p, lv), o[0])), 'the listener holds the socket it opened', 'post')
        L.destroy(I, lv, parse_type('ion::TcpListener'))
        gone(I, p, 'destruction of the listener')
    return Unit('TcpListener::TcpListener', 'TcpListener::TcpListener', h, ctx=dict(CTX, externs=SYS))


def unit_accept():
    def h(I, p):
        start(p)
        s, fd = sock(I, p, 'server')
        nm = [x['name'] for x in I.all_fields('TcpListener') if I.T(x).strip().simple == S]
        if len(nm) != 1:
            raise ToolLimit('the listener holds no socket')
        f = {x['name']: s.load(p) if x['name'] == nm[0] else I.symbolic(I.T(x), x['name']) for x in I.all_fields('TcpListener')}
        lv = p.newlv('listener', Rec('TcpListener', f), parse_type('ion::TcpListener'))
        try:
            r = I.exec_function(the_fn(I, 'TcpListener', 'try_accept'), lv, [])
        except CppThrow:
            gone(I, p, 'a failed accept')
            return
        o = p.ghost['opened']
        p.prove(len(o) == 1, 'one connection is accepted', 'post')
        if not o:
            return
        p.prove(Eq(r.has, owned(o[0])), 'a connection is returned iff one was accepted', 'post')
        if p.decide(r.has):
            t = p.newlv('accepted', r.val, parse_type('ion::' + S))
            p.prove(Eq(fd_of(I, p, t), o[0]), 'the accepted descriptor is returned', 'post')
        closed_is(p, [], 'a successful accept')
        p.prove(Eq(fd_of(I, p, LVField(lv, nm[0])), fd), 'the listening socket is kept', 'frame')
    return Unit('TcpListener::try_accept', 'TcpListener::try_accept', h, ctx=dict(CTX, externs=SYS))


def unit_make_transport(cls):
    def h(I, p):
        start(p)
        s, fd = sock(I, p, 'client')
        args = [s]
        if cls == 'TlsTransport':
            f = {x['name']: Ptr(p.newlv('ctx', Opaque('SSL_CTX', 0), None)) if I.T(x).kind == 'ptr' else I.symbolic(I.T(x), x['name']) for x in I.all_fields('TlsContext')}
            args.append(p.newlv('tlsctx', Rec('TlsContext', f), parse_type('ion::TlsContext')))
        T = parse_type('ion::' + cls)
        try:
            lv = construct(I, cls, args)
        except CppThrow:
            L.destroy(I, s, parse_type('ion::' + S))
            closed_is(p, [(owned(fd), fd)], 'a failed set-up (with the end of the caller\'s owner)')
            return
        released(I, p, s, 'the caller\'s owner')
        p.prove(Implies(owned(fd), Eq(tfd(I, p, lv), fd)), 'the transport holds the descriptor', 'post')
        closed_is(p, [], 'set-up')
        L.destroy(I, lv, T)
        closed_is(p, [(owned(fd), fd)], 'the life of a transport')
    return Unit('%s(SocketFd&&)' % cls, '%s::%s' % (cls, cls), h, ctx=dict(CTX, externs=SYS))


def units_c23():
    return [unit_ctor(), unit_move_ctor(), unit_assign(), unit_close(False), unit_close(True), unit_conv()] + \
        [unit_transport(c, o) for c in ('TcpTransport', 'TlsTransport') for o in ('~', 'move', '=')] + \
        [unit_listener(), unit_accept(), unit_make_transport('TcpTransport'), unit_make_transport('TlsTransport')]

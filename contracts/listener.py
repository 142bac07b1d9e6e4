"""The listening socket (C29): bound to the port asked for, listening, non-blocking, or an error."""
from vc.verify import *
from vc import lib as L
from . import server
from .sockets import *
from .sockets import gone, start

LST = 'TcpListener'
NONBLOCK = 0o4000
AF_INET, AF_INET6 = 2, 10
SOL_SOCKET, SO_REUSEADDR, IPPROTO_TCP, TCP_NODELAY = 1, 2, 6, 1
F_GETFL, F_SETFL = 3, 4
EAGAIN, EINTR = 11, 4
M1 = 0xffffffff
TEXTLEN = {AF_INET: 16, AF_INET6: 46}


def load(p, v):
    return v.load(p) if isinstance(v, LV) else v


def const(v):
    v = simp(v) if is_sym(v) else v
    if is_sym(v):
        raise ToolLimit('a symbolic constant')
    return v


def failed(I, what, c=None):
    """the call fails (c: or not)"""
    p = I.p
    if p.decide(c if c is not None else p.freshbool(what + ' fails')):
        e = p.freshbv('errno', 32)
        p.fact(z3.And(e > 0, e < 4096))
        L.errno_lv(I).store(p, e)
        p.ghost['failed'].append((what, e))
        return True
    return False


# --- the kernel's side of a socket ------------------------------------------------------------------------
def sk(I, v, what):
    """the socket with descriptor v"""
    p = I.p
    fd = bv(v, 32)
    for k in p.ghost['sk']:
        if p.entails(Eq(k['fd'], fd)):
            p.prove(not k['closed'], '%s on an open descriptor' % what, 'post')
            return k
    p.prove(False, '%s on a socket of the listener' % what, 'post')
    raise PathEnd()


def new_sk(p, fd, **kw):
    k = dict(fd=fd, flags=p.freshbv('flags', 32), opts={}, bound=None, listening=False, closed=False)
    k.update(kw)
    p.ghost['sk'].append(k)
    return k


def x_socket(I, args, node):
    p = I.p
    dom, ty, pr = (const(I.rv(a)) for a in args)
    p.prove(dom == AF_INET and ty & ~(NONBLOCK | 0o2000000) == 1 and pr in (0, 6), 'a TCP socket is opened', 'post')
    if failed(I, 'socket'):
        return M1
    fd = p.freshbv('socket', 32)
    p.assume(fd >= 0)
    p.ghost['opened'].append(fd)
    k = new_sk(p, fd)
    p.assume(Eq(k['flags'] & NONBLOCK, bv(ty & NONBLOCK, 32)))
    return fd


def x_accept(I, args, node):
    p = I.p
    k = sk(I, I.rv(args[0]), 'accept')
    for a in args[1:3]:
        I.rv(a)
    p.prove(k is p.ghost['server'], 'connections are accepted from the listening socket', 'post')
    fl = const(I.rv(args[3])) if len(args) > 3 else 0
    if failed(I, 'accept'):
        return M1
    fd = p.freshbv('accepted', 32)
    p.assume(And(fd >= 0, *[Not(Eq(fd, x['fd'])) for x in p.ghost['sk']]))
    p.ghost['opened'].append(fd)
    n = new_sk(p, fd)
    p.assume(Eq(n['flags'] & NONBLOCK, bv(fl & NONBLOCK, 32)))
    return fd


def x_fcntl(I, args, node):
    p = I.p
    k = sk(I, I.rv(args[0]), 'fcntl')
    cmd = const(I.rv(args[1]))
    arg = I.rv(args[2]) if len(args) > 2 else 0
    if cmd not in (F_GETFL, F_SETFL):
        raise ToolLimit('fcntl command %d' % cmd)
    if failed(I, 'fcntl'):
        return M1
    if cmd == F_GETFL:
        p.assume(k['flags'] >= 0)
        return k['flags']
    k['flags'] = bv(arg, 32)
    return 0


def x_setsockopt(I, args, node):
    p = I.p
    k = sk(I, I.rv(args[0]), 'setsockopt')
    lvl, nm = const(I.rv(args[1])), const(I.rv(args[2]))
    v = I.rv(args[3])
    n = const(I.rv(args[4]))
    if not isinstance(v, Ptr) or not isinstance(load(p, v.lv), (int, bool, z3.ExprRef)):
        raise ToolLimit('the value of a socket option')
    p.prove(n == 4, 'the option is an int', 'post')
    val = load(p, v.lv)
    if failed(I, 'setsockopt'):
        if (lvl, nm) == (IPPROTO_TCP, TCP_NODELAY):     # an optimisation the server may do without
            p.ghost['failed'].pop()
            k['opts'][lvl, nm] = 'tried'
        return M1
    k['opts'][lvl, nm] = val
    return 0


def address(I, v):
    if isinstance(v, Opaque) and v.kind == 'pointer' and isinstance(v.data, dict) and 'of' in v.data:
        v = v.data['of']
    if isinstance(v, Ptr):
        return v.lv
    raise ToolLimit('a socket address')


def x_bind(I, args, node):
    p = I.p
    k = sk(I, I.rv(args[0]), 'bind')
    a = load(p, address(I, I.rv(args[1])))
    n = const(I.rv(args[2]))
    if not isinstance(a, Rec) or 'sin_port' not in a.f:
        raise ToolLimit('bind to something else than an IPv4 address')
    p.prove(n == 16, 'the whole address is given', 'post')
    p.prove(Eq(bv(a.f['sin_family'], 16), bv(AF_INET, 16)), 'the address is an IPv4 address', 'post')
    p.prove(Eq(bv(a.f['sin_addr'].f['s_addr'], 32), bv(0, 32)), 'every interface is listened on', 'post')
    p.prove(Eq(p.ghost['sk'][0]['opts'].get((SOL_SOCKET, SO_REUSEADDR), 0), 1), 'the address may be reused at once after a restart', 'post')
    if failed(I, 'bind'):
        return M1
    k['bound'] = bv(a.f['sin_port'], 16)
    return 0


def x_listen(I, args, node):
    p = I.p
    k = sk(I, I.rv(args[0]), 'listen')
    p.prove(bv(I.rv(args[1]), 32) > 0, 'arrivals may queue', 'post')
    if failed(I, 'listen'):
        return M1
    k['listening'] = True
    return 0


def x_close(I, args, node):
    p = I.p
    fd = bv(I.rv(args[0]), 32)
    p.ghost['closed'].append(fd)
    for k in p.ghost['sk']:
        if p.entails(Eq(k['fd'], fd)):
            k['closed'] = True
    return 0


KERNEL = dict(socket=x_socket, accept=x_accept, accept4=x_accept, fcntl=x_fcntl, setsockopt=x_setsockopt, bind=x_bind, listen=x_listen, close=x_close)


def begin(p):
    start(p)
    p.ghost.update(sk=[], failed=[], server=None)


def swap16(v):
    v = bv(v, 16)
    return simp(z3.Concat(z3.Extract(7, 0, v), z3.Extract(15, 8, v)))


def unit_open():
    def h(I, p):
        begin(p)
        G = p.ghost
        port = p.freshbv('port', 16)
        info = lambda m: dict(op='listener', port=m(port))
        try:
            lv = construct(I, LST, [port])
        except CppThrow as e:
            p.prove(bool(G['failed']), 'opening the listener fails only when the kernel refuses', 'post', info)
            p.prove(e.cls.endswith('error') or e.cls.endswith('exception'), 'a refusal is reported as an exception', 'post', info)
            gone(I, p, 'a failed construction of the listener')
            return
        p.prove(not G['failed'], 'what the kernel refuses is reported', 'post', info)
        p.prove(len(G['sk']) == 1, 'one socket is opened', 'post', info)
        if len(G['sk']) != 1:
            return
        k = G['sk'][0]
        p.prove(Eq(k['flags'] & NONBLOCK, bv(NONBLOCK, 32)), 'the listening socket does not block', 'post', info)
        p.prove(k['bound'] is not None and Eq(k['bound'], swap16(port)), 'the socket is bound to the port asked for', 'post', info)
        p.prove(Eq(tfd(I, p, lv), k['fd']) and not k['closed'], 'the listener holds the socket, open', 'post', info)
        r = I.exec_function(the_fn(I, LST, 'raw_fd', 0), lv, [])
        p.prove(Eq(bv(load(p, r), 32), k['fd']), 'raw_fd() is the listening socket', 'post', info)
    return Unit('TcpListener::TcpListener', 'TcpListener::TcpListener', h, ctx=dict(CTX, externs=KERNEL))


def held(I, p):
    """a listener holding any open socket"""
    s, fd = sock(I, p, 'server')
    p.assume(fd >= 0)
    f = {x['name']: s.load(p) if I.T(x).strip().simple == S else I.symbolic(I.T(x), x['name']) for x in I.all_fields(LST)}
    k = p.ghost['server'] = new_sk(p, fd)
    return p.newlv('listener', Rec(LST, f), parse_type('ion::' + LST)), k


def unit_listen():
    def h(I, p):
        begin(p)
        lv, k = held(I, p)
        info = lambda m: dict(op='listen')
        try:
            I.exec_function(the_fn(I, LST, 'listen', 0), lv, [])
        except CppThrow as e:
            p.prove(bool(p.ghost['failed']), 'listening fails only when the kernel refuses', 'post', info)
            p.prove(e.cls.endswith('error') or e.cls.endswith('exception'), 'a refusal is reported as an exception', 'post', info)
            return
        p.prove(k['listening'] and not p.ghost['failed'], 'the socket listens, or an error is reported', 'post', info)
        p.prove(Eq(tfd(I, p, lv), k['fd']) and not p.ghost['closed'], 'the socket stays open', 'frame', info)
    return Unit('TcpListener::listen', LST + '::listen', h, ctx=dict(CTX, externs=KERNEL))


def unit_accepted():
    def h(I, p):
        begin(p)
        G = p.ghost
        lv, k = held(I, p)
        info = lambda m: dict(op='accept')
        thrown, r = None, None
        try:
            r = I.exec_function(the_fn(I, LST, 'try_accept', 0), lv, [])
        except CppThrow as e:
            thrown = e
        got = G['sk'][1:]
        no = [e for w, e in G['failed'] if w == 'accept']
        p.prove(len(got) + len(no) >= 1, 'the kernel is asked for a connection', 'post', info)
        if len(got) + len(no) != 1:
            raise ToolLimit('more than one accept')
        if no and not got:
            none_ = Or(Eq(no[0], bv(EAGAIN, 32)), Eq(no[0], bv(EINTR, 32)))
            if thrown is not None:
                p.prove(Not(none_), 'having no connection to accept is no error', 'post', info)
            else:
                p.prove(And(Not(r.has)), 'no connection is made up', 'post', info)
                p.prove(none_, 'a failure to accept is reported', 'post', info)
            return
        c = got[0]
        if thrown is not None:
            p.prove(len(G['failed']) > 0, 'a connection is given up only when the kernel refuses', 'post', info)
            p.prove(c['closed'], 'a connection given up is closed', 'post', info)
            return
        p.prove(r.has, 'an accepted connection is returned', 'post', info)
        if not p.decide(r.has):
            return
        t = p.newlv('accepted', r.val, parse_type('ion::' + S))
        p.prove(Eq(fd_of(I, p, t), c['fd']), 'the accepted descriptor is returned', 'post', info)
        p.prove(not c['closed'], 'the accepted descriptor is open', 'post', info)
        p.prove(Eq(c['flags'] & NONBLOCK, bv(NONBLOCK, 32)), 'an accepted connection does not block', 'post', info)
        d = c['opts'].get((IPPROTO_TCP, TCP_NODELAY))
        p.prove(d == 'tried' or d is not None and Not(Eq(d, 0)), 'small writes are sent without delay', 'post', info)
        p.prove(Eq(tfd(I, p, lv), k['fd']) and not k['closed'], 'the listening socket is kept', 'frame', info)
    return Unit('TcpListener::try_accept', LST + '::try_accept', h, ctx=dict(CTX, externs=KERNEL))


# --- the address of a client ------------------------------------------------------------------------------
STORAGE = ('sockaddr_storage', 'sockaddr_in', 'sockaddr_in6')


def x_getpeername(I, args, node):
    p = I.p
    G = p.ghost
    p.prove(Eq(bv(I.rv(args[0]), 32), G['fd']), 'the address asked for is the client\'s', 'post')
    lv = address(I, I.rv(args[1]))
    a = load(p, lv)
    n = I.rv(args[2])
    room = load(p, n.lv) if isinstance(n, Ptr) else None
    if not isinstance(a, Rec) or a.cls not in STORAGE or room is None:
        raise ToolLimit('getpeername')
    p.prove(ule(bv(room, 64), 128 if a.cls == 'sockaddr_storage' else 28 if a.cls == 'sockaddr_in6' else 16), 'the address stays inside its buffer', 'mem')
    p.prove(ule(28, bv(room, 64)), 'there is room for an address', 'post')
    if failed(I, 'getpeername'):
        return M1
    fam = G['family'] = p.freshbv('family', 16)
    G['addr'] = lv.key()
    lv.store(p, Rec(a.cls, dict(a.f, **{next(x for x in a.f if x.endswith('_family')): fam})))
    return 0


def x_ntop(I, args, node):
    """writes the address as text, if there is room"""
    p = I.p
    G = p.ghost
    fam = I.rv(args[0])
    if is_sym(fam):
        fam = next((f for f in TEXTLEN if p.entails(Eq(bv(fam, 32), bv(f, 32)))), fam)
    fam = const(fam)
    src, dst, n = I.rv(args[1]), I.rv(args[2]), I.rv(args[3])
    if not isinstance(dst, Ptr) or dst.idx != 0 or fam not in TEXTLEN:
        raise ToolLimit('inet_ntop')
    p.prove(Eq(G['family'], bv(fam, 16)) if 'family' in G else False, 'the address is read as what it is', 'post')
    nm, of = None, None
    if isinstance(src, Ptr) and isinstance(src.lv, LVField):
        nm = src.lv.name
        b = src.lv.base
        v = load(p, b)
        of = v.data['of'].lv.key() if isinstance(v, Opaque) and isinstance(v.data, dict) and isinstance(v.data.get('of'), Ptr) else b.key()
    p.prove(nm == {AF_INET: 'sin_addr', AF_INET6: 'sin6_addr'}[fam] and of == G.get('addr'), 'the text is made from the client\'s address', 'post')
    s = load(p, dst.lv)
    p.require(ule(n, s.len), 'the text stays inside its buffer', 'mem')
    p.prove(ule(TEXTLEN[fam], bv(n, 64)), 'the text of every address fits', 'post')
    t = G['text'] = p.bytes_('address')
    p.assume(And(ule(1, t.len), ule(t.len, TEXTLEN[fam] - 1)))
    G.setdefault('cstr', set()).add(str(t.t))
    tail = p.bytes_('rest')
    p.assume(Eq(tail.len, sub(sub(s.len, t.len), 1)))
    dst.lv.store(p, cat(t, Lit([0]), tail))
    return dst


def unit_ip():
    def h(I, p):
        begin(p)
        G = p.ghost
        s, fd = sock(I, p, 'client')
        G['fd'] = fd
        r = load(p, I.exec_function(the_fn(I, S, 'client_ip', 0), s, []))
        info = lambda m: dict(op='ip', family=m(G['family']) if 'family' in G else None)
        if G['failed']:
            p.prove(Not(r.has), 'an unknown address is an error', 'post', info)
        elif 'text' in G:
            p.prove(r.has, 'a known address is given', 'post', info)
            if p.decide(r.has):
                prove_eq(p, load(p, r.val), G['text'], 'the address is the client\'s, in full', 'post', info)
        else:
            p.prove('family' in G, 'the kernel is asked for the address', 'post', info)
            if 'family' in G:
                p.prove(Not(r.has), 'no address is made up', 'post', info)
                p.prove(And(Not(Eq(G['family'], bv(AF_INET, 16))), Not(Eq(G['family'], bv(AF_INET6, 16)))), 'every IPv4 and IPv6 address is known', 'post', info)
        p.prove(Eq(fd_of(I, p, s), fd) and not G['closed'], 'the socket is kept', 'frame', info)
    return Unit('SocketFd::client_ip', S + '::client_ip', h, ctx=dict(CTX, externs=dict(KERNEL, getpeername=x_getpeername, inet_ntop=x_ntop)))


# --- starting the server ----------------------------------------------------------------------------------
class LCtor(server.LCtor):
    def apply(self, I, this, vals):
        p = I.p
        p.ghost['asked port'].append(vals[0])
        p.ghost['listener failed'] = True
        server.LCtor.apply(self, I, this, vals)
        p.ghost['listener failed'] = False


class Listen(server.Listen):
    def apply(self, I, this, vals):
        p = I.p
        p.ghost['listener failed'] = True
        server.Listen.apply(self, I, this, vals)
        p.ghost['listener failed'] = False


class Rounds(server.Rounds):
    def entry(self, st):
        p, G = st.p, st.p.ghost
        info = lambda m: dict(op='start', port=m(G['port']))
        p.prove(len(G['asked port']) == 1 and Eq(bv(load(p, G['asked port'][0]), 16), G['port']), 'the port listened on is the one asked for', 'post', info)
        p.prove(not G.get('listener failed'), 'the server does not run without listening', 'post', info)
        server.Rounds.entry(self, st)


def unit_start():
    rounds, disp = Rounds(), server.Dispatch()

    def rule(I, key, n):
        return disp if 'events' in I.p.ghost else rounds

    def h(I, p):
        G = p.ghost
        o = server.mk_server(I, p)
        port = G['port'] = p.freshbv('port', 16)
        G['asked port'] = []
        try:
            I.exec_function(the_fn(I, server.V, 'start'), o, [port])
        except CppThrow as e:
            p.prove('round' not in G, 'no failure of accepting or of a connection stops the server', 'post')
            return
        if G.get('where') != 'exit':
            p.prove(not G.get('listener failed'), 'starting without listening is an error', 'post', lambda m: dict(op='start', port=m(port)))
            if G.get('listener failed'):
                return
            raise ToolLimit('the server loop was not found')
        p.reached()
    uses = [u for u in server.START_USES if type(u) not in (server.LCtor, server.Listen)] + [LCtor(), Listen()]
    return Unit('start', server.V + '::start', h, rules={'*': rule}, contracts=uses, ctx=dict(raii=True, externs=SYS))


def units_c29():
    return [unit_open(), unit_listen(), unit_accepted(), unit_ip(), unit_start()]

"""Http2Server: admission, tracking, dispatch and reaping of connections."""
from vc.verify import *
from vc.fold import *
from vc.maps import MapBase, MapV, MIter
from vc import lib as L
from vc.interp import RefV
from .sockets import SYS, start, sock, fd_of, tfd, owned, S, closed_is
from .pollers import enum_map, R, W, H, E

V = 'Http2Server'
CAP = 128
CONN = UF('server.conn', Obj, z3.BitVecSort(32), Obj)          # the connection held for a descriptor
TIMED = UF('conn.timed_out', Obj, z3.BoolSort())


def conn_val(p, b, k):
    """the connection held for k: an object known by its identity only"""
    return UPtr(p.newlv('conn', Rec('Http2Connection', {'#id': CONN(b.id, bv(k, 32))}), parse_type('ion::Http2Connection')))


def log(p, *a):
    p.ghost['log'].append(a)


def logged(p, *kinds):
    return [a for a in p.ghost['log'] if a[0] in kinds]


def cid(p, lv):
    v = lv.load(p)
    if not isinstance(v, Rec) or '#id' not in v.f:
        raise ToolLimit('a connection that is not one of the server')
    return v.f['#id']


def num(p, v):
    return v.load(p) if isinstance(v, LV) else v


# --- contracts of the callees -----------------------------------------------------------------------------
class Process:
    """proved in conn.unit_process: any result, never an exception"""
    name = 'Http2Connection::process'

    def apply(self, I, this, vals):
        p = I.p
        r = p.choose(3)
        c = I.P.enums['Http2ProcessResult']['consts']
        k = ('WantRead', 'WantWrite', 'DiscardConnection')[r]
        log(p, 'process', cid(p, this), k)
        return c[k]


class TimedOut:
    name = 'Http2Connection::has_timed_out'

    def apply(self, I, this, vals):
        return TIMED(cid(I.p, this))


class ConnDtor:
    """ends the transport the connection owns (C23)"""
    name = 'Http2Connection::~Http2Connection'

    def apply(self, I, this, vals):
        p = I.p
        log(p, 'destroy', cid(p, this))
        t = this.load(p).f.get('#transport')
        if t is not None:
            L.destroy(I, t.cell, I.T_of(t.cell) if hasattr(I, 'T_of') else parse_type('ion::' + t.cell.load(p).cls))


class ConnCtor:
    """proved in conn.unit_ctor: takes the transport and the address, throws nothing"""
    name = 'Http2Connection::Http2Connection'

    def apply(self, I, this, vals):
        p = I.p
        t = vals[0]
        if isinstance(t, LV):
            v = t.load(p)
            t.store(p, UPtr(None))
            t = v
        if not isinstance(t, UPtr) or t.cell is None:
            p.prove(False, 'a connection is given a transport', 'post')
            raise PathEnd()
        i = p.fresh('newconn', Obj)
        r = vals[2]
        log(p, 'created', i, num(p, vals[1]), r.lv.key() if isinstance(r, RefV) else r.key() if isinstance(r, LV) else None)
        this.store(p, Rec('Http2Connection', {'#id': i, '#transport': t}))


class PSet:
    """proved in pollers: registers exactly that interest"""
    name = 'Poller::set'

    def apply(self, I, this, vals):
        p = I.p
        log(p, 'set', num(p, vals[0]), num(p, vals[1]))
        p.ghost['PI'] = p.ghost['PI'].put(bv(num(p, vals[0]), 32), bv(num(p, vals[1]), 32))


class PRemove:
    name = 'Poller::remove'

    def apply(self, I, this, vals):
        p = I.p
        log(p, 'remove', num(p, vals[0]))
        p.ghost['PI'] = p.ghost['PI'].put(bv(num(p, vals[0]), 32), None)


class TryAccept:
    """proved in sockets.unit_accept: a new descriptor, none, or an exception; a new descriptor is not one that is open"""
    name = 'TcpListener::try_accept'

    def apply(self, I, this, vals):
        p = I.p
        k = p.choose(3)
        log(p, 'accept', k)
        if k == 0:
            return Opt(False, None)
        if k == 1:
            raise CppThrow('?std::exception')
        s, fd = sock(I, p, 'accepted%d' % len(p.ghost['opened']))
        G = p.ghost
        p.assume(owned(fd))
        for o in G['opened']:
            p.assume(Not(Eq(o, fd)))
        p.assume(Not(Eq(fd, G['listener'])))
        p.assume(Not(G['M'].has(p, fd)))
        p.assume(Not(G['PI0'].has(p, fd)))
        G['opened'].append(fd)
        return Opt(True, s.load(p))


class ClientIp:
    name = 'SocketFd::client_ip'

    def apply(self, I, this, vals):
        p = I.p
        if 'ip' not in p.ghost:
            p.ghost['ip'] = Opt(False, None, 0, 'expected') if not p.choose(2) else Opt(True, p.bytes_('ip'), None, 'expected')
        return p.ghost['ip']


USES = [Process(), TimedOut(), ConnDtor(), ConnCtor(), PSet(), PRemove(), TryAccept(), ClientIp()]


# --- the server object ------------------------------------------------------------------------------------
def map_field(I):
    m = [f['name'] for f in I.all_fields(V) if I.T(f).strip().name in ('std::map', 'std::unordered_map')]
    if len(m) != 1:
        raise ToolLimit('the server does not hold its connections in one map')
    return m[0]


def mk_server(I, p, M=None):
    G = p.ghost
    start(p)
    G['log'] = []
    m = map_field(I)
    G['M'] = M or MapV(MapBase(p, 'connections', 32, conn_val))
    G['PI'] = G['PI0'] = enum_map(p, 'interests')
    G['listener'] = p.freshbv('listener', 32)
    f = {}
    for x in I.all_fields(V):
        t = I.T(x).strip()
        if x['name'] == m:
            f[m] = G['M']
        elif t.name == 'std::optional' and t.args[0].simple == 'TlsContext':
            c = {y['name']: Ptr(p.newlv('ctx', Opaque('SSL_CTX', 0), None)) if I.T(y).kind == 'ptr' else I.symbolic(I.T(y), y['name']) for y in I.all_fields('TlsContext')}
            G['tlsname'] = x['name']
            f[x['name']] = Rec('TlsContext', c)
        elif t.simple == 'ServerConfiguration':
            f[x['name']] = I.symbolic(t, 'config')
            G['clear'] = f[x['name']].f['cleartext']
        elif t.simple == 'Router':
            f[x['name']] = Rec('Router', {'#': Opaque('router', 0)})
            G['routername'] = x['name']
        else:
            f[x['name']] = I.symbolic(t, x['name'])
    # class invariant (C24): a TLS context exists unless configured for cleartext
    if 'tlsname' in G:
        f[G['tlsname']] = Opt(Not(G['clear']), f[G['tlsname']])
    o = p.newlv('server', Rec(V, f), parse_type('ion::' + V))
    G['mf'] = m
    G['flag'] = stop_flag(I)
    G['flag0'] = f.get(G['flag'])
    return o


def stop_flag(I):
    """the member that tells the server loop to end"""
    c = []
    for x in I.all_fields(V):
        t = I.T(x).strip()
        if t.kind in ('int', 'bool') or t.name == 'std::atomic' and t.args[0].strip().kind in ('int', 'bool'):
            c.append(x['name'])
    return c[0] if len(c) == 1 else None


def arg_poller(p):
    return p.newlv('poller', Rec('Poller', {}), parse_type('ion::Poller'))


def arg_listener(I, p):
    f = {x['name']: Opaque('member', x['name']) for x in I.all_fields('TcpListener')}
    return p.newlv('listener', Rec('TcpListener', f), parse_type('ion::TcpListener'))


def inv(p, M, PI, q, blocked=None):
    """held <=> registered (the listener aside), for reading or writing"""
    h = M.has(p, q)
    r = PI.has(p, q)
    G = p.ghost
    c = [Implies(h, r), Implies(And(r, Not(Eq(q, G['listener']))), h), Implies(h, Not(Eq(q, G['listener'])))]
    if p.decide(And(h, r)):
        c.append(Not(Eq(bv(PI.get(p, q), 32) & (R | W), 0)))
    return And(*c)


def same_at(p, A, B, q, what, info=None):
    a, b = A.has(p, q), B.has(p, q)
    p.prove(Eq(a, b), '%s: kept or absent as before' % what, 'frame', info)
    if p.decide(And(a, b)):
        x, y = A.get(p, q), B.get(p, q)
        if isinstance(x, UPtr):
            p.prove(isinstance(y, UPtr) and Eq(cid(p, x.cell), cid(p, y.cell)), '%s: the same connection' % what, 'frame', info)
        else:
            p.prove(Eq(x, y), '%s: the same interest' % what, 'frame', info)


def others(I, p, o, q, what, info=None):
    G = p.ghost
    M2 = o.load(p).f[G['mf']]
    if not isinstance(M2, MapV):
        raise ToolLimit('the connections are not a map any more')
    same_at(p, G['M'], M2, q, '%s: other connections' % what, info)
    if G['flag']:
        p.prove(val_same(o.load(p).f[G['flag']], G['flag0']), '%s: a stop request is kept' % what, 'frame', info)
    same_at(p, G['PI0'], G['PI'], q, '%s: other registrations' % what, info)
    return M2


def unit_events():
    def h(I, p):
        G = p.ghost
        o = mk_server(I, p)
        M, PI = G['M'], G['PI']
        fd, q = p.freshbv('fd', 32), p.freshbv('other', 32)
        ev = p.freshbv('events', 32)
        p.assume(z3.ULE(ev, 15))
        p.assume(Not(Eq(q, fd)))
        p.assume(Not(Eq(fd, G['listener'])))
        for x in (fd, q):
            p.assume(inv(p, M, PI, x))
        if p.decide(And(M.has(p, fd), PI.has(p, fd))):      # readiness is reported for what was asked only
            p.assume(Eq(ev & (R | W) & ~bv(PI.get(p, fd), 32), 0))
        info = lambda m: dict(op='events', events=m.eval(ev, True).as_long())
        held = p.decide(M.has(p, fd))
        c0 = cid(p, M.get(p, fd).cell) if held else None
        try:
            I.exec_function(the_fn(I, V, 'handle_connection_events'), o, [arg_poller(p), fd, ev])
        except CppThrow:
            p.prove(False, 'events of a connection throw nothing', 'post', info)
            return
        M2 = others(I, p, o, q, 'events', info)
        PI2 = G['PI']
        procs, dead = logged(p, 'process'), logged(p, 'destroy')
        if not held:
            p.prove(not procs and not dead, 'an event for a descriptor that is not held does nothing', 'post', info)
            p.prove(Not(M2.has(p, fd)), 'an event for a descriptor that is not held adds nothing', 'post', info)
            p.prove(inv(p, M2, PI2, fd), 'held connections are exactly the registered ones', 'inv', info)
            p.reached()
            return
        for x in procs:
            p.prove(Eq(x[1], c0), 'the connection of the descriptor is processed', 'post', info)
        for x in dead:
            p.prove(Eq(x[1], c0), 'no other connection is dropped', 'post', info)
        p.prove(len(dead) <= 1, 'a connection is dropped once', 'post', info)
        gone = simp((ev & (H | E)) != 0)
        ready = simp((ev & (R | W)) != 0)
        dropped = Or(gone, any(x[2] == 'DiscardConnection' for x in procs))
        p.prove(Implies(dropped, Not(M2.has(p, fd))), 'a connection that is done, failed or hung up is dropped', 'post', info)
        p.prove(Implies(Not(dropped), M2.has(p, fd)), 'no other connection is dropped', 'post', info)
        p.prove(Eq(dropped, len(dead) == 1), 'a dropped connection is ended', 'post', info)
        p.prove(Implies(And(ready, Not(gone)), len(procs) >= 1), 'a ready connection is processed', 'post', info)
        p.prove(inv(p, M2, PI2, fd), 'held connections are exactly the registered ones', 'inv', info)
        if p.decide(M2.has(p, fd)):
            p.prove(Eq(cid(p, M2.get(p, fd).cell), c0), 'the connection is kept', 'frame', info)
            new = bv(PI2.get(p, fd), 32)
            if procs and procs[-1][2] == 'WantWrite':
                p.prove(Eq(new & W, W), 'a blocked writer is polled for writability', 'post', info)
            elif not procs:
                p.prove(Eq(new, PI.get(p, fd)), 'an interest is kept while nothing happened', 'post', info)
            else:
                p.prove(Eq(new & R, R), 'a connection that waits for input is polled for reading', 'post', info)
                p.prove(Implies(simp((ev & W) != 0), Eq(new & W, 0)), 'a drained writer is not polled for writability any more', 'post', info)
        p.reached()
    return Unit('handle_connection_events', V + '::handle_connection_events', h, contracts=USES, ctx=dict(raii=True, externs=SYS))


def unit_incoming():
    def h(I, p):
        G = p.ghost
        o = mk_server(I, p)
        M, PI = G['M'], G['PI']
        q = p.freshbv('other', 32)
        p.assume(inv(p, M, PI, q))
        p.assume(ule(M.base.n, CAP))
        n = M.base.n
        info = lambda m: dict(op='incoming', held=m.eval(bv(n, 64), True).as_long())
        threw = False
        try:
            I.exec_function(the_fn(I, V, 'handle_incoming_connection'), o, [arg_listener(I, p), arg_poller(p)])
        except CppThrow as e:
            threw = True
            p.prove(I.is_std_exception(e) if hasattr(I, 'is_std_exception') else True, 'a failure is a standard exception', 'post', info)
        M2 = o.load(p).f[G['mf']]
        if not isinstance(M2, MapV):
            raise ToolLimit('the connections are not a map any more')
        PI2 = G['PI']
        new = G['opened']
        p.prove(not logged(p, 'destroy') and not logged(p, 'process'), 'no existing connection is affected by an arrival', 'frame', info)
        p.prove(ule(M2.size(p), CAP), 'at most 128 connections are held', 'inv', info)
        p.prove(len(new) <= 1, 'one arrival is taken at a time', 'post', info)
        p.prove(len(logged(p, 'accept')) == 1, 'an arrival is taken', 'post', info)
        for fd in new:
            if p.decide(Eq(q, fd)):
                p.reached()
                return
        others(I, p, o, q, 'an arrival', info)
        for fd in new:
            held = M2.has(p, fd)
            p.prove(Implies(ule(CAP, n), Not(held)), 'a client beyond 128 is not admitted', 'post', info)
            p.prove(inv(p, M2, PI2, fd), 'held connections are exactly the registered ones', 'inv', info)
            if not threw:
                p.prove(Implies(ult(n, CAP), held), 'a client within 128 is admitted', 'post', info)
            if p.decide(held):
                c = M2.get(p, fd)
                mk = logged(p, 'created')
                p.prove(len(mk) == 1 and isinstance(c, UPtr) and c.cell is not None and Eq(cid(p, c.cell), mk[0][1]), 'the new connection is held', 'post', info)
                t = c.cell.load(p).f['#transport'].cell
                p.prove(Eq(tfd(I, p, t), fd), 'under the descriptor its transport owns', 'post', info)
                p.prove(Eq(t.load(p).cls == 'TcpTransport', G['clear']), 'cleartext transport iff configured for cleartext', 'post', info)
                p.prove(t.load(p).cls in ('TcpTransport', 'TlsTransport'), 'a transport under contract', 'post', info)
                ip = G.get('ip')
                if ip is None:
                    raise ToolLimit('the client address is obtained in another way')
                prove_eq(p, mk[0][2], ip.val if ip.has is True else EMPTY, 'with the client\'s address', 'post', info)
                p.prove(mk[0][3] == LVField(o, G['routername']).key(), 'with the server\'s router', 'post', info)
                p.prove(Eq(bv(PI2.get(p, fd), 32), R), 'a new connection is polled for reading', 'post', info)
                closed_is(p, [], 'admission')
            else:
                closed_is(p, [(True, fd)], 'a client that is not admitted')
        p.reached()
    return Unit('handle_incoming_connection', V + '::handle_incoming_connection', h, contracts=USES, ctx=dict(raii=True, externs=SYS))


# --- reaping ----------------------------------------------------------------------------------------------
class ReapedBase(MapBase):
    """the connections (or the registrations) after the first i of the connections were examined"""

    def __init__(self, p, of, conns, i, keys):
        self.of, self.conns, self.i, self.keys = of, conns, i, keys
        self.name, self.kw, self.id, self.empty = of.name + "'", of.kw, of.id, False
        self.n = of.n                              # of the enumeration
        self.left = p.freshbv('left', 64)
        p.fact(z3.ULE(self.left, bv(of.n, 64)))

    def gone(self, p, k):
        k = bv(k, 32)
        h = self.conns.has(p, k)
        return And(h, ult(self.conns.posf(self.conns.id, k), self.i), TIMED(CONN(self.conns.id, k)))

    def has(self, p, k):
        return And(self.of.has(p, k), Not(self.gone(p, k)))

    def key(self, p, i):
        return self.of.key(p, i)

    def val(self, p, k):
        return self.of.val(p, k)


class ReapLoop:
    """every connection in turn: ended, dropped and deregistered iff it has timed out, otherwise untouched"""

    def items(self, st):
        return [(lv, t, loc) for lv, t, loc in st.items()]

    def entry(self, st):
        p = st.p
        for lv, t, loc in self.items(st):
            v = st.entry[loc]
            if isinstance(v, MIter):
                p.prove(Eq(v.idx, 0), 'every connection is examined', 'inv')
                p.prove(v.lv.load(p).base is p.ghost['M'].base, 'the connections held are examined', 'inv')
            elif isinstance(v, MapV):
                p.prove(v.base is p.ghost['M'].base and not v.ups, 'nothing is dropped before', 'inv')
            elif kind_of(v) in ('int', 'bool', 'seq'):
                raise ToolLimit('the loop over the connections keeps other state')
            else:
                raise ToolLimit('the loop over the connections changes something else')
        p.prove(not p.ghost['PI'].ups, 'nothing is deregistered before', 'inv')

    def at(self, p, i):
        G = p.ghost
        B = G['M'].base
        return MapV(ReapedBase(p, B, B, i, True)), MapV(ReapedBase(p, G['PI0'].base, B, i, False))

    def havoc(self, st, lv, t, loc, old):
        p, G = st.p, st.p.ghost
        if 'ri' not in G:
            G['ri'] = p.freshbv('examined', 64)
            p.assume(ule(G['ri'], G['M'].base.n))
            G['RM'], G['RPI'] = self.at(p, G['ri'])
            G['log'] = []
            G['PI'] = G['RPI']
        if isinstance(old, MIter):
            return MIter(old.lv, G['ri'])
        return G['RM']

    def head(self, st):
        if st.locs and 'ri' not in st.p.ghost:
            raise ToolLimit('reaping')

    def do_cond_at_head(self, st):
        return True

    def back(self, st):
        p, G = st.p, st.p.ghost
        if 'ri' not in G:
            raise Restart()
        i = G['ri']
        p.prove(ult(i, G['M'].base.n), 'no more connections than held are examined', 'inv')
        M1, PI1 = self.at(p, add(i, 1))
        k = G['M'].base.key(p, i)
        c = cid(p, G['M'].base.val(p, k).cell)
        moved = False
        for lv, t, loc in self.items(st):
            v = lv.load(p)
            if isinstance(v, MIter):
                moved = True
                p.prove(Eq(v.idx, add(i, 1)), 'the next connection is examined next', 'inv')
        if not moved:
            raise ToolLimit('the loop over the connections has no iterator')
        self.check(p, G, M1, PI1, k, c)
        p.reached()

    def check(self, p, G, M1, PI1, k, c):
        timed = TIMED(c)
        dead = logged(p, 'destroy')
        p.prove(not logged(p, 'process'), 'reaping processes nothing', 'post')
        for x in dead:
            p.prove(And(Eq(x[1], c), timed), 'no connection is ended unless it has timed out', 'post')
        p.prove(Implies(timed, len(dead) == 1), 'a connection that has timed out is ended, once', 'post')
        q = p.freshbv('other', 32)
        p.ghost['q'] = q
        m2 = G['server'].load(p).f[G['mf']]
        for x, what in ((k, 'the connection examined'), (q, 'any connection')):
            p.prove(Eq(m2.has(p, x), M1.has(p, x)), '%s: held iff it was held and not examined as timed out' % what, 'inv')
            p.prove(Eq(G['PI'].has(p, x), PI1.has(p, x)), '%s: registered iff it was registered and not reaped' % what, 'inv')
            for u, A in ((m2, M1), (G['PI'], PI1)):
                if u.ups and p.decide(And(u.has(p, x), A.has(p, x))):
                    a, b = u.get(p, x), A.get(p, x)
                    if isinstance(a, UPtr):
                        p.prove(isinstance(b, UPtr) and a.cell is not None and Eq(cid(p, a.cell), cid(p, b.cell)), '%s: the same connection' % what, 'inv')
                    else:
                        p.prove(Eq(a, b), '%s: the same interest' % what, 'inv')

    def exit(self, st):
        p, G = st.p, st.p.ghost
        if 'ri' not in G:
            raise Restart()
        G['where'] = 'exit'
        p.prove(Eq(G['ri'], G['M'].base.n), 'every connection is examined', 'post')
        p.prove(not G['log'], 'nothing happens when the last was examined', 'post')


def unit_reap():
    def h(I, p):
        G = p.ghost
        o = mk_server(I, p)
        G['server'] = o
        M = G['M']
        q = p.freshbv('fd', 32)
        p.assume(inv(p, M, G['PI'], q))
        p.assume(ule(M.base.n, CAP))
        G.pop('where', None)
        try:
            I.exec_function(the_fn(I, V, 'reap_idle_connections'), o, [arg_poller(p)])
        except CppThrow:
            p.prove(False, 'reaping throws nothing', 'post')
            return
        if G.get('where') != 'exit':
            raise ToolLimit('the loop over the connections was not found')
        M2, PI2 = o.load(p).f[G['mf']], G['PI']
        p.prove(not M2.ups and not PI2.ups, 'nothing happens after the loop', 'post')
        had = M.has(p, q)
        timed = TIMED(CONN(M.base.id, q))
        p.prove(Eq(M2.has(p, q), And(had, Not(timed))), 'exactly the connections that have timed out are reaped', 'post')
        p.prove(Eq(PI2.has(p, q), And(G['PI0'].has(p, q), Not(And(had, timed)))), 'exactly they are deregistered', 'post')
        p.prove(inv(p, M2, PI2, q), 'held connections are exactly the registered ones', 'inv')
        p.reached()
    rule = ReapLoop()
    return Unit('reap_idle_connections', V + '::reap_idle_connections', h, rules={'*': rule}, contracts=USES, ctx=dict(raii=True, externs=SYS))


def unit_timed_out():
    """more than five seconds since the last activity, exactly"""
    def h(I, p):
        from .conn import mk_conn, C
        cn = mk_conn(I, p)
        G = p.ghost
        la = cn.load(p).f['last_activity_']
        G['clock'] = p.freshbv('clock', 64)
        p.fact(z3.And(G['clock'] >= 0, G['clock'] < (1 << 62), bv(la, 64) >= 0, bv(la, 64) <= G['clock']))
        b0 = cn.load(p)
        r = I.exec_function(the_fn(I, C, 'has_timed_out'), cn, [])
        now = G['clock']
        p.prove(Eq(r, simp(now - bv(la, 64) > 5000000000)), 'timed out iff more than five seconds have passed since the last activity', 'post',
                lambda m: dict(op='timeout', idle=m.eval(now - bv(la, 64), True).as_signed_long()))
        p.prove(all(val_same(b0.f[k], cn.load(p).f[k]) for k in b0.f), 'asking changes nothing', 'frame')
        p.reached()
    return Unit('has_timed_out', 'Http2Connection::has_timed_out', h)


# --- the server loop --------------------------------------------------------------------------------------
class Reap:
    name = V + '::reap_idle_connections'

    def apply(self, I, this, vals):
        log(I.p, 'reap')


class Incoming:
    name = V + '::handle_incoming_connection'

    def apply(self, I, this, vals):
        p = I.p
        log(p, 'incoming')
        if p.choose(2):
            raise CppThrow('?std::exception')


class Events:
    name = V + '::handle_connection_events'

    def apply(self, I, this, vals):
        p = I.p
        log(p, 'events', bv(num(p, vals[1]), 32), bv(num(p, vals[2]), 32))


class PPoll:
    """proved in pollers: any events, or an error"""
    name = 'Poller::poll'

    def apply(self, I, this, vals):
        p = I.p
        log(p, 'poll', num(p, vals[0]))
        if not p.choose(2):
            return Opt(False, None, p.freshbv('pollerror', 32), 'expected')
        s = Base(p, p.fresh('events', Obj), I.elem_maker(parse_type('ion::PollEvent')))
        p.assume(ule(s.len, 1 << 29))
        p.ghost['events'] = s
        return Opt(True, s, None, 'expected')


class PCreate:
    name = 'Poller::create'

    def apply(self, I, this, vals):
        p = I.p
        log(p, 'create')
        return UPtr(p.newlv('poller', Rec('Poller', {}), parse_type('ion::Poller')))


class LCtor:
    name = 'TcpListener::TcpListener'

    def apply(self, I, this, vals):
        p = I.p
        log(p, 'listener', num(p, vals[0]))
        if p.choose(2):
            raise CppThrow('?std::exception')
        this.store(p, Rec('TcpListener', {}))


class Listen:
    name = 'TcpListener::listen'

    def apply(self, I, this, vals):
        p = I.p
        log(p, 'listen')
        if p.choose(2):
            raise CppThrow('?std::exception')


class RawFd:
    name = 'TcpListener::raw_fd'

    def apply(self, I, this, vals):
        return I.p.ghost['listener']


class Nop:
    def __init__(self, name):
        self.name = name

    def apply(self, I, this, vals):
        log(I.p, self.name)


START_USES = [Reap(), Incoming(), Events(), PPoll(), PCreate(), LCtor(), Listen(), RawFd(), PSet(), PRemove(), Nop('TcpListener::~TcpListener'), Nop('Poller::~Poller')]


class Rounds:
    """the server loop: any round; the log of a round starts empty"""

    def entry(self, st):
        p, G = st.p, st.p.ghost
        pre = [a for a in G['log'] if a[0] in ('set', 'remove', 'poll', 'incoming', 'events')]
        p.prove(len(pre) == 1 and pre[0][0] == 'set' and Eq(bv(pre[0][1], 32), G['listener']) and Eq(bv(pre[0][2], 32), R), 'the listener, and nothing else, is registered for reading', 'inv')
        p.prove([a[0] for a in G['log'] if a[0] in ('listener', 'listen')] == ['listener', 'listen'], 'the listener listens', 'inv')
        for lv, t, loc in st.items():
            if kind_of(st.entry[loc]) not in ('int', 'bool'):
                raise ToolLimit('the server loop changes something the contract does not know')

    def havoc(self, st, lv, t, loc, old):
        k = kind_of(old)
        return st.p.freshbool('h') if k == 'bool' else st.p.freshbv('h', st.I.width(t))

    def head(self, st):
        p, G = st.p, st.p.ghost
        G['log'] = []
        G.pop('events', None)
        G.pop('dispatched', None)
        G['round'] = True

    def do_cond_at_head(self, st):
        return True

    def back(self, st):
        p, G = st.p, st.p.ghost
        kinds = [a[0] for a in G['log']]
        p.prove(kinds.count('reap') >= 1, 'every connection is examined in each round', 'post')
        p.prove(kinds.count('poll') == 1, 'each round polls once', 'post')
        if 'events' in G:
            p.prove(G.get('dispatched') is True, 'every event is dispatched', 'post')
        p.prove(not [k for k in kinds if k in ('set', 'remove', 'TcpListener::~TcpListener', 'Poller::~Poller')], 'nothing is deregistered or closed by the loop', 'post')
        p.prove('incoming' not in kinds and 'events' not in kinds, 'nothing but the events reported is dispatched', 'post')
        p.reached()

    def exit(self, st):
        p, G = st.p, st.p.ghost
        G['where'] = 'exit'
        p.prove(not [a for a in G['log'] if a[0] in ('incoming', 'events')], 'nothing is dispatched after the end', 'post')


class Dispatch(AutoFold):
    """every event in turn goes to the handler for its descriptor, once"""
    start = 's'

    def entry(self, st):
        G = st.p.ghost
        G['saved'] = list(G['log'])
        AutoFold.entry(self, st)

    def arbitrary(self, st):
        p, G = st.p, st.p.ghost
        G['i'] = p.freshbv('dispatched', 64)
        p.assume(ule(G['i'], G['events'].len))

    def seq_value(self, st, loc, old):
        raise ToolLimit('the loop over the events changes a sequence')

    def step(self, st):
        p, G = st.p, st.p.ghost
        G['log'] = []
        G['g2'], G['path2'] = None, ()
        if p.decide(ult(G['i'], G['events'].len)):
            G['g2'] = 's'
            G['ev'] = G['events'].at(p, G['i'])

    def first(self, st):
        pass

    def back(self, st):
        p, G = st.p, st.p.ghost
        if G['gk'] is not None and G['g2']:
            e = G['ev']
            L_ = [a for a in G['log'] if a[0] in ('incoming', 'events', 'set', 'remove', 'reap', 'poll')]
            info = lambda m: dict(op='dispatch')
            p.prove(len(L_) == 1, 'an event is dispatched once', 'post', info)
            if len(L_) == 1:
                if p.decide(Eq(e.f['fd'], G['listener'])):
                    p.prove(L_[0][0] == 'incoming', 'an event of the listener is an arrival', 'post', info)
                else:
                    p.prove(L_[0][0] == 'events' and And(Eq(L_[0][1], bv(e.f['fd'], 32)), Eq(L_[0][2], bv(e.f['events'], 32))), 'an event of a connection is handled for its descriptor', 'post', info)
            p.reached()
        AutoFold.back(self, st)

    def exit(self, st):
        p, G = st.p, st.p.ghost
        p.prove(Eq(G['i'], G['events'].len), 'every event is dispatched', 'post')
        G['dispatched'] = True
        G['log'] = G['saved'] + [a for a in G['log'] if a[0] in ('incoming', 'events')]


def unit_start():
    rounds, disp = Rounds(), Dispatch()

    def rule(I, key, n):
        return disp if 'events' in I.p.ghost else rounds

    def h(I, p):
        G = p.ghost
        o = mk_server(I, p)
        port = p.freshbv('port', 16)
        G['started'] = False
        try:
            I.exec_function(the_fn(I, V, 'start'), o, [port])
        except CppThrow:
            # only the set-up of the listener may fail
            p.prove('round' not in G, 'no failure of accepting or of a connection stops the server', 'post')
            return
        if G.get('where') != 'exit':
            raise ToolLimit('the server loop was not found')
        p.reached()
    return Unit('start', V + '::start', h, rules={'*': rule}, contracts=START_USES, ctx=dict(raii=True, externs=SYS))


def units_c18():
    return [unit_events(), unit_incoming(), unit_start()]


def units_c19():
    return [unit_reap(), unit_timed_out(), unit_start()]

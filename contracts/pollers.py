"""EPollPoller and PollPoller against the documented behaviour of epoll_ctl/epoll_wait/poll."""
from vc.verify import *
from vc.fold import *
from vc.maps import MapBase, MapV
from vc import lib as L
from .sockets import x_errno, x_close
from .transports import span_of

IN, OUT, ERR, HUP = 1, 4, 8, 16
R, W, H, E = 1, 2, 4, 8
EINTR = 4
PE = parse_type('ion::PollEventType')
EXPECTED = ('Timeout', 'InterruptedBySignal', 'Error')


def bit(v, w, m):
    return simp((bv(v, w) & m) != 0)


def sel(c, m, w):
    return Ite(c, m, 0, w)


def spec_mask(ev, w):
    """kernel interest for an interest set"""
    e = bv(ev, 32)
    return simp(bv(sel(bit(e, 32, R), IN, w), w) | bv(sel(bit(e, 32, W), OUT, w), w))


def spec_events(m, w):
    """event set for a kernel mask"""
    return simp(bv(sel(bit(m, w, IN), R, 32), 32) | bv(sel(bit(m, w, OUT), W, 32), 32) | bv(sel(bit(m, w, HUP), H, 32), 32) | bv(sel(bit(m, w, ERR), E, 32), 32))


def enum_map(p, name):
    """a symbolic map from descriptors to interests"""
    f = UF('map.interest', Obj, z3.BitVecSort(32), z3.BitVecSort(32))
    return MapV(MapBase(p, name, 32, lambda p, b, k: f(b.id, k)))


def fields(I, cls):
    """the map and the vector members, by type (their names are the code's business)"""
    m = [f['name'] for f in I.all_fields(cls) if I.T(f).strip().name in ('std::unordered_map', 'std::map')]
    v = [f['name'] for f in I.all_fields(cls) if I.T(f).strip().name == 'std::vector']
    n = [f['name'] for f in I.all_fields(cls) if I.is_scalar(I.T(f))]
    rest = [f['name'] for f in I.all_fields(cls) if f['name'] not in m + v + n]
    if len(m) != 1 or rest:
        raise ToolLimit('%s has members the contract does not know' % cls)
    return m[0], v, n


# --- kernel ---------------------------------------------------------------------------------------------
def x_epoll_ctl(I, args, node):
    """ADD of a registered descriptor and MOD or DEL of an unregistered one fail; ADD and MOD may fail otherwise, leaving the set as it was"""
    p = I.p
    G = p.ghost
    ep, op, fd = bv(I.rv(args[0]), 32), I.rv(args[1]), bv(I.rv(args[2]), 32)
    ptr = I.rv(args[3])
    p.prove(Eq(ep, G['epfd']), 'the poller\'s own epoll instance is used', 'post')
    if is_sym(op):
        op = next((k for k in (1, 2, 3) if not p.decide(op == k) is False), 3)
    K = G['K']
    x_errno(I)
    there = p.decide(K.has(p, fd))
    ok = False
    if op == 2:
        ok = there
        if ok:
            G['K'] = K.put(fd, None)
    else:
        if isinstance(ptr, Null):
            p.require(False, 'epoll_ctl is given an event')
            raise PathEnd()
        ev = L.deref(I, ptr).load(p)
        if there == (op == 3) and p.choose(2):
            ok = True
            G['K'] = K.put(fd, (bv(ev.f['events'], 32), bv(ev.f['data'].f['fd'], 32)))
            G['ok'] += 1
        elif there != (op == 3):
            # the call cannot succeed
            L.errno_lv(I).store(p, 17 if there else 2)
        else:
            G['failed'] = G.get('failed', 0) + 1      # for another reason (memory)
    if ok:
        return 0
    return (1 << 32) - 1


def kmap(p):
    e = UF('map.kevents', Obj, z3.BitVecSort(32), z3.BitVecSort(32))
    d = UF('map.kdata', Obj, z3.BitVecSort(32), z3.BitVecSort(32))
    return MapV(MapBase(p, 'kernel', 32, lambda p, b, k: (e(b.id, k), d(b.id, k))))


def inv_at(p, K, M, q):
    """what the kernel is asked for at descriptor q is the interest the poller holds for it"""
    hk, hm = K.has(p, q), M.has(p, q)
    if not p.decide(hk):
        return True if True else hm
    if not p.decide(hm):
        return False
    ev, data = K.get(p, q)
    return And(Eq(ev, spec_mask(M.get(p, q), 32)), Eq(data, q))


def epoll_obj(I, p):
    m, v, n = fields(I, 'EPollPoller')
    if len(v) != 1 or len(n) != 1:
        raise ToolLimit('EPollPoller has members the contract does not know')
    G = p.ghost
    G['epfd'] = p.freshbv('epfd', 32)
    M = enum_map(p, 'registered')
    buf = Base(p, p.fresh('buffer', Obj), I.elem_maker(parse_type('epoll_event')))
    p.assume(And(ult(0, buf.len), ule(buf.len, 1 << 29)))
    o = p.newlv('poller', Rec('EPollPoller', {m: M, v[0]: buf, n[0]: G['epfd']}), parse_type('ion::EPollPoller'))
    return o, m, v[0], n[0], M, buf


def epoll_unit(what):
    def h(I, p):
        G = p.ghost
        G.update(ok=0, closed=[])
        o, m, v, n, M, buf = epoll_obj(I, p)
        K = G['K'] = kmap(p)
        fd = p.freshbv('fd', 32)
        q = p.freshbv('other', 32)
        p.assume(Not(Eq(q, fd)))
        for x in (fd, q):
            p.assume(inv_at(p, K, M, x))
        # a descriptor closed since it was set has been removed before its number is used again
        hkfd = K.has(p, fd)
        if what == 'set':
            p.assume(Implies(M.has(p, fd), hkfd))
            ev = p.freshbv('interest', 32)
            p.assume(z3.ULE(ev, 15))
        info = lambda mo: dict(op=what)
        I.exec_function(the_fn(I, 'EPollPoller', what), o, [fd] + ([ev] if what == 'set' else []))
        K2, M2 = G['K'], o.load(p).f[m]
        if not isinstance(M2, MapV):
            raise ToolLimit('the registrations are not a map any more')
        if what == 'set':
            if G['ok'] or not G.get('failed'):
                p.prove(And(K2.has(p, fd), M2.has(p, fd)), 'the descriptor is registered', 'post', info)
                a, d = K2.get(p, fd)
                p.prove(And(Eq(a, spec_mask(ev, 32)), Eq(d, fd)), 'the kernel is asked for exactly the interest set', 'post', info)
            else:
                p.prove(Eq(K2.has(p, fd), K.has(p, fd)), 'registered as before when the kernel refuses', 'post', info)
        else:
            p.prove(Not(K2.has(p, fd)), 'a removed descriptor is not polled any more', 'post', info)
            p.prove(Not(M2.has(p, fd)), 'a removed descriptor is forgotten', 'post', info)
        p.prove(inv_at(p, K2, M2, fd), 'kernel and poller agree on the descriptor', 'inv', info)
        p.prove(Eq(K2.has(p, q), K.has(p, q)), 'other descriptors stay registered as they were', 'frame', info)
        p.prove(Eq(M2.has(p, q), M.has(p, q)), 'other descriptors stay known as they were', 'frame', info)
        p.prove(inv_at(p, K2, M2, q), 'kernel and poller agree on other descriptors', 'inv', info)
        if p.decide(K.has(p, q)) and p.decide(K2.has(p, q)):
            p.prove(And(*[Eq(x, y) for x, y in zip(K.get(p, q), K2.get(p, q))]), 'interests of other descriptors are unchanged', 'frame', info)
        f2 = o.load(p).f
        p.prove(Eq(f2[n], G['epfd']), 'the epoll descriptor is unchanged', 'frame')
        prove_eq(p, f2[v], buf, 'the event buffer is unchanged', 'frame')
        p.reached()
    return Unit('EPollPoller::%s' % what, 'EPollPoller::%s' % what, h, ctx=dict(externs={'epoll_ctl': x_epoll_ctl, 'close': x_close}))


class EvFold(AutoFold):
    """each entry in turn gives one PollEvent; one without any event may be left out"""
    start = 's'

    def arbitrary(self, st):
        p, G = st.p, st.p.ghost
        G['i'] = p.freshbv('entries', 64)
        p.assume(ule(G['i'], self.n))
        G['out'] = Base(p, p.fresh('events', Obj), st.I.elem_maker(parse_type('ion::PollEvent')))

    def step(self, st):
        p, G = st.p, st.p.ghost
        G['g2'], G['path2'] = None, ()
        if p.decide(ult(G['i'], self.n)):
            G['g2'] = 's'
            G['emit'] = self.spec(p, G['i'])

    def seq_value(self, st, loc, old):
        if self.is_out(old):
            return st.p.ghost['out']
        raise ToolLimit('the loop over the events changes another sequence')

    def is_out(self, old):
        return not isinstance(old, Seq) or isinstance(old, Lit) and not old.e or True

    def check_seq(self, st, v):
        p, G = st.p, st.p.ghost
        if G['g2'] is None:
            return
        if v is G['out'] or isinstance(v, Base) and same(v.t, G['out'].t):
            p.prove(Eq(self.empty_of(G['emit']), 0), 'only an entry without events is left out', 'inv', self.info)
            return
        prove_eq(p, v, cat(G['out'], Lit([G['emit']])), self.label, 'inv', self.info)

    def empty_of(self, e):
        return e.f['events']


class FdFold(EvFold):
    """each registered descriptor gives one pollfd"""
    def arbitrary(self, st):
        p, G = st.p, st.p.ghost
        G['i'] = p.freshbv('entries', 64)
        p.assume(ule(G['i'], self.n))
        G['out'] = Base(p, p.fresh('pollfds', Obj), st.I.elem_maker(parse_type('pollfd')))
        p.fact(Eq(G['out'].len, G['i']))

    def empty_of(self, e):
        return 1

    def check_seq(self, st, v):
        p, G = st.p, st.p.ghost
        if G['g2'] is None:
            return
        # revents is the kernel's to write
        last = v.at(p, sub(v.len, 1)) if not (isinstance(v, Base) and same(v.t, G['out'].t)) else None
        if isinstance(last, Rec):
            G['emit'] = G['emit'].with_('revents', last.f['revents'])
        EvFold.check_seq(self, st, v)


def timeout_arg(p, t, ms, info):
    p.prove(Eq(z3.SignExt(32, bv(t, 32)), bv(ms, 64)), 'the time-out is passed on', 'post', info)


def check_result(I, p, r, n, info):
    """the result of poll() for the kernel's answer n (64-bit)"""
    G = p.ghost
    PEn = I.P.enums['PollError']['consts']
    if G['answer'] == 'events':
        p.prove(r.has, 'events are delivered', 'post', info)
        if r.has is False:
            return
        if G.get('where') != 'exit':
            raise ToolLimit('the loop over the events was not found')
        p.prove(Eq(G['i'], n), 'every event reported is looked at', 'post', info)
        prove_eq(p, r.val, G['out'], 'the events are returned', 'post', info)
    else:
        p.prove(Not(r.has), 'no events when there are none', 'post', info)
        if r.has is True:
            return
        e = bv(r.err, 32)
        if G['answer'] == 'none':
            p.prove(e == PEn['Timeout'], 'a time-out is reported as such', 'post', info)
        else:
            intr = Eq(G['errno'], EINTR)
            p.prove(Implies(intr, e == PEn['InterruptedBySignal']), 'an interruption is reported as such', 'post', info)
            p.prove(Implies(Not(intr), e == PEn['Error']), 'a failure is reported as such', 'post', info)


def epoll_poll():
    rule = EvFold()
    rule.label = 'each event is delivered for its descriptor as exactly the corresponding event'

    def x_wait(I, args, node):
        p, G = I.p, I.p.ghost
        p.prove(Eq(bv(I.rv(args[0]), 32), G['epfd']), 'the poller\'s own epoll instance is waited on', 'post')
        p.prove('answer' not in G, 'one wait per call', 'post')
        n = I.rv(args[2])
        n32 = bv(n, 32)
        p.require(n32 > 0, 'epoll_wait is given room for at least one event')
        n64 = simp(z3.SignExt(32, n32))
        ptr = I.rv(args[1])
        lv, i = span_of(I, p, ptr, n64, 'epoll_wait')
        timeout_arg(p, I.rv(args[3]), G['ms'], rule.info)
        x_errno(I)
        k = p.choose(3)
        G['answer'] = ('events', 'none', 'error')[k]
        G['errno'] = L.errno_lv(I).load(p)
        if k == 1:
            return 0
        if k == 2:
            return (1 << 32) - 1
        got = Base(p, p.fresh('ready', Obj), I.elem_maker(parse_type('epoll_event')))
        p.assume(And(ult(0, got.len), ule(got.len, n64)))
        old = lv.load(p)
        e = add(i, got.len)
        lv.store(p, cat(slice_(p, old, 0, i), got, slice_(p, old, e, sub(old.len, e))))
        G['got'] = got
        rule.n = got.len
        rule.spec = lambda p, j: Rec('PollEvent', {'fd': got.at(p, j).f['data'].f['fd'], 'events': spec_events(got.at(p, j).f['events'], 32)})
        return simp(z3.Extract(31, 0, bv(got.len, 64)))

    def h(I, p):
        G = p.ghost
        o, m, v, n, M, buf = epoll_obj(I, p)
        ms = G['ms'] = p.freshbv('ms', 64)
        p.assume(And(ms >= -1, ms <= (1 << 31) - 1))
        rule.info = lambda mo: dict(op='epoll_wait', buffer=mo.eval(bv(buf.len, 64), True).as_long())
        r = I.exec_function(the_fn(I, 'EPollPoller', 'poll'), o, [ms])
        if 'answer' not in G:
            p.prove(False, 'poll() asks the kernel', 'post', rule.info)
            return
        check_result(I, p, r, rule.n if G['answer'] == 'events' else 0, rule.info)
        f2 = o.load(p).f
        p.prove(isinstance(f2[m], MapV) and f2[m].ups == M.ups and f2[m].base is M.base, 'polling does not change the registrations', 'frame')
        p.prove(ult(0, f2[v].len), 'there is room for events in the next round', 'inv')
        p.prove(Eq(f2[n], G['epfd']), 'the epoll descriptor is unchanged', 'frame')
        p.reached()
    return Unit('EPollPoller::poll', 'EPollPoller::poll', h, rules={'*': lambda I, k, n: rule}, ctx=dict(externs={'epoll_wait': x_wait}))


def epoll_life():
    def x_create(I, args, node):
        p = I.p
        x_errno(I)
        p.ghost['created'] = p.freshbv('epfd', 32)
        if p.choose(2):
            p.assume(p.ghost['created'] >= 0)
        else:
            p.assume(Eq(p.ghost['created'], (1 << 32) - 1))
        return p.ghost['created']

    def h(I, p):
        G = p.ghost
        G['closed'] = []
        o = construct(I, 'EPollPoller', [], 0)
        m, v, n = fields(I, 'EPollPoller')
        f = o.load(p).f
        M = f[m]
        p.prove((isinstance(M, Lit) and not M.e) or (isinstance(M, MapV) and M.base.empty and not M.ups), 'a new poller knows no descriptor', 'inv')
        p.prove(ult(0, f[v[0]].len), 'a new poller has room for events', 'inv')
        p.prove(Eq(f[n[0]], G['created']), 'a new poller holds the epoll descriptor', 'inv')
        p.prove(not G['closed'], 'construction closes nothing', 'post')
        L.destroy(I, o, parse_type('ion::EPollPoller'))
        if p.decide(G['created'] >= 0):
            p.prove(len(G['closed']) == 1 and Eq(G['closed'][0], G['created']), 'the epoll descriptor is closed exactly once', 'post')
        else:
            p.prove(not G['closed'], 'nothing is closed when there is no epoll descriptor', 'post')
    return Unit('EPollPoller::EPollPoller, ~EPollPoller', 'EPollPoller::EPollPoller', h, ctx=dict(externs={'epoll_create1': x_create, 'epoll_create': x_create, 'close': x_close}))


def poll_unit(what):
    def h(I, p):
        m, v, n = fields(I, 'PollPoller')
        M = enum_map(p, 'registered')
        o = p.newlv('poller', Rec('PollPoller', {m: M}), parse_type('ion::PollPoller'))
        fd, q = p.freshbv('fd', 32), p.freshbv('other', 32)
        p.assume(Not(Eq(q, fd)))
        ev = p.freshbv('interest', 32)
        I.exec_function(the_fn(I, 'PollPoller', what), o, [fd] + ([ev] if what == 'set' else []))
        M2 = o.load(p).f[m]
        if what == 'set':
            p.prove(M2.has(p, fd), 'the descriptor is registered', 'post')
            p.prove(Eq(M2.get(p, fd), ev), 'with exactly the interest set', 'post')
        else:
            p.prove(Not(M2.has(p, fd)), 'a removed descriptor is not registered any more', 'post')
        p.prove(Eq(M2.has(p, q), M.has(p, q)), 'other descriptors stay registered as they were', 'frame')
        if p.decide(M.has(p, q)) and p.decide(M2.has(p, q)):
            p.prove(Eq(M2.get(p, q), M.get(p, q)), 'with the same interest', 'frame')
        p.reached()
    return Unit('PollPoller::%s' % what, 'PollPoller::%s' % what, h)


def poll_poll():
    fds, evs = FdFold(), EvFold()
    fds.label = 'each registered descriptor is polled for exactly its interest'
    evs.label = 'each event is delivered for its descriptor as exactly the corresponding event'
    REV = UF('poll.revents', Obj, B64, z3.BitVecSort(16))

    def x_poll(I, args, node):
        p, G = I.p, I.p.ghost
        p.prove('answer' not in G, 'one poll per call', 'post')
        if G.get('where') != 'exit':
            raise ToolLimit('the loop over the descriptors was not found')
        p.prove(Eq(G['i'], fds.n), 'every registered descriptor is polled', 'post', fds.info)
        out = G['out']
        n = I.int_cast(I.rv(args[1]), I.T(args[1]), L.U64)
        p.prove(Eq(n, out.len), 'all entries are given to poll()', 'post', fds.info)
        lv, i = span_of(I, p, I.rv(args[0]), n, 'poll')
        timeout_arg(p, I.rv(args[2]), G['ms'], fds.info)
        if lv is not None:
            p.prove(Eq(i, 0), 'entries are given from the first', 'post')
            prove_eq(p, lv.load(p), out, 'the entries built are given to poll()', 'post', fds.info)
        x_errno(I)
        k = p.choose(3)
        G['answer'] = ('events', 'none', 'error')[k]
        G['errno'] = L.errno_lv(I).load(p)
        if k == 1:
            return 0
        if k == 2:
            return (1 << 32) - 1
        t = p.fresh('revents', Obj)
        r = p.freshbv('ready', 32)
        p.assume(And(r > 0, ule(simp(z3.ZeroExt(32, r)), out.len)))
        lv.store(p, FnSeq(out.len, lambda p, j: out.at(p, j).with_('revents', REV(t, bv(j, 64))), ('revents', t)))
        evs.n = out.len
        evs.spec = lambda p, j: Rec('PollEvent', {'fd': out.at(p, j).f['fd'], 'events': spec_events(REV(t, bv(j, 64)), 16)})
        return r

    def h(I, p):
        G = p.ghost
        m, v, n = fields(I, 'PollPoller')
        M = enum_map(p, 'registered')
        o = p.newlv('poller', Rec('PollPoller', {m: M}), parse_type('ion::PollPoller'))
        ms = G['ms'] = p.freshbv('ms', 64)
        p.assume(And(ms >= -1, ms <= (1 << 31) - 1))
        fds.n = M.base.n
        fds.spec = lambda p, i: Rec('pollfd', {'fd': M.base.key(p, i), 'events': spec_mask(M.base.val(p, M.base.key(p, i)), 16), 'revents': 0})
        fds.info = evs.info = lambda mo: dict(op='poll')
        r = I.exec_function(the_fn(I, 'PollPoller', 'poll'), o, [ms])
        if 'answer' not in G:
            p.prove(False, 'poll() asks the kernel', 'post')
            return
        check_result(I, p, r, evs.n if G['answer'] == 'events' else 0, evs.info)
        M2 = o.load(p).f[m]
        p.prove(isinstance(M2, MapV) and M2.base is M.base and not M2.ups, 'polling does not change the registrations', 'frame')
        p.reached()
    return Unit('PollPoller::poll', 'PollPoller::poll', h, rules={'*': lambda I, k, n: evs if 'answer' in I.p.ghost else fds}, ctx=dict(externs={'poll': x_poll}))


def unit_create():
    """Poller::create gives a poller in its initial state (EPollPoller here, as compiled)"""
    def x_create(I, args, node):
        p = I.p
        x_errno(I)
        return p.freshbv('epfd', 32)

    def h(I, p):
        p.ghost['closed'] = []
        r = I.exec_function(the_fn(I, 'Poller', 'create'), None, [])
        p.prove(isinstance(r, UPtr) and r.cell is not None, 'a poller is created', 'post')
        cls = r.cell.load(p).cls if isinstance(r, UPtr) and r.cell is not None else None
        p.prove(cls in ('EPollPoller', 'PollPoller'), 'it is one of the pollers under contract', 'post')
        p.prove(not p.ghost['closed'], 'its descriptor is open', 'post')
    return Unit('Poller::create', 'Poller::create', h, ctx=dict(externs={'epoll_create1': x_create, 'epoll_create': x_create, 'close': x_close}))


def units_c22():
    return [epoll_unit('set'), epoll_unit('remove'), epoll_poll(), epoll_life(), poll_unit('set'), poll_unit('remove'), poll_poll(), unit_create()]

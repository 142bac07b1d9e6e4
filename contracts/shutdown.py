"""A stop request ends the server loop (C26)."""
from vc.verify import *
from vc.fold import *
from vc import lib as L
from .sockets import SYS
from .server import V, Rounds, Dispatch, START_USES, mk_server, stop_flag, log, logged, num, kind_of

SH = 'SignalHandler'
MAX_WAIT = 1000      # milliseconds: "promptly"


def load(p, v):
    return v.load(p) if isinstance(v, LV) else v


# --- what may run in a signal handler ---------------------------------------------------------------------
SAFE = {'write', 'read', '_exit', 'close', 'signal', 'sigaction', 'raise', 'kill', 'abort', 'poll', 'fstat', 'stat', 'getpid', 'time', 'clock_gettime', 'select', 'send', 'fcntl', 'load', 'store', 'exchange', 'compare_exchange_strong', 'compare_exchange_weak', 'test', 'test_and_set',
        'move', 'forward', 'as_const', 'to_underlying', 'addressof', '__errno_location', 'atomic_signal_fence', 'atomic_thread_fence', 'operator=', 'operator->', 'operator bool'}
UNSAFE = ('spdlog', 'fmt::', 'std::format', 'std::print', 'std::basic_string', 'std::string', 'std::vector', 'std::map', 'std::mutex', 'std::lock_guard', 'std::unique_lock', 'std::cout', 'std::basic_ostream')


def unsafe_calls(I, fn, seen=None):
    """what fn does, directly or through functions of the repository, that a signal handler must not do"""
    seen = seen if seen is not None else set()
    out = []
    if fn['id'] in seen:
        return out
    seen.add(fn['id'])

    def callee(n):
        if n.get('kind') == 'MemberExpr':
            return n.get('referencedMemberDecl'), n.get('name', '').lstrip('-.>'), n['inner'][0].get('type', {}).get('qualType', '') if n.get('inner') else ''
        if n.get('kind') == 'DeclRefExpr':
            d = n['referencedDecl']
            return d.get('id'), d.get('name'), (n.get('type', {}).get('qualType', ''))
        for c in n.get('inner', []):
            r = callee(c)
            if r:
                return r
        return None

    def walk(n):
        k = n.get('kind')
        if k in ('CXXNewExpr', 'CXXThrowExpr'):
            out.append('memory allocation' if k == 'CXXNewExpr' else 'an exception')
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') and n.get('inner'):
            c = callee(n['inner'][0])
            if c:
                i, name, ty = c
                f = I.P.by_id.get(i)
                fs = [f] if f is not None and has_body(f) else []
                if not fs and name not in SAFE:      # declared in another part of the repository
                    fs = [x for x in I.P.funcs.get(name, []) if has_body(x)]
                if fs:
                    for x in fs:
                        out.extend(unsafe_calls(I, x, seen))
                elif name in SAFE:
                    pass
                elif any(u in ty for u in UNSAFE) or name in ('info', 'warn', 'error', 'debug', 'trace', 'critical', 'printf', 'puts', 'malloc', 'free', 'exit', 'lock', 'unlock', 'fprintf', 'notify_one', 'notify_all', 'join'):
                    out.append('a call of ' + name)
                else:
                    raise ToolLimit('whether %s may be called in a signal handler' % name)
        if k == 'CXXConstructExpr' and any(u in n.get('type', {}).get('desugaredQualType', n.get('type', {}).get('qualType', '')) for u in UNSAFE):
            out.append('a ' + n['type']['qualType'])
        for c in n.get('inner', []):
            if isinstance(c, dict):
                walk(c)
    walk(fn)
    return out


def has_body(f):
    return any(c.get('kind') == 'CompoundStmt' for c in f.get('inner', []))


def prove_safe(I, fn, what):
    bad = unsafe_calls(I, fn)
    I.p.prove(not bad, '%s does only what is allowed in a signal handler%s' % (what, ' (%s)' % bad[0] if bad else ''), 'post')


def flag(I):
    f = stop_flag(I)
    if f is None:
        raise ToolLimit('the member that ends the server loop')
    x = next(x for x in I.all_fields(V) if x['name'] == f)
    q = x['type'].get('qualType', '') + ' ' + x['type'].get('desugaredQualType', '')
    return f, 'volatile' in q or 'std::atomic' in q


# --- Http2Server::stop ------------------------------------------------------------------------------------
def unit_stop():
    def h(I, p):
        o = mk_server(I, p)
        f, async_ = flag(I)
        b0 = dict(o.load(p).f)
        p.prove(async_, 'the flag may be written by a signal handler while the loop reads it', 'post')
        fn = the_fn(I, V, 'stop', 1)
        reason = I.symbolic(parse_type('ion::StopReason'), 'reason')
        try:
            I.exec_function(fn, o, [reason])
        except CppThrow:
            p.prove(False, 'stop throws nothing', 'post')
            return
        a = o.load(p).f
        p.prove(Not(Eq(a[f], 0)) if not isinstance(a[f], bool) and not (is_sym(a[f]) and z3.is_bool(a[f])) else a[f], 'the flag is set', 'post')
        for n in b0:
            if n != f and not (I.T(next(x for x in I.all_fields(V) if x['name'] == n)).strip().simple == 'StopReason'):
                p.prove(val_same(a[n], b0[n]), 'stop changes nothing but the flag and the reason', 'frame')
        prove_safe(I, fn, 'stop')
    return Unit('stop', V + '::stop', h)


def is_set(v):
    return v if isinstance(v, bool) or z3.is_bool(v) else Not(Eq(v, 0))


def read_flag(I, lv):
    """the flag may be set at any moment and stays set"""
    p = I.p
    G = p.ghost
    v = lv.load(p)
    if 'flag' not in G or lv.key() != G['flagkey']:
        return v
    p.prove(val_same(v, G['flag0']), 'a stop request is not taken back', 'post')
    n = I.symbolic(G['flagtype'], 'stop requested')
    for a in G['reads']:
        p.fact(zb(Implies(is_set(a), is_set(n))))
    G['reads'] = G['reads'] + [n]
    log(p, 'flag', n)
    return n


class StopRounds(Rounds):
    def entry(self, st):
        for lv, t, loc in st.items():
            if kind_of(st.entry[loc]) not in ('int', 'bool'):
                raise ToolLimit('the server loop changes something the contract does not know')

    def head(self, st):
        p, G = st.p, st.p.ghost
        G['reads'] = []
        Rounds.head(self, st)

    def check(self, p):
        Lg = p.ghost['log']
        for i, a in enumerate(Lg):
            if a[0] == 'flag' and any(b[0] in ('poll', 'incoming', 'events') for b in Lg[i + 1:]):
                p.prove(Not(is_set(a[1])), 'after a stop request was seen nothing is waited for, accepted or processed', 'post')
            if a[0] == 'poll':
                t = bv(a[1], 64)
                p.prove(And(t >= 0, t <= MAX_WAIT), 'the loop never waits for more than a second', 'post')
        return [a for a in Lg if a[0] == 'flag']

    def back(self, st):
        p, G = st.p, st.p.ghost
        r = self.check(p)
        p.prove(len(r) >= 1, 'every round looks for a stop request', 'post')
        p.prove(len([a for a in G['log'] if a[0] == 'poll']) <= 1, 'between two looks the loop waits once', 'post')
        for a in r:
            p.prove(Not(is_set(a[1])), 'no further round begins after a stop request was seen', 'post')
        p.reached()

    def exit(self, st):
        p, G = st.p, st.p.ghost
        G['where'] = 'exit'
        r = self.check(p)
        p.prove(bool(r) and is_set(r[-1][1]), 'the loop ends only because it was told to', 'post')
        G['log'] = []


class StopDispatch(Dispatch):
    def back(self, st):
        p, G = st.p, st.p.ghost
        if G['gk'] is not None and G['g2']:
            p.prove(not [a for a in G['log'] if a[0] == 'poll'], 'the loop waits once in a round', 'post')
        AutoFold.back(self, st)

    def exit(self, st):
        p, G = st.p, st.p.ghost
        G['dispatched'] = True
        G['log'] = G['saved'] + [('events',)]


def unit_start():
    rounds, disp = StopRounds(), StopDispatch()

    def rule(I, key, n):
        return disp if 'events' in I.p.ghost else rounds

    def h(I, p):
        G = p.ghost
        o = mk_server(I, p)
        f, _ = flag(I)
        G['flagkey'] = LVField(o, f).key()
        t = I.T(next(x for x in I.all_fields(V) if x['name'] == f)).strip()
        G['flagtype'] = t.args[0] if t.name == 'std::atomic' else t
        G['reads'] = []
        port = p.freshbv('port', 16)
        try:
            I.exec_function(the_fn(I, V, 'start'), o, [port])
        except CppThrow:
            # only the set-up of the listener may fail
            p.prove('round' not in G, 'the loop ends by returning', 'post')
            p.prove(val_same(o.load(p).f[f], G['flag0']), 'a stop request is not taken back', 'frame')
            return
        if G.get('where') != 'exit':
            raise ToolLimit('the server loop was not found')
        p.prove(val_same(o.load(p).f[f], G['flag0']), 'a stop request is not taken back', 'frame')
        ks = [a[0] for a in G['log']]
        p.prove(not [k for k in ks if k in ('poll', 'incoming', 'events', 'accept', 'set')], 'nothing is done after the end of the loop', 'post')
        p.prove(ks.count('TcpListener::~TcpListener') == 1, 'the listening socket is closed when the server returns', 'post')
        p.prove(ks.count('Poller::~Poller') == 1, 'the poller is closed when the server returns', 'post')
        p.reached()
    return Unit('start: stopping', V + '::start', h, rules={'*': rule}, contracts=START_USES, ctx=dict(raii=True, externs=SYS, volatile=read_flag))


# --- SignalHandler ----------------------------------------------------------------------------------------
class Stop:
    name = V + '::stop'

    def apply(self, I, this, vals):
        log(I.p, 'stop', this.key())


def x_signal(I, args, node):
    p = I.p
    s = I.rv(args[0])
    if is_sym(s):
        raise ToolLimit('signal number')
    f = I.rv(args[1])
    log(p, 'signal', s, f, load(p, p.ghost['state'].load(p)))
    p.ghost['handlers'] = dict(p.ghost['handlers'], **{str(s): f})
    return NULL


def state(I, d):
    """the one static member of SignalHandler: the server signals are for"""
    p = I.p
    n = I.P.by_id.get(d['id'])
    if n is None or n.get('kind') != 'VarDecl':
        n = next((g for g in I.P.globals.get(d['name'], []) if (g.get('_scope') or [None])[-1] == SH), None)
    if n is None or (n.get('_scope') or [None])[-1] != SH:
        return None
    t = I.T(n).strip()
    if t.name != 'std::atomic':
        p.prove(t.kind != 'ptr', 'the server signals are for is known to the handler by an atomic', 'post')
        raise ToolLimit('static member of SignalHandler')
    if p.ghost.setdefault('statename', d['name']) != d['name']:
        raise ToolLimit('more than one static member of SignalHandler')
    return p.ghost['state']


# --- the standard streams: each is a pipe, a socket or something else, and may have lost its reader -----------
S_IFMT, S_IFIFO, S_IFSOCK = 0o170000, 0o010000, 0o140000


def std(I, fd):
    """(kind, has it lost its reader) of standard output or error"""
    p = I.p
    fd = I.rv(fd) if isinstance(fd, dict) else fd
    if isinstance(fd, LV):
        fd = fd.load(p)
    for k, n in ((1, 'output'), (2, 'error')):
        if p.decide(Eq(bv(fd, 32), k)):
            st = p.ghost.setdefault('std', {})
            if k not in st:
                st[k] = (('pipe', 'socket', 'other')[p.choose(3)], p.freshbool('standard %s has lost its reader' % n))
            return st[k]
    raise ToolLimit('another descriptor in a signal handler')


def x_write(I, args, node):
    """an empty write: a pipe takes it whatever its state; a socket without a peer refuses it"""
    p = I.p
    fd, _, n = [I.rv(a) for a in args]
    p.prove(Eq(bv(n, 64), 0), 'a signal handler writes nothing to the standard streams', 'post')
    kind, gone = std(I, fd)
    if kind == 'socket' and p.decide(gone):
        L.errno_lv(I).store(p, 32)       # EPIPE
        return -1
    if p.choose(2):
        e = p.freshbv('errno', 32)
        p.fact(e != 32)
        L.errno_lv(I).store(p, e)
        return -1
    return 0


def x_fstat(I, args, node):
    p = I.p
    kind, _ = std(I, args[0])
    b = I.rv(args[1])
    m = p.freshbv('mode', 32)
    f = m & S_IFMT
    p.fact(f == S_IFIFO if kind == 'pipe' else f == S_IFSOCK if kind == 'socket' else z3.And(f != S_IFIFO, f != S_IFSOCK))
    b.lv.store(p, Rec('stat', {'st_mode': m, 'st_size': p.freshbv('size', 64)}))
    return 0


def x_poll(I, args, node):
    """poll of one descriptor without waiting: a pipe without reader reports POLLERR"""
    p = I.p
    a = [I.rv(x) for x in args]
    if not isinstance(a[0], Ptr) or not p.entails(Eq(bv(a[1], 64), 1)):
        raise ToolLimit('poll of several descriptors in a signal handler')
    p.prove(Eq(bv(a[2], 32), 0), 'a signal handler does not wait', 'post')
    f = a[0].lv.load(p).f
    kind, gone = std(I, f['fd'])
    r = p.freshbv('revents', 16)
    err, hup = (r & 8) != 0, (r & 16) != 0
    asked = bv(f['events'], 16)
    p.fact((r & ~(asked | 8 | 16 | 32)) == 0)
    p.fact((r & 32) == 0)
    if kind == 'pipe':
        p.fact(err == gone if is_sym(gone) else err == bool(gone))
        p.fact(Not(hup))
    elif kind == 'socket':
        p.fact(Implies(Or(err, hup), gone))
    else:
        p.fact(Not(gone))
    a[0].lv.store(p, Rec('pollfd', dict(f, revents=r)))
    n = p.freshbv('ready', 32)
    p.fact(Eq(n, z3.If(r != 0, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))))
    return n


def unit_sigpipe():
    """SIGPIPE: the server is told to stop exactly when standard output or error has lost its reader"""
    def h(I, p):
        G = p.ghost
        env(I, p, False)
        I.exec_function(the_fn(I, SH, 'setup', 1), None, [G['server']])
        regs = [a for a in logged(p, 'signal') if a[1] == 13]
        p.prove(bool(regs), 'SIGPIPE does not end the program', 'post')
        if not regs:
            return
        f = regs[-1][2]
        if not isinstance(f, L.FnRef):
            raise ToolLimit('the handler of SIGPIPE')
        fn = fn_of(I, f)
        G['log'] = []
        there = p.choose(2)
        if not there:
            G['state'].store(p, NULL)
        try:
            I.exec_function(fn, None, [13])
        except CppThrow:
            p.prove(False, 'a signal handler throws nothing', 'post')
        st = logged(p, 'stop')
        for k in (1, 2):
            std(I, k)
        gone = lambda ks: Or(*[G['std'][k][1] for k in (1, 2) if G['std'][k][0] in ks])
        for k in (1, 2):
            if G['std'][k][0] == 'other':
                p.assume(Not(G['std'][k][1]))
        if not there:
            p.prove(not st, 'a signal without a server does nothing', 'post')
        elif st:
            p.prove(all(a[1] == G['server'].key() for a in st), 'the server is told to stop', 'post')
            p.prove(gone(('pipe', 'socket')), 'SIGPIPE stops the server only when a standard stream has lost its reader', 'post')
        else:
            p.prove(Not(gone(('pipe',))), 'SIGPIPE stops the server when a standard stream is a pipe nobody reads', 'post')
        prove_safe(I, fn, 'the handler of SIGPIPE')
        p.reached()
    return Unit('SignalHandler: SIGPIPE', SH + '::sigpipe_handler', h, contracts=[Stop()], ctx=CTX)


CTX = dict(externs={'signal': x_signal, 'write': x_write, 'fstat': x_fstat, 'poll': x_poll}, state=state, raii=True)


def env(I, p, there):
    G = p.ghost
    G['log'], G['handlers'] = [], {}
    G['server'] = p.newlv('server', Rec(V, {}), parse_type('ion::' + V))
    G['other'] = p.newlv('other', Rec(V, {}), parse_type('ion::' + V))
    G['state'] = p.newlv('state', Ptr(G['other']) if there else NULL, parse_type('ion::Http2Server *'))


def points_to(v, lv):
    return isinstance(v, Ptr) and v.lv.key() == lv.key()


def unit_setup():
    def h(I, p):
        G = p.ghost
        there = bool(p.choose(2))
        env(I, p, there)
        thrown = False
        try:
            I.exec_function(the_fn(I, SH, 'setup', 1), None, [G['server']])
        except CppThrow:
            thrown = True
        p.prove(thrown == there, 'a second handler, and only that, is refused', 'post')
        now = G['state'].load(p)
        if there:
            p.prove(points_to(now, G['other']) and not logged(p, 'signal'), 'a handler that is refused changes nothing', 'frame')
            return
        if thrown:
            return
        p.prove(points_to(now, G['server']), 'signals are for the server given', 'post')
        made = logged(p, 'signal')
        for name, s in (('SIGINT', 2), ('SIGTERM', 15)):
            regs = [a for a in made if a[1] == s]
            p.prove(bool(regs), '%s is handled' % name, 'post')
            if not regs:
                continue
            for a in regs:
                p.prove(points_to(a[3], G['server']), 'no %s is lost while handlers are installed' % name, 'post')
            f = regs[-1][2]
            if not isinstance(f, L.FnRef):
                p.prove(not isinstance(f, Null), '%s is handled' % name, 'post')
                raise ToolLimit('the handler of %s' % name)
            fn = fn_of(I, f)
            for v in (Ptr(G['server']), NULL):
                G['state'].store(p, v)
                G['log'] = []
                try:
                    I.exec_function(fn, None, [s])
                except CppThrow:
                    p.prove(False, 'a signal handler throws nothing', 'post')
                st = logged(p, 'stop')
                if isinstance(v, Null):
                    p.prove(not st, 'a signal without a server does nothing', 'post')
                else:
                    p.prove(bool(st) and all(a[1] == G['server'].key() for a in st), '%s stops the server' % name, 'post')
            prove_safe(I, fn, 'the handler of %s' % name)
        p.reached()
    return Unit('SignalHandler::setup', SH + '::setup', h, contracts=[Stop()], ctx=CTX)


def fn_of(I, f):
    d = f.d if hasattr(f, 'd') else f.decl
    n = I.P.by_id.get(d['id'])
    if n is not None and has_body(n):
        return n
    c = [x for x in I.P.funcs.get(d['name'], []) if has_body(x)]
    if len(c) != 1:
        raise ToolLimit('function %s' % d['name'])
    return c[0]


def unit_end():
    def h(I, p):
        G = p.ghost
        env(I, p, True)
        G['handlers'] = {'2': 'set', '15': 'set'}
        o = p.newlv('handler', Rec(SH, {}), parse_type(SH))
        try:
            I.exec_function(the_fn(I, SH, '~' + SH, 0), o, [])
        except CppThrow:
            p.prove(False, 'destruction throws nothing', 'post')
            return
        gone = all(isinstance(G['handlers'][k], Null) for k in ('2', '15'))
        p.prove(gone or isinstance(G['state'].load(p), Null), 'no signal reaches a server that is gone', 'post')
        p.prove(isinstance(G['state'].load(p), Null), 'another server may be set up afterwards', 'post')
    return Unit('SignalHandler::~SignalHandler', SH + '::~SignalHandler', h, contracts=[Stop()], ctx=CTX)


def units_c26():
    return [unit_stop(), unit_start(), unit_setup(), unit_sigpipe(), unit_end()]

"""The program: every option has its documented effect (C30)."""
from vc.verify import *
from vc.fold import *
from vc import lib as L
from .router import S_, txt
from .server import log, num

V, SFH, RT = 'Http2Server', 'StaticFileHandler', 'Router'


def load(p, v):
    return v.load(p) if isinstance(v, LV) else v


def same_key(a, b):
    return isinstance(a, LV) and isinstance(b, LV) and a.key() == b.key()


def made(p, x):
    v = load(p, x)
    return isinstance(v, Rec) and '#made' in v.f


class Config:
    """proved under C24: the configuration these arguments mean"""
    name = 'Args::to_server_config'

    def apply(self, I, this, vals):
        p = I.p
        p.prove(same_key(this, p.ghost['args']), 'the configuration is the one of the options given', 'post')
        r = p.ghost['config'] = I.symbolic(parse_type('ion::ServerConfiguration'), 'config')
        r.f['#config'] = True
        return r


class Server:
    name = V + '::' + V

    def apply(self, I, this, vals):
        p = I.p
        log(p, 'server')
        c = load(p, vals[0])
        p.prove(isinstance(c, Rec) and '#config' in c.f, 'the server is made with the configuration of the options', 'post')
        if p.choose(2):
            raise CppThrow('?std::exception')
        p.ghost['server'] = True
        this.store(p, Rec(V, {'#made': True}))


class TheRouter:
    name = V + '::router'

    def apply(self, I, this, vals):
        p = I.p
        p.prove(made(p, this), 'the routes are those of the server', 'post')
        return p.ghost['router']


class Start:
    name = V + '::start'

    def apply(self, I, this, vals):
        p = I.p
        p.prove(made(p, this), 'the server that was made is started', 'post')
        log(p, 'start', num(p, vals[0]))
        if p.choose(2):
            raise CppThrow('?std::exception')


class Setup:
    name = 'SignalHandler::setup'

    def apply(self, I, this, vals):
        p = I.p
        p.prove(made(p, vals[0]), 'signals stop the server that was made', 'post')
        log(p, 'signals')
        return Rec('SignalHandler', {})


class Unset:
    name = 'SignalHandler::~SignalHandler'

    def apply(self, I, this, vals):
        log(I.p, 'signals off')


class Gone:
    name = V + '::~' + V

    def apply(self, I, this, vals):
        log(I.p, 'server gone')


class On:
    """something installed in the router"""
    def __init__(self, name, what):
        self.name, self.what = name, what

    def apply(self, I, this, vals):
        p = I.p
        rt = this if self.name.startswith(RT) else vals[0]
        p.prove(same_key(rt, p.ghost['router']), '%s is installed in the router of the server' % self.what, 'post')
        log(p, self.what, *[load(p, v) for v in vals])


class Mapping:
    name = SFH + '::' + SFH

    def apply(self, I, this, vals):
        this.store(I.p, Rec(SFH, {'#of': (S_(I.p, vals[0]), S_(I.p, vals[1]))}))


class FileResponse:
    """C17: the response for a file"""
    name = SFH + '::file_response'

    def apply(self, I, this, vals):
        p = I.p
        r = I.symbolic(parse_type('ion::HttpResponse'), 'page')
        p.ghost['pages'].append((S_(p, vals[0]), load(p, vals[1]), r))
        return r


USES = [Config(), Server(), TheRouter(), Start(), Setup(), Unset(), Gone(), On('TestRoutes::add_test_routes', 'tests'), On('StatusPage::add_status_page', 'status page'),
        On(RT + '::add_static_handler', 'mapping'), On(RT + '::add_middleware', 'middleware'), Mapping(), FileResponse()]


def b(p, v):
    v = load(p, v)
    return v if isinstance(v, bool) or z3.is_bool(v) else Not(Eq(v, 0))


def same_response(p, r, w, what, status=True):
    for n in w.f:
        x, y = r.f[n], w.f[n]
        if n == 'status_code' and not status:
            continue
        if isinstance(x, Seq):
            prove_eq(p, x, y, '%s (%s)' % (what, n), 'post')
        else:
            p.prove(Eq(x, y), '%s (%s)' % (what, n), 'post')


def page_middleware(I, p, mw, path):
    """what the middleware installed for the custom 404 page does to any handler, request and response"""
    G = p.ghost
    G['pages'], G['calls'] = [], []

    def call(I, vals):
        how = I.p.choose(2)
        r = I.symbolic(parse_type('ion::HttpResponse'), 'response')
        G['calls'].append((load(I.p, vals[0]), r))
        if how:
            raise CppThrow('?std::exception')
        return r
    nxt = FnSpec('next', call, p.fresh('next', Obj))
    w = load(p, L.call_value(I, mw, [p.newlv('next', nxt, parse_type('ion::RouteHandler'))]))
    p.prove(not G['calls'], 'wrapping a handler does not call it', 'post')
    rv = I.symbolic(parse_type('ion::HttpRequest'), 'request')
    req = p.newlv('request', rv, parse_type('ion::HttpRequest'))
    try:
        r = load(p, L.call_value(I, w, [req]))
    except CppThrow:
        p.prove(len(G['calls']) == 1, 'only what the handler throws is passed on', 'post')
        return
    p.prove(len(G['calls']) == 1, 'the handler is called exactly once', 'post')
    if len(G['calls']) != 1:
        return
    q, resp = G['calls'][0]
    for n in rv.f:
        p.prove(val_same(q.f[n], rv.f[n]), 'the request is passed on unchanged (%s)' % n, 'post')
    if not p.decide(Eq(resp.f['status_code'], 404)):
        same_response(p, r, resp, 'a response with another status is passed on unchanged')
        return
    p.prove(len(G['pages']) == 1, 'a response with status 404 is replaced by the page', 'post')
    if len(G['pages']) != 1:
        return
    f, head, pr = G['pages'][0]
    prove_eq(p, f, path, 'the page is the file given', 'post')
    ishead = eq_formula(p, rv.f['method'], txt('HEAD'))
    h = head if isinstance(head, bool) or z3.is_bool(head) else Not(Eq(head, 0))
    p.prove(Or(And(h, ishead), And(Not(h), Not(ishead))), 'the page has no body exactly for HEAD', 'post')
    p.prove(Eq(r.f['status_code'], 404), 'the page is answered with status 404', 'post')
    same_response(p, r, pr, 'the page is the one read from the file', False)


def unit_run():
    def h(I, p):
        G = p.ghost
        G['log'] = []
        v = I.symbolic(parse_type('Args'), 'args')
        a = G['args'] = p.newlv('args', v, parse_type('Args'))
        G['router'] = p.newlv('router', Rec(RT, {}), parse_type('ion::Router'))
        n = v.f['static_map'].len
        p.assume(Or(Eq(n, 0), Eq(n, 2)))
        thrown = None
        try:
            I.exec_function(the_fn(I, None, 'run_server', 1), None, [a])
        except CppThrow as e:
            thrown = e
        lg = G['log']
        ks = [x[0] for x in lg]
        st = [x for x in lg if x[0] == 'start']
        if 'server' in ks and 'server' not in G:
            p.prove(not st and thrown is not None, 'no server without a valid configuration', 'post')
            return
        p.prove(len(st) == 1, 'the server is started once', 'post')
        if len(st) != 1:
            return
        i = ks.index('start')
        p.prove(Eq(bv(st[0][1], 16), bv(v.f['port'], 16)), 'the server is started on the port given', 'post')
        p.prove('signals' in ks[:i] and 'signals off' not in ks[:i], 'signals are handled before and while the server runs', 'post')
        p.prove(all(k in ('signals off', 'server gone') for k in ks[i + 1:]), 'everything is installed before the server starts', 'post')
        for k, f in (('tests', b(p, v.f['under_test'])), ('status page', b(p, v.f['status_page'])), ('mapping', Eq(n, 2)), ('middleware', Not(Eq(v.f['status_404_file_path'].len, 0)))):
            c = ks[:i].count(k)
            p.prove(f if c == 1 else And(Not(f), c == 0), '%s: installed, once, exactly when the option is given' % k, 'post')
        for x in lg[:i]:
            if x[0] == 'mapping':
                m = x[1]
                c = load(p, m.cell) if isinstance(m, UPtr) and isinstance(m.cell, LV) else load(p, m.lv) if isinstance(m, Ptr) else None
                if not isinstance(c, Rec) or '#of' not in c.f:
                    raise ToolLimit('the static mapping')
                for j, what in ((0, 'prefix'), (1, 'directory')):
                    prove_eq(p, c.f['#of'][j], v.f['static_map'].at(p, j), 'the %s of the mapping is the one given' % what, 'post')
        if thrown is None:
            p.prove(True, 'the end of the server is passed on', 'post')
        for x in lg[:i]:
            if x[0] == 'middleware':
                page_middleware(I, p, x[1], v.f['status_404_file_path'])
    return Unit('run_server', 'run_server', h, contracts=USES, ctx=dict(raii=True))


# --- giving up privileges ----------------------------------------------------------------------------------
PC = 'ProcessControl'
SET_NNP, GET_NNP = 38, 39


def x_prctl(I, args, node):
    p = I.p
    v = [I.rv(a) for a in args]
    r = p.freshbv('prctl', 32)
    p.fact(z3.And(r >= -1, r <= (0 if not is_sym(v[0]) and v[0] == SET_NNP else 1)))
    L.errno_lv(I).store(p, p.freshbv('errno', 32))
    p.ghost['prctl'].append((v, r))
    return r


def unit_privs(get):
    def h(I, p):
        p.ghost['prctl'] = []
        r = load(p, I.exec_function(the_fn(I, PC, 'check_no_new_privs' if get else 'enable_no_new_privs', 0), None, []))
        cs = p.ghost['prctl']
        p.prove(len(cs) == 1, 'the system is asked once', 'post')
        if len(cs) != 1:
            return
        v, c = cs[0]
        z = [Eq(bv(x, 64), 0) for x in v[2 - (1 if get else 0):]]
        p.prove(Eq(v[0], GET_NNP if get else SET_NNP), 'it is asked about no_new_privs', 'post')
        if not get:
            p.prove(len(v) == 5 and Eq(bv(v[1], 64), 1), 'no_new_privs is set', 'post')
        p.prove(len(v) == 5 and And(*z), 'the unused arguments are zero', 'post')
        if get:
            p.prove(Eq_b(r, Eq(c, 1)), 'the answer is the system\'s', 'post')
        else:
            p.prove(Eq_b(r, Not(Eq(c, tmask32))), 'a refusal is reported', 'post')
    n = PC + '::' + ('check_no_new_privs' if get else 'enable_no_new_privs')
    return Unit(n, n, h, ctx=dict(externs=dict(prctl=x_prctl)))


tmask32 = 0xffffffff


def Eq_b(a, c):
    return Or(And(a, c), And(Not(a), Not(c)))


# --- the log level -----------------------------------------------------------------------------------------
LEVELS = dict(trace=0, debug=1, info=2, warn=3, error=4, critical=5, off=6)


def unit_level(name):
    def h(I, p):
        v = I.symbolic(parse_type('Args'), 'args')
        v.f['log_level'] = txt(name) if name else v.f['log_level']
        if not name:
            for n in LEVELS:
                p.assume(Not(eq_formula(p, v.f['log_level'], txt(n))))
        a = p.newlv('args', v, parse_type('Args'))
        try:
            r = load(p, I.exec_function(the_fn(I, 'Args', 'log_level_enum', 0), a, []))
        except CppThrow:
            p.prove(not name, 'a level that exists is accepted', 'post')
            return
        p.prove(bool(name), 'a level that does not exist is refused', 'post')
        if name:
            p.prove(Eq(bv(r, 32), LEVELS[name]), 'the level is the one named', 'post')
    return Unit('log_level_enum[%s]' % (name or 'another'), 'Args::log_level_enum', h,
                ctx=dict(ext_ctors={'CLI::ValidationError': lambda I, t, args, n: Opaque('CLI::ValidationError', 'e')}))


# --- the access log ----------------------------------------------------------------------------------------
def unit_access_log():
    def h(I, p):
        G = p.ghost
        G['loggers'], G['set'] = [], []
        path = p.newlv('path', p.bytes_('path'), parse_type('std::string'))

        def make(I, args, node):
            G['loggers'].append((L.content(I, I.ev(args[0])), L.content(I, I.ev(args[1]))))
            if p.choose(2):
                raise CppThrow('spdlog::spdlog_ex')
            return Ptr(p.newlv('logger', Opaque('spdlog::logger', 'access'), None))

        def put(what):
            def f(I, lv, args, node):
                v = load(p, lv)
                if isinstance(v, Opaque) and v.key == 'access':
                    a = load(p, I.ev(args[0]))
                    G['set'].append((what, a if isinstance(a, (int, z3.ExprRef)) else S_(p, L.content(I, I.ev(args[0])))))
            return f
        I.ctx['externs'] = dict(basic_logger_mt=make)
        ms = {n + '::' + m: put(m) for n in ('spdlog::logger', 'logger', 'std::__shared_ptr_access', 'element_type') for m in ('set_pattern', 'flush_on', 'set_level')}
        I.ctx['ext_methods'] = ms
        I.exec_function(the_fn(I, None, 'setup_access_logs', 1), None, [path])
        lg = G['loggers']
        given = Not(Eq(load(p, path).len, 0))
        p.prove(given if lg else Not(given), 'there is an access log exactly when a path is given', 'post')
        p.prove(len(lg) <= 1, 'there is one access log', 'post')
        if not lg:
            return
        prove_eq(p, S_(p, lg[0][0]), txt('access'), 'it is the log requests are written to', 'post')
        prove_eq(p, S_(p, lg[0][1]), load(p, path), 'it is written to the file given', 'post')
        pats = [v for w, v in G['set'] if w == 'set_pattern']
        if G['set']:
            p.prove(len(pats) == 1, 'the form of an entry is set', 'post')
            prove_eq(p, pats[0], txt('%v'), 'an entry is written as it is', 'post')
            fl = [v for w, v in G['set'] if w == 'flush_on']
            p.prove(len(fl) == 1 and ule(fl[0] if isinstance(fl[0], int) else bv(fl[0], 64), 2), 'an entry is written at once', 'post')
            lv = [v for w, v in G['set'] if w == 'set_level']
            # a new logger takes the level of the program, whatever that is
            p.prove(len(lv) == 1 and ule(lv[0] if isinstance(lv[0], int) else bv(lv[0], 64), 2), 'entries are written at every log level', 'post')
    return Unit('setup_access_logs', 'setup_access_logs', h)


# --- the internal test routes ------------------------------------------------------------------------------
class AddRoute:
    name = RT + '::add_route'

    def apply(self, I, this, vals):
        p = I.p
        p.ghost['routes'].append((S_(p, vals[0]), S_(p, vals[1]), load(p, vals[2])))


def unit_tests():
    def h(I, p):
        G = p.ghost
        G['routes'] = []
        rt = p.newlv('router', Rec(RT, {}), parse_type('ion::Router'))
        I.exec_function(the_fn(I, 'TestRoutes', 'add_test_routes', 1), None, [rt])
        pre = txt('/_tests/')
        p.prove(bool(G['routes']), 'the test routes are there', 'post')
        for path, method, fn in G['routes']:
            p.prove(ule(8, path.len), 'the internal routes are below /_tests/', 'post')
            prove_eq(p, slice_(p, path, 0, 8), pre, 'the internal routes are below /_tests/', 'post')
            prove_eq(p, method, txt('GET'), 'the internal routes are for GET', 'post')
            if isinstance(path, Lit) and bytes(path.e) == b'/_tests/no_new_privs':
                G['prctl'] = []
                req = p.newlv('request', I.symbolic(parse_type('ion::HttpRequest'), 'request'), parse_type('ion::HttpRequest'))
                r = load(p, L.call_value(I, fn, [req]))
                c = G.get('nnp')
                p.prove(c is not None and Eq(bv(r.f['status_code'], 16), z3.If(zb(c), z3.BitVecVal(200, 16), z3.BitVecVal(500, 16))), 'the test route tells whether privileges were given up', 'post')
    return Unit('TestRoutes::add_test_routes', 'TestRoutes::add_test_routes', h, contracts=[AddRoute(), CheckPrivs()])


class CheckPrivs:
    name = PC + '::check_no_new_privs'

    def apply(self, I, this, vals):
        I.p.ghost['nnp'] = I.p.freshbool('no_new_privs')
        return I.p.ghost['nnp']


PRIVS = 'ProcessControl::enable_no_new_privs'


# --- the program -------------------------------------------------------------------------------------------
class Step:
    """one of the steps of the program; it may fail"""
    def __init__(self, name, fails=True, arg=None):
        self.name, self.fails, self.arg = name, fails, arg

    def apply(self, I, this, vals):
        p = I.p
        G = p.ghost
        log(p, self.name)
        p.prove(G['parsed'] == 'ok', 'nothing is done with refused options', 'post')
        if self.arg == 'args':
            v = load(p, vals[0])
            p.prove(isinstance(v, Rec) and v.f.get('#options') is True, 'the server is run with the options given', 'post')
        elif self.arg:
            prove_eq(p, S_(p, vals[0]), G['options'].f[self.arg], 'the access log is the one given', 'post')
        if self.fails and p.choose(2):
            G['failed'] = True
            raise CppThrow('?std::exception')
        return p.freshbool('refused') if self.name == PRIVS else None


class Register:
    """C24: binds the options to the fields of what it returns"""
    name = 'Args::register_opts'

    def apply(self, I, this, vals):
        r = I.symbolic(parse_type('Args'), 'options')
        r.f['#options'] = True
        I.p.ghost['options'] = r
        return r


class Level:
    name = 'Args::log_level_enum'

    def apply(self, I, this, vals):
        p = I.p
        v = load(p, this)
        p.prove(isinstance(v, Rec) and v.f.get('#options') is True, 'the log level is the one of the options', 'post')
        if p.choose(2):
            raise CppThrow('CLI::ValidationError')
        p.ghost['level'] = p.freshbv('level', 32)
        return p.ghost['level']


class Telemetry:
    name = 'configure_telemetry'

    def apply(self, I, this, vals):
        return NULL


def unit_main():
    def h(I, p):
        G = p.ghost
        G['log'], G['parsed'], G['failed'], G['levels'] = [], None, False, []

        def app(I, t, args, node):
            return Opaque('CLI::App', 'app')

        def parse(I, lv, args, node):
            p.prove([load(p, I.ev(x)) for x in args] == [G['argc'], G['argv']], 'the options are those of the command line', 'post')
            if p.choose(2):
                G['parsed'] = 'refused'
                raise CppThrow('CLI::ParseError')
            G['parsed'] = 'ok'

        def leave(I, lv, args, node):
            G['exit'] = p.freshbv('exit', 32)
            return G['exit']

        def setlevel(I, args, node):
            G['levels'].append((load(p, I.ev(args[0])), len(G['log'])))

        nothing = lambda *a: None
        obj = lambda I, t, args, node: Opaque(str(t.name), 'x')
        I.ctx.update(ext_ctors={'CLI::App': app, 'spdlog::pattern_formatter': obj},
                     ext_methods={'CLI::App::parse': parse, 'CLI::App::exit': leave, 'spdlog::pattern_formatter::add_flag': nothing, 'spdlog::pattern_formatter::set_pattern': nothing},
                     externs={'make_unique': lambda I, args, node: UPtr(p.newlv('formatter', Opaque('formatter', 'x'), None)), 'set_formatter': nothing, 'set_level': setlevel, 'spdlog::set_level': setlevel})
        G['argc'], G['argv'] = p.freshbv('argc', 32), Opaque('argv', 'argv')
        try:
            r = I.exec_function(the_fn(I, None, 'main', 2), None, [G['argc'], G['argv']])
        except CppThrow as e:
            p.prove(G['parsed'] == 'ok' and 'level' not in G and not G['log'], 'only a log level that does not exist ends the program so', 'post')
            return
        r = load(p, r)
        if G['parsed'] == 'refused':
            p.prove('exit' in G and same(r, G['exit']), 'refused options end the program with the status for them', 'post')
            p.prove(not G['log'], 'nothing is done with refused options', 'post')
            return
        lv = G['levels']
        ks = [x[0] for x in G['log']]
        p.prove(len(lv) == 1 and 'level' in G and same(lv[0][0], G['level']) and 'run_server' not in ks[:lv[0][1]], 'the log level is set to the one of the options before the server runs', 'post')
        if G['failed']:
            p.prove(Not(Eq(bv(r, 32), 0)), 'a failure is reported by the exit status', 'post')
            return
        p.prove(Eq(bv(r, 32), 0), 'a normal end is reported by the exit status', 'post')
        p.prove(ks.count('run_server') == 1 and ks[-1] == 'run_server', 'the server is run once, last', 'post')
        p.prove(lv[0][1] <= ks.index('setup_access_logs') if lv and 'setup_access_logs' in ks else True, 'the log level, which every logger takes, is set before the access log is', 'post')
        p.prove(ks.count('setup_access_logs') == 1 or 'setup_access_logs' not in ks and Eq(G['options'].f['access_log_path'].len, 0), 'the access log is set up before the server is run', 'post')
        p.prove(ks.count(PRIVS) >= 1, 'gaining privileges is given up before the server is run', 'post')
    return Unit('main', 'main', h, contracts=[Register(), Level(), Telemetry(), Step(PRIVS, False), Step('setup_access_logs', arg='access_log_path'), Step('run_server', arg='args')], ctx=dict(raii=True))


def unit_linux():
    def h(I, p):
        p.ghost['log'], p.ghost['parsed'] = [], 'ok'
        I.exec_function(the_fn(I, None, 'enable_no_new_privs_on_linux', 0), None, [])
        p.prove([x[0] for x in p.ghost['log']] == [PC + '::enable_no_new_privs'], 'gaining privileges is given up', 'post')
    return Unit('enable_no_new_privs_on_linux', 'enable_no_new_privs_on_linux', h, contracts=[Step(PC + '::enable_no_new_privs', False)])


def units_c30():
    return [unit_run(), unit_main(), unit_linux(), unit_privs(False), unit_privs(True), unit_access_log(), unit_tests()] + [unit_level(n) for n in list(LEVELS) + [None]]

"""Configuration: the server only exists without TLS when asked for cleartext."""
from vc.verify import *
from vc import lib as L
from .sockets import SYS, start, sock, fd_of, tfd, owned, S, closed_is

V = 'Http2Server'
EXISTS = UF('file.exists', Str, z3.BoolSort())


def pathterm(p, s):
    """identity of a path given as octets: the base it consists of"""
    if isinstance(s, LV):
        s = s.load(p)
    if isinstance(s, Ptr):
        lv = s.lv
        p.require(s.idx is None or Eq(s.idx, 0), 'a path is given from its first octet')
        s = lv.load(p)
    if isinstance(s, L.CStr):
        s = s.s
    if isinstance(s, Slice) and p.entails(And(Eq(s.off, 0), Eq(s.len, s.base.len))):
        s = s.base
    if not isinstance(s, Base):
        raise ToolLimit('a path that is not one of the configuration: %r' % (s,))
    return s.t


def x_exists(I, args, node):
    """exists(path) throws when the file system cannot tell; with an error code it says no"""
    p = I.p
    t = pathterm(p, I.rv(args[0]))
    if len(args) == 1 and p.choose(2):
        raise CppThrow('std::filesystem::filesystem_error')
    p.ghost['asked'].append(t)
    return EXISTS(t)


def x_ctx_new(I, args, node):
    p = I.p
    p.prove(I.rv(args[0]) == 'server', 'a TLS server context is created', 'post')
    if not p.choose(2):
        return Null()
    c = p.newlv('ssl_ctx%d' % len(p.ghost['ctx']), Opaque('SSL_CTX', len(p.ghost['ctx'])), None)
    p.ghost['ctx'][c.key()] = dict(cert=None, key=None, match=p.freshbool('key matches'), freed=False)
    return Ptr(c)


def ctx_of(p, v):
    if isinstance(v, Null):
        p.require(False, 'an SSL_CTX is used only when there is one')
        raise PathEnd()
    c = p.ghost['ctx'].get(v.lv.key())
    if c is None:
        raise ToolLimit('an SSL_CTX from elsewhere')
    p.require(not c['freed'], 'an SSL_CTX is not used after it was freed')
    return c


def x_use(what):
    def f(I, args, node):
        p = I.p
        c = ctx_of(p, I.rv(args[0]))
        t = pathterm(p, I.rv(args[1]))
        p.prove(Eq(I.rv(args[2]), 1), 'PEM files are loaded', 'post')
        r = p.freshbv('use_' + what, 32)
        p.fact(z3.And(r >= -1, r <= 1))
        p.fact(z3.Implies(r > 0, EXISTS(t)))        # what was loaded exists
        if what == 'key' and c['cert']:         # documented: a key that does not belong to the certificate set before is refused
            p.fact(z3.Implies(z3.And(r > 0, c['cert'][1] > 0), c['match']))
        c[what] = (t, r)
        return r
    return f


def x_check(I, args, node):
    p = I.p
    c = ctx_of(p, I.rv(args[0]))
    if not c['cert'] or not c['key']:
        return 0
    return Ite(And(c['cert'][1] > 0, c['key'][1] > 0, c['match']), 1, 0, 32)


def x_free(I, args, node):
    p = I.p
    v = I.rv(args[0])
    if not isinstance(v, Null):
        ctx_of(p, v)['freed'] = True


def x_opt(I, args, node):
    ctx_of(I.p, I.rv(args[0]))


def x_net(name):
    def f(I, args, node):
        I.p.ghost['net'].append(name)
        return I.p.freshbv(name, 32)
    return f


def x_method(I, args, node):
    return 'server'


TLS = {'exists': x_exists, 'TLS_server_method': x_method, 'SSL_CTX_new': x_ctx_new, 'SSL_CTX_use_certificate_file': x_use('cert'), 'SSL_CTX_use_PrivateKey_file': x_use('key'),
       'SSL_CTX_check_private_key': x_check, 'SSL_CTX_free': x_free, 'SSL_CTX_set_alpn_select_cb': x_opt, 'SSL_CTX_set_keylog_callback': x_opt,
       **{n: x_net(n) for n in ('socket', 'bind', 'listen', 'accept', 'accept4')}}


def config(I, p):
    c = I.symbolic(parse_type('ion::ServerConfiguration'), 'config')
    return c


def opt(p, o):
    return o.has


def begin(p):
    start(p)
    p.ghost.update(asked=[], ctx={}, net=[])


def usable(p, cert, key):
    """the TLS context loaded from these two paths, if everything succeeded"""
    G = p.ghost
    if len(G['ctx']) != 1:
        return False
    c = next(iter(G['ctx'].values()))
    if c['freed'] or not c['cert'] or not c['key']:
        return False
    return And(Eq(c['cert'][0], cert), c['cert'][1] > 0, Eq(c['key'][0], key), c['key'][1] > 0, c['match'], EXISTS(cert), EXISTS(key))


def unit_validate():
    def h(I, p):
        begin(p)
        c = config(I, p)
        lv = p.newlv('config', c, parse_type('ion::ServerConfiguration'))
        need = And(Not(c.f['cleartext']), Or(Not(c.f['cert_path'].has), Not(c.f['key_path'].has)))
        info = lambda m: dict(op='validate', cleartext=z3.is_true(m.eval(zb(c.f['cleartext']), True)), cert=z3.is_true(m.eval(zb(c.f['cert_path'].has), True)), key=z3.is_true(m.eval(zb(c.f['key_path'].has), True)))
        try:
            I.exec_function(the_fn(I, 'ServerConfiguration', 'validate'), lv, [])
        except CppThrow:
            p.prove(need, 'a configuration is refused only without cleartext and without certificate or key path', 'post', info)
            return
        p.prove(Not(need), 'without cleartext, certificate and key path are required', 'post', info)
        p.reached()
    return Unit('ServerConfiguration::validate', 'ServerConfiguration::validate', h, ctx=dict(raii=True))


def unit_server():
    def h(I, p):
        begin(p)
        G = p.ghost
        c = config(I, p)
        lv = p.newlv('config', c, parse_type('ion::ServerConfiguration'))
        clear = c.f['cleartext']
        info = lambda m: dict(op='server', cleartext=z3.is_true(m.eval(zb(clear), True)))
        both = And(c.f['cert_path'].has, c.f['key_path'].has)
        cert, key = c.f['cert_path'].val.t, c.f['key_path'].val.t
        tried = lambda: len(G['ctx']) > 0
        try:
            s = construct(I, V, [lv])
        except CppThrow:
            p.prove(Not(clear), 'a cleartext server is always constructed', 'post', info)
            p.prove(Not(And(both, usable(p, cert, key))), 'a server with a usable certificate and key is constructed', 'post', info)
            p.prove(not G['net'], 'nothing listens', 'post', info)
            return
        f = s.load(p).f
        p.prove(not G['net'], 'construction does not listen', 'post', info)
        t = [x['name'] for x in I.all_fields(V) if I.T(x).strip().name == 'std::optional' and I.T(x).strip().args[0].simple == 'TlsContext']
        if len(t) != 1:
            raise ToolLimit('the server does not hold an optional TLS context')
        o = f[t[0]]
        if p.decide(clear):
            p.prove(Not(o.has), 'a cleartext server has no TLS context', 'post', info)
        else:
            p.prove(both, 'a TLS server has both paths', 'post', info)
            p.prove(usable(p, cert, key), 'a TLS server has loaded the certificate and the matching key from the paths given', 'post', info)
            p.prove(o.has, 'a TLS server has a TLS context', 'post', info)
            if o.has is True:
                x = [v for v in o.val.f.values() if isinstance(v, Ptr)]
                p.prove(len(x) == 1 and x[0].lv.key() in G['ctx'], 'it is the one the files were loaded into', 'post', info)
        k = [x['name'] for x in I.all_fields(V) if I.T(x).strip().simple == 'ServerConfiguration']
        if len(k) != 1:
            raise ToolLimit('the server does not keep its configuration')
        p.prove(Eq(f[k[0]].f['cleartext'], clear), 'the server keeps the cleartext option', 'post', info)
        p.reached()
    return Unit('Http2Server::Http2Server', V + '::' + V, h, ctx=dict(raii=True, externs=TLS))


def unit_transport_kind():
    """TLS for every connection of a TLS server, none for a cleartext one"""
    def h(I, p):
        from .server import mk_server
        o = mk_server(I, p)
        G = p.ghost
        s, fd = sock(I, p, 'client')
        tls = o.load(p).f[G['tlsname']].val
        used = []

        def x_new(I, args, node):
            used.append(I.rv(args[0]))
            return Ptr(p.newlv('ssl.new', Opaque('SSL', 'new'), None)) if p.choose(2) else Null()
        I.ctx['externs'] = dict(SYS, SSL_new=x_new)
        clear = G['clear']
        info = lambda m: dict(op='transport', cleartext=z3.is_true(m.eval(zb(clear), True)))
        try:
            r = I.exec_function(the_fn(I, V, 'create_transport'), o, [s])
        except CppThrow:
            p.prove(Not(clear), 'a cleartext transport is always set up', 'post', info)
            return
        if not isinstance(r, UPtr) or r.cell is None:
            p.prove(False, 'a transport is created', 'post', info)
            return
        cls = r.cell.load(p).cls
        p.prove(Eq(clear, cls == 'TcpTransport'), 'configured for cleartext, no connection uses TLS', 'post', info)
        p.prove(Eq(Not(clear), cls == 'TlsTransport'), 'configured for TLS, every connection uses TLS', 'post', info)
        if cls == 'TlsTransport':
            p.prove(len(used) == 1 and isinstance(used[0], Ptr) and used[0].lv.key() == next(v for v in tls.f.values() if isinstance(v, Ptr)).lv.key(), 'with the server\'s TLS context', 'post', info)
        p.reached()
    return Unit('Http2Server::create_transport', V + '::create_transport', h, ctx=dict(raii=True, externs=SYS))


def unit_to_config():
    def h(I, p):
        a = I.symbolic(parse_type('Args'), 'args')
        lv = p.newlv('args', a, parse_type('Args'))
        r = I.exec_function(the_fn(I, 'Args', 'to_server_config'), lv, [])
        p.prove(Eq(r.f['cleartext'], a.f['cleartext']), 'the cleartext option is passed on', 'post')
        for n in ('cert_path', 'key_path'):
            given = Not(Eq(a.f[n].len, 0))
            p.prove(Eq(r.f[n].has, given), '%s is set iff it was given' % n, 'post')
            if p.decide(r.f[n].has):
                prove_eq(p, r.f[n].val, a.f[n], '%s is passed on unchanged' % n, 'post')
        p.reached()
    return Unit('Args::to_server_config', 'Args::to_server_config', h, ctx=dict(raii=True))


# --- command line: CLI11 is a contract: add_option(names, variable) stores the value given in the variable -----------
OPTIONS = {'--port': 'port', '--log-level': 'log_level', '--static': 'static_map', '--access-log': 'access_log_path', '--cleartext': 'cleartext',
           '--tls-cert-path': 'cert_path', '--tls-key-path': 'key_path', '--custom-404-file-path': 'status_404_file_path', '--under-test': 'under_test', '--status-page': 'status_page'}
FLAGS = ('--cleartext', '--under-test', '--status-page')


def unit_register():
    def h(I, p):
        seen = {}

        def lit(a):
            s = L.find_literal(a)
            return None if s is None else bytes(s).decode('latin-1').rstrip('\0')

        def add(flag):
            def f(I, lv, args, node):
                n = lit(args[0])
                if n is None:
                    raise ToolLimit('an option whose name is not a literal')
                v = I.ev(args[1])
                if not isinstance(v, LV):
                    raise ToolLimit('an option that is not bound to a variable')
                o = dict(flag=flag, lv=v, default=None, env=None, calls=[])
                for x in n.replace(' ', '').split(','):
                    seen[x] = o
                return Ptr(p.newlv('option.' + n, Opaque('CLI::Option', len(seen), o), None))
            return f

        def call(name):
            def f(I, lv, args, node):
                o = lv.load(p).data
                o['calls'].append(name)
                if name == 'envname':
                    o['env'] = lit(args[0])
                if name == 'default_val':
                    o['default'] = args[0]
                return Ptr(lv)
            return f

        def other(I, lv, args, node):
            return NULL
        names = lambda d: {k: v for n, v in d.items() for k in (n, n.replace('CLI::', ''))}
        I.ctx['ext_methods'] = names({'CLI::App::add_option': add(False), 'CLI::App::add_flag': add(True), 'CLI::App::set_version_flag': other,
                                **{'CLI::Option::' + n: call(n) for n in ('default_val', 'check', 'expected', 'envname', 'required', 'transform', 'description', 'group', 'type_name')}})
        app = p.newlv('app', Opaque('CLI::App', 0), parse_type('CLI::App'))
        fn = the_fn(I, 'Args', 'register_opts')
        I.exec_function(fn, None, [app])

        def nrvo(n, out):
            if n.get('kind') == 'VarDecl' and n.get('nrvo'):
                out.append(n['name'])
            for c in n.get('inner', []):
                nrvo(c, out)
            return out
        vs = nrvo(fn, [])
        for n, fld in OPTIONS.items():
            o = seen.get(n)
            p.prove(o is not None, 'option %s exists' % n, 'post')
            if o is None:
                continue
            k = o['lv'].key()
            p.prove(k[-1] == fld, 'option %s sets %s' % (n, fld), 'post')
            p.prove(isinstance(o['lv'], LVField) and any(v in str(k) for v in vs), 'option %s is bound to the object that is returned' % n, 'post')
            p.prove(o['flag'] == (n in FLAGS), 'option %s takes a value unless it is a flag' % n, 'post')
            if n in ('--tls-cert-path', '--tls-key-path'):
                p.prove(o['default'] is None, 'option %s is unset when not given' % n, 'post')
                p.prove(o['env'] == {'--tls-cert-path': 'ION_TLS_CERT_PATH', '--tls-key-path': 'ION_TLS_KEY_PATH'}[n], 'option %s can be given in the environment' % n, 'post')
        p.prove(len({id(o) for o in seen.values()}) == len({str(o['lv'].key()) for o in seen.values()}), 'no two options set the same variable', 'post')
        p.reached()
    return Unit('Args::register_opts', 'Args::register_opts', h)


def units_c24():
    return [unit_register(), unit_validate(), unit_server(), unit_transport_kind(), unit_to_config()]

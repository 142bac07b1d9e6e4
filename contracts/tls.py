"""TLS set-up (C31): the application protocol, the life of the TLS contexts, the key log."""
from vc.verify import *
from vc import lib as L
from .sockets import start, sock, owned, SYS
from .static import EC, err
from .config import TLS, ctx_of, config, EXISTS

C = 'TlsContext'
NEGOTIATED, NO_OVERLAP = 1, 2
OK = 0                                   # SSL_TLSEXT_ERR_OK


def load(p, v):
    return v.load(p) if isinstance(v, LV) else v


def const(v):
    v = simp(v) if is_sym(v) else v
    if is_sym(v):
        raise ToolLimit('a symbolic constant')
    return int(v)


# --- the application protocol ---------------------------------------------------------------------------
def octets_at(I, p, ptr, n, what):
    """(lv, offset) of n octets that exist"""
    if isinstance(ptr, Null):
        p.require(Eq(n, 0), '%s: no octets through a null pointer' % what)
        return None, 0
    if not isinstance(ptr, Ptr) or ptr.lv is None:
        raise ToolLimit('%s through %r' % (what, ptr))
    i = 0 if ptr.idx is None else ptr.idx
    s = L.seq_of(I, ptr.lv)
    p.require(And(ule(i, s.len), ule(n, sub(s.len, i))), '%s: within the octets there are' % what)
    return ptr.lv, i


def protocols(p, s, i, n):
    """the entries (offset, length) of a protocol list of known content, or None"""
    out, k = [], 0
    while k < n:
        l = s.at(p, add(i, k))
        l = simp(l) if is_sym(l) else l
        if is_sym(l):
            return None
        if int(l) == 0 or k + 1 + int(l) > n:
            return None
        out.append((k + 1, int(l)))
        k += 1 + int(l)
    return out


def x_select(I, args, node):
    """SSL_select_next_proto(out, outlen, server, n, client, m): the first protocol of the server's list that the client offers (1), else (2)
    whatever stands first in the client's list"""
    p = I.p
    out, outlen = I.rv(args[0]), I.rv(args[1])
    n = const(I.rv(args[3]))
    slv, si = octets_at(I, p, I.rv(args[2]), n, "the server's protocols")
    clv, ci = octets_at(I, p, I.rv(args[4]), simp(z3.ZeroExt(32, bv(I.rv(args[5]), 32))) if is_sym(I.rv(args[5])) else I.rv(args[5]), "the client's protocols")
    ps = protocols(p, L.seq_of(I, slv), si, n)
    p.require(bool(ps), "the server's protocols are a list of protocols")
    k = p.choose(1 + len(ps))
    if k < len(ps):
        o, l = ps[k]
        L.deref(I, out).store(p, Ptr(slv, add(si, o)))
        L.deref(I, outlen).store(p, l)
        p.ghost['selected'] = 'ours'
        return NEGOTIATED
    p.ghost['selected'] = 'theirs'
    m = p.freshbv('len', 8)
    if clv is not None:
        cl = L.seq_of(I, clv).len
        p.fact(ult(add(1, zext(m)), cl))
        L.deref(I, out).store(p, Ptr(clv, add(ci, 1)))
    L.deref(I, outlen).store(p, m)
    return NO_OVERLAP


def zext(m):
    return simp(z3.ZeroExt(56, m))


def unit_alpn():
    def h(I, p):
        begin(p)
        p.ghost['selected'] = None
        t, x = made(I, p)
        if t is None:
            return
        cb = p.ghost['ctx'][x.lv.key()].get('alpn')
        p.prove(bool(cb), 'offers of application protocols are answered', 'post')
        if not cb:
            return
        if not isinstance(cb[0], (Closure, L.FnRef)):
            raise ToolLimit('the callback is %r' % (cb[0],))
        offer = p.bytes_('offer')
        p.assume(And(ult(1, offer.len), ult(offer.len, 1 << 16)))
        olv = p.newlv('offer', offer, parse_type('std::vector<unsigned char>'))
        U8P = parse_type('const unsigned char *')
        out = p.newlv('out', NULL, U8P)
        outlen = p.newlv('outlen', p.freshbv('outlen', 8), parse_type('unsigned char'))
        r = L.call_value(I, cb[0], [NULL, Ptr(out), Ptr(outlen), Ptr(olv, 0), simp(z3.Extract(31, 0, bv(offer.len, 64))), cb[1]], parse_type('int'))
        info = lambda m: dict(op='alpn', selected=p.ghost['selected'])
        p.prove(Eq(r, OK), 'the offer is answered with a protocol', 'post', info)
        o = out.load(p)
        n = outlen.load(p)
        p.prove(Eq(n, 2), 'the name has two octets', 'post', info)
        if not isinstance(o, Ptr) or o.lv is None:
            p.prove(False, 'a protocol is named', 'post', info)
            return
        lv = o.lv
        while isinstance(lv, (LVField, LVElem)):
            lv = lv.base if hasattr(lv, 'base') else lv.lv
        p.prove(isinstance(lv, LVVal) or lv.key() == olv.key(), 'the name stays valid after the call (it is static or part of the offer)', 'post', info)
        s = L.seq_of(I, o.lv)
        i = 0 if o.idx is None else o.idx
        p.prove(And(ult(add(i, 1), s.len)), 'the name exists', 'post', info)
        p.prove(And(Eq(s.at(p, i), ord('h')), Eq(s.at(p, add(i, 1)), ord('2'))), 'the protocol is h2', 'post', info)
        p.reached()
    return Unit('TlsContext::alpn_callback', C + '::alpn_callback', h, ctx=dict(CTX, externs=dict(CTX['externs'], SSL_select_next_proto=x_select)))


# --- the life of a context ------------------------------------------------------------------------------------
def x_cb(what):
    def f(I, args, node):
        p = I.p
        c = ctx_of(p, I.rv(args[0]))
        c[what] = [I.rv(a) for a in args[1:]]
    return f


def x_free(I, args, node):
    p = I.p
    v = I.rv(args[0])
    if isinstance(v, Null):
        return
    c = p.ghost['ctx'].get(v.lv.key())
    if c is None:
        raise ToolLimit('an SSL_CTX from elsewhere')
    p.prove(not c['freed'], 'a TLS context is released once', 'post')
    c['freed'] = True


def x_ssl_new(I, args, node):
    p = I.p
    v = I.rv(args[0])
    ctx_of(p, v)
    if p.choose(2):
        p.ghost['ssl'].append(None)
        return NULL
    s = Ptr(p.newlv('ssl', Opaque('SSL', len(p.ghost['ssl'])), None))
    p.ghost['ssl'].append((s, v.lv.key()))
    return s


def x_getenv(I, args, node):
    p = I.p
    s = L.find_literal(args[0])
    if s is None:
        raise ToolLimit('an environment variable whose name is not a literal')
    n = bytes(s).decode('latin-1').rstrip('\0')
    p.ghost['env'].append(n)
    if n != 'SSLKEYLOGFILE':
        return NULL if p.choose(2) else L.CStr(p.bytes_('env.' + n))
    if p.ghost['file'] is None:
        return NULL
    return L.CStr(p.ghost['file'])


def x_query(w):
    """a question to the file system: any answer, or an error"""
    def f(I, args, node):
        p = I.p
        p.ghost['fserr'] = None
        if err(I, args, 1):
            return (1 << 64) - 1 if w == 64 else False
        return p.freshbv('size', 64) if w == 64 else p.freshbool('answer')
    return f


def c_ofstream(I, t, args, node):
    p = I.p
    real = [a for a in args if not L.default_arg(a)]
    if not real:
        return Rec('ofstream', {'n': None, 'open': False, 'app': False})
    v = I.ev(real[0])
    v = load(p, v)
    s = v.s if isinstance(v, L.CStr) else v
    mode = const(I.rv(real[1])) if len(real) > 1 else 16
    ok = p.choose(2) == 0
    i = len(p.ghost['streams'])
    p.ghost['streams'].append(dict(name=s, mode=mode, open=ok, written=[]))
    return Rec('ofstream', {'n': i, 'open': ok, 'app': bool(mode & 1)})


def st(I, lv):
    v = load(I.p, lv)
    if not isinstance(v, Rec) or v.cls != 'ofstream' or v.f['n'] is None:
        raise ToolLimit('a stream from elsewhere')
    return I.p.ghost['streams'][v.f['n']]


def o_put(I, args, node):
    p = I.p
    lv = I.ev(args[0])
    s = st(I, lv)
    v = load(p, I.ev(args[1]))
    if isinstance(v, L.CStr):
        v = v.s
    elif isinstance(v, int) or is_sym(v):
        v = Lit([v])
    elif isinstance(v, Ptr):
        lit = L.find_literal(args[1])
        if lit is None:
            raise ToolLimit('a string from elsewhere is written')
        v = Lit(list(bytes(lit).rstrip(b'\0')))
    elif isinstance(v, L.FnRef) and v.decl.get('name') in ('endl', 'flush'):
        v = Lit([10]) if v.decl['name'] == 'endl' else Lit(())
    elif not hasattr(v, 'len'):
        raise ToolLimit('%r is written' % (v,))
    if s['open']:
        s['written'].append(v)
    return lv


def m_name(n, f):
    return {c + '::' + n: f for c in ('std::basic_ofstream', 'std::basic_ostream', 'std::basic_ios', 'std::ofstream')}


OUT = ('std::basic_ofstream', 'std::basic_ostream', 'std::basic_ios', 'std::ofstream')
STREAM = dict(ext_ctors={c: c_ofstream for c in OUT}, ext_globals={'app': 1, 'ate': 2, 'binary': 4, 'in': 8, 'out': 16, 'trunc': 32},
              ext_methods={**m_name('is_open', lambda I, lv, a, n: st(I, lv)['open']), **m_name('operator bool', lambda I, lv, a, n: st(I, lv)['open']),
                           **m_name('good', lambda I, lv, a, n: st(I, lv)['open']), **m_name('fail', lambda I, lv, a, n: not st(I, lv)['open']),
                           **m_name('flush', lambda I, lv, a, n: lv), **m_name('close', lambda I, lv, a, n: None)},
              ext_ops={**{(c, '<<'): o_put for c in OUT}, **{(c, '!'): (lambda I, a, n: not st(I, I.ev(a[0]))['open']) for c in OUT}})

CTX = dict(raii=True, externs=dict(TLS, SSL_CTX_free=x_free, SSL_CTX_set_alpn_select_cb=x_cb('alpn'), SSL_CTX_set_keylog_callback=x_cb('keylog'), SSL_new=x_ssl_new, getenv=x_getenv), **STREAM)


def begin(p):
    start(p)
    p.ghost.update(asked=[], ctx={}, net=[], ssl=[], env=[], streams=[], file=None)


def paths(I, p):
    c = I.symbolic(parse_type('ion::ServerConfiguration'), 'config')
    return [c.f['cert_path'].val, c.f['key_path'].val]


def made(I, p):
    """a context, or None when it could not be made"""
    try:
        lv = construct(I, C, [p.newlv('path%d' % i, v, parse_type('std::filesystem::path')) for i, v in enumerate(paths(I, p))])
    except CppThrow:
        for c in p.ghost['ctx'].values():
            p.prove(c['freed'], 'a TLS context that cannot be set up is released', 'post')
        return None, None
    x = [v for v in lv.load(p).f.values() if isinstance(v, Ptr) and v.lv.key() in p.ghost['ctx']]
    p.prove(len(x) == 1, 'a TLS context is held', 'post')
    p.prove(len(p.ghost['ctx']) == 1, 'no other TLS context is made', 'post')
    return lv, x[0]


def unit_context():
    def h(I, p):
        begin(p)
        lv, x = made(I, p)
        if lv is None:
            return
        c = p.ghost['ctx'][x.lv.key()]
        p.prove(not c['freed'], 'a TLS context that is held is not released', 'post')
        f = c.get('alpn')
        p.prove(bool(f), 'offers of application protocols are answered', 'post')
        try:
            s = I.exec_function(the_fn(I, C, 'create_ssl'), lv, [])
        except CppThrow:
            p.prove(p.ghost['ssl'] == [None], 'creating a TLS object fails only when OpenSSL gives none', 'post')
        else:
            o = p.ghost['ssl']
            p.prove(len(o) == 1 and o[0] is not None and isinstance(s, Ptr) and s.lv.key() == o[0][0].lv.key(), 'the TLS object OpenSSL gave is returned', 'post')
        p.prove(not c['freed'], 'the TLS context stays', 'post')
        L.destroy(I, lv, parse_type('ion::' + C))
        p.prove(c['freed'], 'the TLS context is released with its owner', 'post')
        p.reached()
    return Unit('TlsContext::TlsContext, create_ssl, ~TlsContext', C + '::' + C, h, ctx=CTX)


def unit_keylog():
    def h(I, p):
        begin(p)
        lv, x = made(I, p)
        if lv is None:
            return
        c = p.ghost['ctx'][x.lv.key()]
        f = c.get('keylog')
        if not f:
            p.prove(False, 'the session keys can be logged', 'post')
            return
        line = p.bytes_('line')
        if p.choose(2):
            p.ghost['file'] = p.bytes_('SSLKEYLOGFILE')
        g = f[0]
        p.ghost['env'].clear()
        if not isinstance(g, (Closure, L.FnRef)):
            raise ToolLimit('the key log callback is %r' % (g,))
        L.call_value(I, g, [NULL, L.CStr(line)], parse_type('void'))
        S = p.ghost['streams']
        fl = p.ghost['file']
        if fl is None:
            p.prove(not S, 'without SSLKEYLOGFILE session keys are written nowhere', 'post')
            p.reached()
            return
        p.prove(len(S) == 1, 'one file is opened', 'post')
        if len(S) != 1:
            return
        s = S[0]
        prove_eq(p, s['name'], fl, 'the file opened is the one SSLKEYLOGFILE names', 'post')
        p.prove(bool(s['mode'] & 1), 'the file is appended to', 'post')
        if s['open']:
            w = EMPTY
            for v in s['written']:
                w = cat(w, v)
            prove_eq(p, w, cat(line, Lit([10])), 'the line is written, with a newline', 'post')
        p.reached()
    q = dict(file_size=x_query(64), **{n: x_query(1) for n in ('exists', 'is_regular_file', 'is_directory', 'is_symlink', 'is_empty')})
    return Unit('TlsContext::keylog', C + '::' + C, h, ctx=dict(CTX, externs=dict(CTX['externs'], **q), ext_methods=dict(CTX['ext_methods'], **EC)))


# --- the TLS object of a connection --------------------------------------------------------------------------
T = 'TlsTransport'


def x_set_fd(I, args, node):
    p = I.p
    s = one(p, I.rv(args[0]))
    r = p.freshbv('set_fd', 32)
    p.fact(z3.And(r >= 0, r <= 1))
    s['fd'] = (bv(I.rv(args[1]), 32), r)
    return r


def one(p, v):
    if isinstance(v, Null):
        p.require(False, 'a TLS object is used only when there is one')
        raise PathEnd()
    for s in p.ghost['conn']:
        if isinstance(v, Ptr) and s['key'] == v.lv.key():
            p.require(not s['freed'], 'a TLS object is not used after it was released')
            return s
    raise ToolLimit('a TLS object from elsewhere')


def x_ssl_free(I, args, node):
    p = I.p
    v = I.rv(args[0])
    if isinstance(v, Null):
        return
    for s in p.ghost['conn']:
        if isinstance(v, Ptr) and s['key'] == v.lv.key():
            p.prove(not s['freed'], 'a TLS object is released once', 'post')
            s['freed'] = True
            return
    raise ToolLimit('a TLS object from elsewhere')


def x_new_conn(I, args, node):
    p = I.p
    v = I.rv(args[0])
    ctx_of(p, v)
    if p.choose(2):
        return NULL
    x = Ptr(p.newlv('ssl%d' % len(p.ghost['conn']), Opaque('SSL', len(p.ghost['conn'])), None))
    p.ghost['conn'].append(dict(key=x.lv.key(), ctx=v.lv.key(), freed=False, fd=None))
    return x


def unit_connection():
    def h(I, p):
        begin(p)
        G = p.ghost
        G['conn'] = []
        s, fd = sock(I, p, 'client')
        p.assume(owned(fd))
        c = p.newlv('ctx', Opaque('SSL_CTX', 0), None)
        G['ctx'][c.key()] = dict(freed=False)
        f = {x['name']: Ptr(c) if I.T(x).kind == 'ptr' else I.symbolic(I.T(x), x['name']) for x in I.all_fields(C)}
        t = p.newlv('tls', Rec(C, f), parse_type('ion::' + C))
        try:
            lv = construct(I, T, [s, t])
        except CppThrow:
            for x in G['conn']:
                p.prove(x['freed'], 'a TLS object that cannot be set up is released', 'post')
            p.prove(not G['conn'] or Or(*[Not(Eq(x['fd'][1], 1)) for x in G['conn'] if x['fd']]) if all(x['fd'] for x in G['conn']) else False,
                    'setting up fails only when OpenSSL refuses', 'post')
            return
        G['conn'] or p.prove(False, 'a TLS object is made for the connection', 'post')
        n = [x for x in G['conn'] if not x['freed']]
        p.prove(len(n) == 1, 'a connection has one TLS object', 'post')
        if len(n) != 1:
            return
        p.prove(n[0]['ctx'] == c.key(), "it belongs to the server's TLS context", 'post')
        p.prove(n[0]['fd'] is not None and And(Eq(n[0]['fd'][0], fd), Eq(n[0]['fd'][1], 1)), 'it reads and writes the descriptor of the connection', 'post')
        m = L.transfer(I, lv, parse_type('ion::' + T), True) if p.choose(2) else None
        if m is not None:
            m = p.newlv('moved', m, parse_type('ion::' + T))
            L.destroy(I, lv, parse_type('ion::' + T))
            p.prove(not n[0]['freed'], 'the TLS object of a transport that was moved stays', 'post')
            lv = m
        p.prove(not n[0]['freed'], 'the TLS object stays as long as its connection', 'post')
        L.destroy(I, lv, parse_type('ion::' + T))
        p.prove(n[0]['freed'], 'the TLS object is released with its connection', 'post')
        p.prove(not G['ctx'][c.key()]['freed'], "the server's TLS context stays", 'post')
        p.reached()
    return Unit('TlsTransport(SocketFd&&), ~TlsTransport', T + '::' + T, h, ctx=dict(CTX, externs=dict(SYS, SSL_new=x_new_conn, SSL_set_fd=x_set_fd, SSL_free=x_ssl_free)))


def unit_assign():
    """one transport assigned to another, or to itself: every TLS object and every descriptor has one owner throughout"""
    def h(I, p):
        begin(p)
        G = p.ghost
        G['conn'] = []
        tt = parse_type('ion::' + T)

        def make(n):
            s, fd = sock(I, p, n)
            v = NULL
            if p.choose(2):
                v = Ptr(p.newlv('ssl%d' % len(G['conn']), Opaque('SSL', len(G['conn'])), None))
                G['conn'].append(dict(key=v.lv.key(), ctx=None, freed=False, fd=None))
            f = {}
            for x in I.all_fields(T):
                f[x['name']] = v if I.T(x).kind == 'ptr' else s.load(p) if I.T(x).strip().simple == 'SocketFd' else I.symbolic(I.T(x), x['name'])
            return p.newlv(n, Rec(T, f), tt), fd, (G['conn'][-1] if v is not NULL else None)
        a, fa, xa = make('target')
        same = p.choose(2)
        b, fb, xb = (a, fa, xa) if same else make('source')
        if not same:
            p.assume(Or(Not(owned(fa)), Not(owned(fb)), Not(Eq(fa, fb))))
        ms = L.user_special(I, T, 'operator=')
        if not ms:
            p.reached()
            return
        I.exec_function(ms[0], a, [b])
        held = lambda lv: [n for n, v in lv.load(p).f.items() if isinstance(v, Ptr)]
        objs = lambda lv: [x for x in G['conn'] if any(v.lv.key() == x['key'] for v in lv.load(p).f.values() if isinstance(v, Ptr))]
        p.prove(objs(a) == ([xb] if xb else []), 'the target has the TLS object of the source, and only that', 'post')
        if xb:
            p.prove(not xb['freed'], 'the TLS object of a transport that was moved stays', 'post')
        sfd = lambda lv: [v.f for v in lv.load(p).f.values() if isinstance(v, Rec) and v.cls.split('::')[-1] == 'SocketFd'][0]['fd_']
        p.prove(Implies(owned(fb), Eq(sfd(a), fb)), 'the target has the descriptor of the source', 'post')
        L.destroy(I, a, tt)
        if not same:
            L.destroy(I, b, tt)
        for x in G['conn']:
            p.prove(x['freed'], 'every TLS object is released with its last owner', 'post')
        p.reached()
    return Unit('TlsTransport::operator=(TlsTransport&&)', T + '::operator=', h, ctx=dict(CTX, externs=dict(SYS, SSL_new=x_new_conn, SSL_set_fd=x_set_fd, SSL_free=x_ssl_free)))


def units_c31():
    return [unit_alpn(), unit_context(), unit_keylog(), unit_connection(), unit_assign()]

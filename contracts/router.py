"""Router: which handler a request gets, wrapped in which middleware."""
from vc.verify import *
from vc.fold import *
from vc import lib as L
from vc.lib import CStr

R = 'Router'
SHT = 'StaticFileHandler'
SID = UF('router.static', Obj, B64, Obj)            # the static handler at an index
MATCH = UF('static.matches', Obj, Str, z3.BoolSort())


def S_(p, x):
    """the sequence a string parameter holds"""
    if isinstance(x, LV):
        x = x.load(p)
    if isinstance(x, CStr):
        x = x.s
    if isinstance(x, Lit) and x.e and x.e[-1] == 0:
        x = Lit(x.e[:-1])
    if not isinstance(x, Seq):
        raise ToolLimit('not a string: %r' % (x,))
    return x


def txt(s):
    return Lit(list(s.encode() if isinstance(s, str) else s))


def term_of(p, s):
    """identity of a string as a whole"""
    if isinstance(s, Slice) and p.entails(And(Eq(s.off, 0), Eq(s.len, s.base.len))):
        s = s.base
    if not isinstance(s, Base):
        raise ToolLimit('a string that is not the one passed: %r' % (s,))
    return s.t


def static_maker(p, term, i):
    return UPtr(p.newlv('static', Rec(SHT, {'#id': SID(term, bv(i, 64))}), parse_type('ion::' + SHT)))


def sid(p, lv):
    v = lv.load(p)
    if not isinstance(v, Rec) or '#id' not in v.f:
        raise ToolLimit('a static handler that is not one of the router')
    return v.f['#id']


class Matches:
    """proved in unit_matches: whether the path starts with the mapping's prefix"""
    name = SHT + '::matches'

    def apply(self, I, this, vals):
        return MATCH(sid(I.p, this), term_of(I.p, S_(I.p, vals[0])))


class Handle:
    """C16, C17: the response of a static mapping"""
    name = SHT + '::handle'

    def apply(self, I, this, vals):
        p = I.p
        v = vals[1]
        r = I.symbolic(parse_type('ion::HttpResponse'), 'static.response')
        p.ghost['calls'].append(('static', sid(p, this), [S_(p, vals[0]), v.load(p) if isinstance(v, LV) else v], r))
        return r


def fn_named(p, name):
    """an opaque handler: records its calls"""
    k = p.fresh(name, Obj)

    def call(I, vals):
        r = I.symbolic(parse_type('ion::HttpResponse'), name + '.response')
        I.p.ghost['calls'].append((name, k, [v.load(I.p) if isinstance(v, LV) else v for v in vals], r))
        return r
    return FnSpec(name, call, k)


def wrapper(p, name):
    """an opaque middleware (or chain): records what it wraps and gives a new handler"""
    k = p.fresh(name, Obj)

    def call(I, vals):
        v = vals[0]
        v = v.load(I.p) if isinstance(v, LV) else v
        out = fn_named(I.p, name + '(.)')
        I.p.ghost['wraps'].append((name, v, out))
        return out
    return FnSpec(name, call, k)


def mk_router(I, p):
    f = {}
    for c in I.all_fields(R):
        t = I.T(c).strip()
        n = c['name']
        raw = (t.raw or '') + c['type'].get('qualType', '')
        if t.name == 'std::vector' and t.args[0].simple == 'Route':
            f[n] = Base(p, p.fresh('routes', Obj), I.elem_maker(t.args[0]))
            p.ghost['routes'], p.ghost['routes.f'] = f[n], n
        elif t.name == 'std::vector' and t.args[0].name == 'std::unique_ptr':
            f[n] = Base(p, p.fresh('statics', Obj), static_maker)
            p.ghost['statics'], p.ghost['statics.f'] = f[n], n
        elif t.name == 'std::function' and ('Middleware' in raw or raw.count('std::function') > 1):
            f[n] = wrapper(p, 'chain')
            p.ghost['chain'], p.ghost['chain.f'] = f[n], n
        elif t.name == 'std::function':
            f[n] = fn_named(p, 'default')
            p.ghost['default'], p.ghost['default.f'] = f[n], n
        else:
            raise ToolLimit('field %s of Router' % n)
    for x in ('routes', 'statics', 'chain', 'default'):
        if x not in p.ghost:
            raise ToolLimit('no field of Router for its %s' % x)
    for x in ('routes', 'statics'):
        p.fact(z3.ULE(p.ghost[x].len, z3.BitVecVal(1 << 32, 64)))
    p.ghost['calls'], p.ghost['wraps'] = [], []
    return p.newlv('router', Rec(R, f), parse_type('ion::' + R))


class Pick(AutoFold):
    """A loop over the routes or the static mappings: none so far matches, or one (for routes: the first) was taken."""
    start = 'none'

    def __init__(self, what, path, method):
        self.what, self.path, self.method = what, path, method

    def entry(self, st):
        for lv, t, loc in st.items():
            v = lv.load(st.p)
            if isinstance(v, IterV):
                c = v.lv.load(st.p)
                if isinstance(c, FnSeq) and isinstance(c.key, tuple) and c.key[0] == 'reversed':
                    if self.what == 'routes':
                        raise ToolLimit('a search of the routes from the last to the first')
                    self.back_to_front = True
        AutoFold.entry(self, st)

    back_to_front = False

    def el(self, p, j):
        """the entry looked at in iteration j"""
        s = p.ghost[self.what]
        return s.at(p, sub(sub(s.len, 1), j) if self.back_to_front else j)

    def pred(self, p, j):
        e = self.el(p, j)
        if self.what == 'routes':
            return route_matches(p, j, self.path, self.method)
        return MATCH(sid(p, e.cell), self.path.t)

    def arbitrary(self, st):
        p = st.p
        i = p.ghost['i'] = p.freshbv(self.what, 64)
        p.assume(ule(i, p.ghost[self.what].len))
        if self.what == 'routes':
            p.ghost['cands'].append(i)
        seen = i
        if p.ghost['g'] == 'some':
            j = seen = p.ghost['taken'] = p.freshbv('taken', 64)
            p.assume(ult(j, i))
            p.assume(self.pred(p, j))
            if self.what == 'routes':
                p.ghost['cands'].append(j)
            else:
                return
        p.ghost.setdefault('passed', []).append((seen, lambda k: self.pred(p, k)))

    def first(self, st):
        pass

    def step(self, st):
        p = st.p
        G = p.ghost
        G['path2'] = ()
        if not p.decide(ult(G['i'], G[self.what].len)):
            G['g2'] = None
            return
        m = p.decide(self.pred(p, G['i']))
        G['g2'] = 'some' if m or G['g'] == 'some' else 'none'
        G['hit'] = m

    def owns(self, st, loc, v):
        return isinstance(v, (FnSpec, Closure))

    def chosen(self, p, j):
        e = self.el(p, j)
        if self.what == 'routes':
            return e.f['handler']

        def call(I, vals):
            r = I.symbolic(parse_type('ion::HttpResponse'), 'static.response')
            I.p.ghost['calls'].append(('static', sid(I.p, e.cell), [self.path, eq_formula(I.p, self.method, txt('HEAD'))], r))
            return r
        return FnSpec('static', call, ('static', j))

    def other_value(self, st, loc, old):
        return old if st.p.ghost['g'] == 'none' else self.chosen(st.p, st.p.ghost['taken'])

    def check_other(self, st, loc, v):
        p, G = st.p, st.p.ghost
        old = st.entry[loc]
        if G['g2'] == 'none':
            p.prove(isinstance(v, FnSpec) and val_same(v, old), 'an entry that does not match is passed over', 'inv')
        elif G['g'] == 'some' and isinstance(v, FnSpec) and val_same(v, self.chosen(p, G['taken'])):
            return
        else:
            if not G['hit']:
                p.prove(False, 'what was taken is kept', 'inv')
                return
            if self.what == 'routes' and G['g'] == 'some':
                p.prove(False, 'the first matching route is kept', 'inv')
                return
            check_target(st.I, p, v, self.path, self.method, (self.what, self.el(p, G['i'])))

    def seq_value(self, st, loc, old):
        return old

    def check_seq(self, st, v):
        p = st.p
        p.prove(any(val_same(v, st.entry[l]) for _, _, l in st.items() if kind_of(st.entry[l]) == 'seq'), 'what is searched is not changed', 'inv')


def route_matches(p, j, path, method):
    e = p.ghost['routes'].at(p, j)
    return And(eq_formula(p, e.f['path'], path), eq_formula(p, e.f['method'], method))


def app(I, f, vals, rt):
    """a route's handler is called"""
    p = I.p
    r = I.symbolic(parse_type('ion::HttpResponse'), 'route.response')
    p.ghost['calls'].append(('route', f.key, [v.load(p) if isinstance(v, LV) else v for v in vals], r))
    return r


def invoke(I, p, f):
    k = len(p.ghost['calls'])
    req = I.symbolic(parse_type('ion::HttpRequest'), 'request')
    rl = p.newlv('request', req, parse_type('ion::HttpRequest'))
    try:
        r = L.call_value(I, f, [rl])
    except CppThrow as e:
        p.prove(False, 'a handler does not throw %s of its own' % e.cls, 'post')
        raise PathEnd()
    return req, (r.load(p) if isinstance(r, LV) else r), p.ghost['calls'][k:]


def check_target(I, p, f, path, method, at=None):
    """one call of the handler value is exactly one call of a route, a static mapping or the default handler; which one"""
    if not isinstance(f, (FnSpec, Closure)):
        p.prove(False, 'what is chosen is a handler', 'post')
        raise PathEnd()
    req, r, cs = invoke(I, p, f)
    p.prove(len(cs) == 1, 'a request is handled by exactly one handler', 'post')
    if len(cs) != 1:
        raise PathEnd()
    what, key, args, resp = cs[0]
    p.prove(Eq(r.f['status_code'], resp.f['status_code']), 'the response is passed on: status', 'post')
    prove_eq(p, r.f['body'], resp.f['body'], 'the response is passed on: body', 'post')
    prove_eq(p, r.f['headers'], resp.f['headers'], 'the response is passed on: headers', 'post')
    if what != 'static':
        q = args[0]
        for n in ('method', 'path', 'headers'):
            prove_eq(p, q.f[n], req.f[n], 'the handler is given the request: ' + n, 'post')
    else:
        prove_eq(p, args[0], path, 'a static mapping is asked for the requested path', 'post')
        h = eq_formula(p, method, txt('HEAD'))
        p.prove(And(Implies(args[1], h), Implies(h, args[1])), 'a HEAD request is answered as HEAD, a GET as GET', 'post')
    if at:
        no_dangling(p, f, p.ghost['live'])
        for w, e in [at]:
            p.prove((w == 'routes') == (what == 'route') and key == (e.f['handler'].key if w == 'routes' else sid(p, e.cell)), 'the entry that matches is the one taken', 'inv')
    return what, key


def roots(p, f, seen=None):
    """cells a handler value refers to without holding them"""
    seen = set() if seen is None else seen
    out = []
    if isinstance(f, Closure) and id(f) not in seen:
        seen.add(id(f))
        for fd, vid, v in f.caps.values():
            if isinstance(v, LV):
                out.append(v)
            elif isinstance(v, Ptr) and isinstance(v.lv, LV):
                out.append(v.lv)
            elif isinstance(v, Closure):
                out += roots(p, v, seen)
    return out


def no_dangling(p, f, live):
    for lv in roots(p, f):
        k = lv.key()[0]
        v = None
        try:
            v = lv.load(p)
        except Exception:
            pass
        if isinstance(v, Rec) and '#id' in v.f:
            continue
        p.prove(k in live, 'a handler refers to nothing that is gone once it is returned', 'post')


def opaque_loop(I, n, *whats):
    """which of the router's containers the loop goes over"""
    p = I.p
    hits = set()
    ids = set()
    names = set()

    def walk(x):
        if x.get('kind') == 'DeclRefExpr':
            ids.add(x['referencedDecl'].get('id'))
        if x.get('kind') == 'MemberExpr':
            names.add(x.get('name', '').lstrip('-.>'))
        for c in x.get('inner', []):
            walk(c)
    walk(n)
    for w in whats:
        if p.ghost[w + '.f'] in names:
            hits.add(w)
        for i in ids:
            v = I.frames[-1].vars.get(i)
            try:
                v = v.load(p) if isinstance(v, LV) else v
            except Exception:
                continue
            if v is p.ghost[w] or isinstance(v, IterV) and v.lv.load(p) is p.ghost[w]:
                hits.add(w)
    return hits.pop() if len(hits) == 1 else None


def unit_get_handler():
    def h(I, p):
        rt = mk_router(I, p)
        G = p.ghost
        b0 = dict(rt.load(p).f)
        path, method = p.bytes_('path'), p.bytes_('method')
        G['pick'], G['cands'], G['live'] = (path, method), [], {rt.key()[0]}
        pl, ml = p.newlv('path', path, parse_type('std::string')), p.newlv('method', method, parse_type('std::string'))
        r = I.exec_function(the_fn(I, R, 'get_handler'), rt, [pl, ml])
        r = r.load(p) if isinstance(r, LV) else r
        for n in b0:
            p.prove(val_same(rt.load(p).f[n], b0[n]), 'routing changes nothing', 'frame')
        j, q = p.freshbv('route', 64), p.freshbv('mapping', 64)
        facts(p, j)
        for x in (q, sub(sub(G['statics'].len, 1), q)):
            facts(p, x)
        for x in G['cands'] + [x[2] for x in G.get('firsts', [])]:
            facts(p, x)
        # the strings used to look it up are gone now
        pl.store(p, p.bytes_('later'))
        ml.store(p, p.bytes_('later'))
        w = G['wraps']
        ok = len(w) == 1 and w[0][0] == 'chain' and isinstance(r, FnSpec) and val_same(r, w[0][2])
        p.prove(ok, 'the handler returned is the chosen one wrapped in all middleware, once', 'post')
        if not ok:
            return
        no_dangling(p, w[0][1], G['live'])
        what, key = check_target(I, p, w[0][1], path, method)
        pred = lambda k: route_matches(p, k, path, method)
        inr = And(ult(j, G['routes'].len), pred(j))
        if what == 'route':
            tk = G['cands'] + [x[2] for x in G.get('firsts', [])]
            good = [x for x in tk if p.entails(key == G['routes'].at(p, x).f['handler'].key)]
            p.prove(bool(good), 'the handler is one of a route', 'post')
            for x in good[:1]:
                p.prove(And(ult(x, G['routes'].len), pred(x)), 'the route taken has the request\'s path and method', 'post')
                p.prove(Not(And(ult(j, x), pred(j))), 'the route taken is the first that matches', 'post')
            return
        p.prove(Not(inr), 'a request a route takes is not given to anything else', 'post')
        gh = Or(eq_formula(p, method, txt('GET')), eq_formula(p, method, txt('HEAD')))
        if what == 'default':
            p.prove(key is G['default'].key, 'the default handler is the router\'s', 'post')
            p.prove(Not(And(gh, ult(q, G['statics'].len), MATCH(sid(p, G['statics'].at(p, q).cell), path.t))),
                    'a GET or HEAD request a static mapping takes is not given to the default handler', 'post')
            return
        p.prove(gh, 'static mappings serve GET and HEAD only', 'post')
        p.prove(MATCH(key, path.t), 'the prefix of the static mapping taken starts the path', 'post')

    def rule(I, key, n):
        w = opaque_loop(I, n, 'routes', 'statics')
        return Pick(w, *I.p.ghost['pick']) if w else None
    return Unit('get_handler', R + '::get_handler', h, rules={'*': rule}, contracts=[Matches(), Handle()], ctx=dict(fn_app=app))


def facts(p, j):
    not_before(p, j, j)
    L.first_instance(p.I, j)


def others(p, rt, b0, G, x):
    for n in b0:
        if n != G[x + '.f']:
            p.prove(val_same(rt.load(p).f[n], b0[n]), 'nothing else of the router changes', 'frame')


def unit_add_route():
    def h(I, p):
        rt = mk_router(I, p)
        G = p.ghost
        b0 = dict(rt.load(p).f)
        path, method = p.bytes_('path'), p.bytes_('method')
        f = fn_named(p, 'handler')
        I.exec_function(the_fn(I, R, 'add_route'), rt, [p.newlv('path', path, parse_type('std::string')), p.newlv('method', method, parse_type('std::string')),
                                                       p.newlv('handler', f, parse_type('ion::RouteHandler'))])
        others(p, rt, b0, G, 'routes')
        v = rt.load(p).f[G['routes.f']]
        n = b0[G['routes.f']].len
        p.prove(Eq(v.len, add(n, 1)), 'exactly one route is added', 'post')
        p.prove(val_same(slice_(p, v, 0, n), b0[G['routes.f']]), 'the routes before stay as they are, in their order', 'post')
        e = last_of(p, v, n)
        prove_eq(p, e.f['path'], path, 'the new route has the path given', 'post')
        prove_eq(p, e.f['method'], method, 'the new route has the method given', 'post')
        req, r, cs = invoke(I, p, e.f['handler'])
        p.prove(len(cs) == 1 and cs[0][1] is f.key, 'the new route has the handler given', 'post')
    return Unit('add_route', R + '::add_route', h, ctx=dict(fn_app=app))


def last_of(p, v, n):
    t = slice_(p, v, n, 1)
    if not isinstance(t, Lit):
        raise ToolLimit('the element added')
    return t.e[0]


def unit_add_static():
    def h(I, p):
        rt = mk_router(I, p)
        G = p.ghost
        b0 = dict(rt.load(p).f)
        c = p.newlv('new', Rec(SHT, {'#id': p.fresh('new', Obj)}), parse_type('ion::' + SHT))
        u = p.newlv('arg', UPtr(c), parse_type('std::unique_ptr<ion::StaticFileHandler>'))
        I.exec_function(the_fn(I, R, 'add_static_handler'), rt, [u])
        others(p, rt, b0, G, 'statics')
        v = rt.load(p).f[G['statics.f']]
        n = b0[G['statics.f']].len
        p.prove(Eq(v.len, add(n, 1)), 'exactly one mapping is added', 'post')
        p.prove(val_same(slice_(p, v, 0, n), b0[G['statics.f']]), 'the mappings before stay as they are, in their order', 'post')
        e = last_of(p, v, n)
        p.prove(isinstance(e, UPtr) and e.cell is not None and e.cell.key() == c.key(), 'the new mapping is the one given', 'post')
    return Unit('add_static_handler', R + '::add_static_handler', h)


def unit_add_middleware():
    def h(I, p):
        rt = mk_router(I, p)
        G = p.ghost
        b0 = dict(rt.load(p).f)
        mw = wrapper(p, 'added')
        I.exec_function(the_fn(I, R, 'add_middleware'), rt, [p.newlv('mw', mw, parse_type('ion::Middleware'))])
        others(p, rt, b0, G, 'chain')
        p.prove(not G['wraps'], 'adding middleware calls none', 'post')
        ch = rt.load(p).f[G['chain.f']]
        if not isinstance(ch, (FnSpec, Closure)):
            p.prove(False, 'the chain is a function', 'post')
            return
        no_dangling(p, ch, {rt.key()[0]})
        t = fn_named(p, 'target')
        r = L.call_value(I, ch, [t])
        r = r.load(p) if isinstance(r, LV) else r
        w = G['wraps']
        p.prove([x[0] for x in w] == ['added', 'chain'], 'the new middleware wraps the handler first, the chain before it wraps that', 'post')
        if [x[0] for x in w] == ['added', 'chain']:
            p.prove(val_same(w[0][1], t), 'the new middleware wraps the handler', 'post')
            p.prove(val_same(w[1][1], w[0][2]), 'the middleware added before is outside the new one', 'post')
            p.prove(val_same(r, w[1][2]), 'the outermost is what is returned', 'post')
    return Unit('add_middleware', R + '::add_middleware', h)


def unit_ctor():
    def h(I, p):
        rt = construct(I, R, [])
        v = rt.load(p)
        G = p.ghost
        G['calls'], G['wraps'] = [], []
        m = mk_router(I, p)     # names of the fields
        for w in ('routes', 'statics'):
            p.prove(Eq(v.f[G[w + '.f']].len, 0), 'a new router has no %s' % w, 'post')
        req, r, cs = invoke(I, p, v.f[G['default.f']])
        p.prove(not cs and Eq(r.f['status_code'], 404), 'the default handler answers 404', 'post')
        p.prove(Eq(r.f['body'].len, 0), 'the default answer has no body', 'post')
        p.prove(Eq(r.f['headers'].len, 0), 'the default answer has no headers of its own', 'post')
        t = fn_named(p, 'target')
        x = L.call_value(I, v.f[G['chain.f']], [t])
        x = x.load(p) if isinstance(x, LV) else x
        p.prove(isinstance(x, FnSpec) and val_same(x, t), 'without middleware the handler is not wrapped', 'post')
    return Unit('Router', R + '::Router', h)


def unit_matches():
    def h(I, p):
        prefix, path = p.bytes_('prefix'), p.bytes_('path')
        s = mk_static(I, p, prefix)
        b0 = dict(s.load(p).f)
        r = I.exec_function(the_fn(I, SHT, 'matches'), s, [p.newlv('path', path, parse_type('std::string'))])
        want = And(ule(prefix.len, path.len), eq_formula(p, slice_(p, path, 0, Ite(ule(prefix.len, path.len), prefix.len, 0, 64)), prefix))
        p.prove(Implies(r, want), 'a mapping matches only paths that start with its prefix', 'post')
        p.prove(Implies(want, r), 'a mapping matches every path that starts with its prefix', 'post')
        for n in b0:
            p.prove(val_same(s.load(p).f[n], b0[n]), 'matching changes nothing', 'frame')
    return Unit('matches', SHT + '::matches', h)


def mk_static(I, p, prefix, root=None):
    """built by its real constructor"""
    st = parse_type('std::string')
    return construct(I, SHT, [p.newlv('prefix', prefix, st), p.newlv('root', root if root is not None else p.bytes_('root'), st)])


def units_c15():
    return [unit_get_handler(), unit_add_route(), unit_add_static(), unit_add_middleware(), unit_ctor(), unit_matches()]

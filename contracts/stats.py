"""Request statistics and the status page (C25)."""
from vc.verify import *
from vc.fold import *
from vc.maps import MapBase, MapV
from vc import lib as L
from .router import S_, txt

SS = 'ServerStats'
SP = 'StatusPage'


def load(p, v):
    return v.load(p) if isinstance(v, LV) else v


def mk_stats(I, p):
    """any counters"""
    f = {}
    for fd in I.all_fields(SS):
        n, t = fd['name'], I.T(fd).strip()
        if t.name in ('std::map', 'std::unordered_map'):
            f[n] = MapV(MapBase(p, n, 16, lambda p, b, k: COUNT(b.id, k)))
        else:
            f[n] = p.freshbv(n, 64) if t.name.startswith('std::chrono') else I.symbolic(t, n)
    return p.newlv('stats', Rec(SS, f), parse_type(SS))


COUNT = UF('status.count', Obj, z3.BitVecSort(16), B64)


class Instance:
    """the one set of counters"""
    name = SS + '::instance'

    def apply(self, I, this, vals):
        return I.p.ghost['stats']


def unit_middleware():
    def h(I, p):
        G = p.ghost
        st = G['stats'] = mk_stats(I, p)
        b0 = dict(st.load(p).f)
        p.assume(z3.And(b0['total_duration_us'] >= 0, b0['total_duration_us'] <= 1 << 61))
        mw = load(p, I.exec_function(the_fn(I, SS, 'middleware'), None, []))
        p.prove(all(val_same(st.load(p).f[n], b0[n]) for n in b0), 'making the middleware counts nothing', 'frame')
        kt = p.fresh('next', Obj)
        G['calls'] = []

        def call(I, vals):
            how = I.p.choose(3)
            r = I.symbolic(parse_type('ion::HttpResponse'), 'response')
            G['read'] = len(G.get('times', []))
            G['calls'].append((load(p, vals[0]), how, r))
            if how:
                raise CppThrow(('?std::exception', '?')[how - 1], Opaque('thrown', p.fresh('thrown', Obj)))
            return r
        nxt = FnSpec('next', call, kt)
        w = load(p, L.call_value(I, mw, [p.newlv('next', nxt, parse_type('ion::RouteHandler'))]))
        p.prove(not G['calls'], 'wrapping a handler does not call it', 'post')
        p.prove(all(val_same(st.load(p).f[n], b0[n]) for n in b0), 'wrapping a handler counts nothing', 'frame')
        rv = I.symbolic(parse_type('ion::HttpRequest'), 'request')
        req = p.newlv('request', rv, parse_type('ion::HttpRequest'))
        thrown, r = None, None
        try:
            r = load(p, L.call_value(I, w, [req]))
        except CppThrow as e:
            thrown = e
        a = st.load(p).f
        cs = G['calls']
        p.prove(len(cs) == 1, 'the handler is called exactly once', 'post')
        if len(cs) != 1:
            return
        q, how, resp = cs[0]
        for n in rv.f:
            p.prove(val_same(q.f[n], rv.f[n]), 'the request is passed on unchanged (%s)' % n, 'post')
        p.prove((thrown is not None) == bool(how), 'what the handler throws is passed on, and nothing else is thrown', 'post')
        if thrown is None:
            for n in resp.f:
                x, y = r.f[n], resp.f[n]
                if isinstance(x, Seq):
                    prove_eq(p, x, y, 'the response is passed on unchanged (%s)' % n, 'post')
                else:
                    p.prove(Eq(x, y), 'the response is passed on unchanged (%s)' % n, 'post')
        p.prove(Eq(a['total_requests'], add(b0['total_requests'], 1)), 'the request is counted once', 'post')
        if not how:
            ts = G.get('times', [])
            if len(ts) != 2 or G['read'] != 1:
                raise ToolLimit('the clock is not read once before and once after the handler')
            p.prove(Eq(a['total_duration_us'], add(b0['total_duration_us'], simp((ts[1] - ts[0]) / z3.BitVecVal(1000, 64)))), 'the time the handler took is added, in microseconds', 'post')
        else:
            p.prove(z3.And(a['total_duration_us'] >= b0['total_duration_us']), 'time is only added', 'post')
        code = resp.f['status_code'] if not how else 500
        k = p.freshbv('status', 16)
        m0, m1 = b0['status_codes'], a['status_codes']
        if p.decide(Eq(k, bv(code, 16))):
            p.prove(m1.has(p, k), 'the status code answered with is counted', 'post')
            was = m0.has(p, k)
            if p.decide(was):
                p.prove(Eq(m1.get(p, k), add(m0.get(p, k), 1)), 'the request is counted once under the status it was answered with', 'post')
            else:
                p.prove(Eq(m1.get(p, k), 1), 'the first request with a status counts one', 'post')
        else:
            p.prove(Eq_b(m1.has(p, k), m0.has(p, k)), 'no other status appears or disappears', 'post')
            if p.decide(m0.has(p, k)):
                p.prove(Eq(m1.get(p, k), m0.get(p, k)), 'no other count changes', 'post')
        for n in ('start_time', 'server_id'):
            p.prove(val_same(a[n], b0[n]), '%s does not change' % n, 'frame')
    return Unit('middleware', SS + '::middleware', h, contracts=[Instance()])


def Eq_b(a, b):
    return Or(And(a, b), And(Not(a), Not(b)))


def unit_duration():
    """days, hours, minutes, seconds; leading zero units omitted"""
    def h(I, p):
        t = p.freshbv('seconds', 64)
        out = load(p, I.exec_function(the_fn(I, SP, 'format_duration', 1), None, [t]))
        c = lambda n: z3.BitVecVal(n, 64)
        d = z3.UDiv(t, c(86400))
        r = z3.URem(t, c(86400))
        hh = z3.UDiv(r, c(3600))
        r = z3.URem(r, c(3600))
        m, s = z3.UDiv(r, c(60)), z3.URem(r, c(60))
        parts, shown = [], False
        for v, u in ((d, 'd '), (hh, 'h '), (m, 'm ')):
            shown = shown or p.decide(simp(v != 0))
            if shown:
                parts += [L.decimal(I, simp(v), parse_type('unsigned long')), txt(u)]
        parts += [L.decimal(I, simp(s), parse_type('unsigned long')), txt('s')]
        prove_eq(p, out, cat(*parts), 'the text is days, hours, minutes and seconds, leading zero units omitted', 'post')
    return Unit('format_duration', SP + '::format_duration', h)


def unit_duration_lemma():
    """the units shown are within range and add up, for every number of seconds"""
    def h(I, p):
        t = z3.Int('t')
        d, r = t / 86400, t % 86400
        hh, r2 = r / 3600, r % 3600
        m, s = r2 / 60, r2 % 60
        p.assume(t >= 0)
        p.prove(And(0 <= hh, hh < 24, 0 <= m, m < 60, 0 <= s, s < 60, d >= 0), 'each unit is within its range', 'lemma')
        p.prove(d * 86400 + hh * 3600 + m * 60 + s == t, 'the units add up to the uptime', 'lemma')
    return Unit('lemma: the units add up', 'lemma', h)


DUR = UF('duration text', B64, Str)
PAGE = UF('page', B64, Str)


class Duration:
    """contract of format_duration (proved above)"""
    name = SP + '::format_duration'

    def apply(self, I, this, vals):
        b = Base(I.p, DUR(bv(load(I.p, vals[0]), 64)))
        I.p.fact(z3.ULE(b.len, z3.BitVecVal(100, 64)))
        return b


class Added:
    """Router::add_middleware, add_route: proved under C15; here they record what is added"""
    def __init__(self, name):
        self.name = 'Router::' + name
        self.key = name

    def apply(self, I, this, vals):
        I.p.ghost[self.key].append([load(I.p, v) for v in vals])


def parts_of(v):
    if isinstance(v, Lit):
        return list(v.e)
    if isinstance(v, Cat):
        return [y for x in v.parts for y in parts_of(x)]
    return [v]


def visible(v, tag=False):
    """what a reader of this piece of HTML sees: words and inserted values, without tags and style sheet"""
    out, word, skip, last = [], bytearray(), False, bytearray()

    def flush():
        if word and not skip:
            out.append(bytes(word))
        word.clear()
    for x in parts_of(v):
        if isinstance(x, int):
            if tag:
                last.append(x)
                if x == 0x3e:
                    tag = False
                    if last.startswith(b'style'):
                        skip = True
                    if last.startswith(b'/style'):
                        skip = False
            elif x == 0x3c:
                flush()
                tag, last = True, bytearray()
            elif x in b' \t\r\n':
                flush()
            else:
                word.append(x)
        elif isinstance(x, Seq):
            if tag or skip:
                raise ToolLimit('a value within a tag')
            if word:
                raise ToolLimit('a value next to a word')
            out.append(x)
        else:
            raise ToolLimit('a single octet inserted')
    if tag:
        raise ToolLimit('a piece of a tag')
    flush()
    return out


def after(toks, word):
    """the value shown after a label"""
    k = [i for i, x in enumerate(toks) if x == word]
    if len(k) != 1 or k[0] + 1 >= len(toks):
        return None
    return toks[k[0] + 1]


def shows(p, x, want, label):
    if isinstance(x, bytes):
        x = Lit(list(x))
    if not isinstance(x, Seq):
        p.prove(False, label, 'post')
        return
    prove_eq(p, x, want, label, 'post')


def text_of(v):
    return v.f['s'] if isinstance(v, Rec) else v


class CodeLoop(AutoFold):
    """each round of the loop shows one status code and its count"""
    start = 's'

    def arbitrary(self, st):
        p = st.p
        i = p.ghost['i'] = p.freshbv('shown', 64)
        p.assume(ule(i, p.ghost['CODES'].base.n))

    def entry(self, st):
        p = st.p
        xs = [v for v in (lv.load(p) for lv, t, loc in st.items()) if isinstance(v, Seq) or self.owns(st, None, v)]
        if len(xs) > 1:
            raise ToolLimit('a loop that makes %d texts' % len(xs))
        p.ghost['before'] = text_of(xs[0]) if xs else None
        AutoFold.entry(self, st)

    def owns(self, st, loc, v):
        return isinstance(v, Rec) and v.cls == 'stringstream'

    def page(self, p):
        b = Base(p, PAGE(bv(p.ghost['i'], 64)))
        p.fact(z3.ULE(b.len, z3.BitVecVal(1 << 40, 64)))
        return b

    def seq_value(self, st, loc, old):
        p = st.p
        v = p.ghost['page'] = self.page(p)
        return v

    def other_value(self, st, loc, old):
        p = st.p
        v = p.ghost['page'] = self.page(p)
        return Rec(old.cls, dict(old.f, s=v))

    def first(self, st):
        st.p.ghost['i'] = 0

    def step(self, st):
        p, G = st.p, st.p.ghost
        G['g2'] = 's' if p.decide(ult(G['i'], G['CODES'].base.n)) else None
        G['path2'] = ()

    def check_other(self, st, loc, v):
        self.check_seq(st, text_of(v))

    def check_seq(self, st, v):
        p, G = st.p, st.p.ghost
        if not (isinstance(v, Cat) and isinstance(v.parts[0], Base) and v.parts[0].t.eq(G['page'].t)):
            raise ToolLimit('a loop that does not only append to the page')
        t = visible(Cat(v.parts[1:]))
        p.prove(len(t) == 2, 'a code and its count are shown', 'inv')
        if len(t) != 2:
            return
        k = G['CODES'].base.key(p, G['i'])
        shows(p, t[0], L.decimal(p.I, k, parse_type('unsigned short')), 'the status code is shown')
        shows(p, t[1], L.decimal(p.I, G['CODES'].base.val(p, k), parse_type('unsigned long')), 'its count is shown')

    def exit(self, st):
        p, G = st.p, st.p.ghost
        p.prove(Not(ult(G['i'], G['CODES'].base.n)), 'every status code is shown', 'inv')
        G['looped'] = True


def unit_page():
    def h(I, p):
        G = p.ghost
        G['add_middleware'], G['add_route'] = [], []
        st = G['stats'] = mk_stats(I, p)
        b0 = dict(st.load(p).f)
        G['CODES'] = b0['status_codes']
        p.fact(z3.ULE(b0['server_id'].len, z3.BitVecVal(100, 64)))
        rt = p.newlv('router', Rec('Router', {}), parse_type('ion::Router'))
        I.exec_function(the_fn(I, SP, 'add_status_page', 1), None, [rt])
        p.prove(all(val_same(st.load(p).f[n], b0[n]) for n in b0), 'installing the page counts nothing', 'frame')
        p.prove(len(G['add_middleware']) == 1, 'the statistics middleware is installed, once', 'post')
        rs = [x for x in G['add_route'] if p.entails(eq_formula(p, S_(p, x[0]), txt('/_ion/status'))) and p.entails(eq_formula(p, S_(p, x[1]), txt('GET')))]
        p.prove(len(rs) == 1, 'GET /_ion/status is served', 'post')
        if len(rs) != 1:
            return
        req = p.newlv('request', I.symbolic(parse_type('ion::HttpRequest'), 'request'), parse_type('ion::HttpRequest'))
        n0 = len(G.get('times', []))
        r = load(p, L.call_value(I, rs[0][2], [req]))
        for n in b0:
            p.prove(val_same(st.load(p).f[n], b0[n]), 'showing the page changes no count (%s)' % n, 'frame')
        p.prove(Eq(r.f['status_code'], 200), 'the page is answered with 200', 'post')
        body = S_(p, r.f['body'])
        head, tail, page = body, None, G.get('page')
        if page is not None and G.get('looped'):
            if not (isinstance(body, Cat) and isinstance(body.parts[0], Base) and body.parts[0].t.eq(page.t)):
                raise ToolLimit('what becomes of the page')
            head = G['before']
        else:
            p.prove(Eq(b0['status_codes'].size(p), 0), 'the status codes are left out only if there are none', 'post')
        t = visible(head)
        now = G['times'][n0:] if G.get('times') else []
        if len(now) != 1:
            raise ToolLimit('the clock is not read once')
        secs = simp((now[0] - b0['start_time']) / z3.BitVecVal(10**9, 64))
        up = Duration().apply(I, None, [secs])
        shows(p, after(t, b'Uptime'), up, 'the uptime shown is that since the start')
        shows(p, after(t, b'Requests'), L.decimal(I, b0['total_requests'], parse_type('unsigned long')), 'the number of requests shown is the total')

    def rule(I, key, n):
        return CodeLoop() if 'CODES' in I.p.ghost else None
    return Unit('add_status_page', SP + '::add_status_page', h, rules={'*': rule}, contracts=[Instance(), Duration(), Added('add_middleware'), Added('add_route'), Mw()])


class Mw:
    name = SS + '::middleware'

    def apply(self, I, this, vals):
        return FnSpec('middleware', None, I.p.fresh('middleware', Obj))


def units_c25():
    return [unit_middleware(), unit_duration(), unit_duration_lemma(), unit_page()]

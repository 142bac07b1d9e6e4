"""The access log (C20): one escaped line per request."""
from vc.verify import *
from vc.fold import *
from vc import lib as L
from vc.interp import RefV, kids
from .router import S_, txt
from .conn import name_search

STR = parse_type('std::string')
NAMES = {':method': 'method', ':path': 'path', 'referer': 'referer', 'user-agent': 'user agent'}
# scanning the headers: value of the last of the first i headers named n, or of the first of the last i; "-" if none
SCAN = {n: {d: UF('%s[%s]' % (d, n), B64, Str) for d in ('last', 'first')} for n in NAMES}
ESCPRE = UF('escaped.prefix', Str, B64, Str)                   # the first i octets of a value, escaped


def hexdigit(n):
    """4-bit number (as 8 bits) -> lower-case hexadecimal digit"""
    return simp(z3.If(z3.ULT(n, 10), n + 0x30, n + 0x57))


def escape_octet(p, c):
    """what one octet becomes; decides the case on the path"""
    c = bv(c, 8)
    if p.decide(simp(z3.Or(c == 0x22, c == 0x5c))):
        return Lit([0x5c, c])
    if p.decide(simp(z3.Or(z3.ULT(c, 0x20), c == 0x7f))):
        return Lit([0x5c, 0x78, hexdigit(z3.LShR(c, 4)), hexdigit(c & 0xf)])
    return Lit([c])


def escaped(p, t, n=None):
    b = Base(p, ESCPRE(t, n if n is not None else Base(p, t).len))
    p.fact(z3.ULE(b.len, z3.BitVecVal(1 << 42, 64)))
    return b


def whole(p, v):
    v = S_(p, v) if not isinstance(v, Seq) else v
    if isinstance(v, Slice) and p.entails(And(Eq(v.off, 0), Eq(v.len, v.base.len))):
        v = v.base
    return v


class Escape:
    """contract of the escaping function"""
    name = 'escape'

    def apply(self, I, this, vals):
        p = I.p
        v = whole(p, vals[0])
        if isinstance(v, Lit) and not any(is_sym(x) for x in v.e):
            out = cat(*[escape_octet(p, x) for x in v.e])
            return out
        if not isinstance(v, Base):
            raise ToolLimit('escaping part of a value')
        return escaped(p, v.t)


class EscapeLoop(AutoFold):
    """the output so far is the octets so far, escaped"""
    start = 's'

    def entry(self, st):
        p = st.p
        srcs = []
        for v in st.I.frames[-1].vars.values():
            try:
                x = v.load(p) if isinstance(v, LV) else v
            except Exception:
                continue
            if isinstance(x, RefV):
                x = x.lv.load(p)
            if isinstance(x, IterV):
                x = x.lv.load(p)
            if isinstance(x, Base) and not any(x.t.eq(y.t) for y in srcs):
                srcs.append(x)
        if len(srcs) != 1:
            raise ToolLimit('a loop over octets of more than one string')
        self.s = srcs[0]
        p.fact(escaped(p, self.s.t, z3.BitVecVal(0, 64)).len == 0)
        AutoFold.entry(self, st)

    def arbitrary(self, st):
        p, G = st.p, st.p.ghost
        G['i'] = p.freshbv('octets', 64)
        p.assume(ule(G['i'], self.s.len))
        G['out'] = escaped(p, self.s.t, G['i'])

    def step(self, st):
        p, G = st.p, st.p.ghost
        G['g2'], G['path2'] = None, ()
        if p.decide(ult(G['i'], self.s.len)):
            G['g2'] = 's'
            G['emit'] = escape_octet(p, self.s.at(p, G['i']))

    def check_seq(self, st, v):
        prove_eq(st.p, v, cat(st.p.ghost['out'], st.p.ghost['emit']), 'one more octet: the line gets exactly its escaped form', 'inv')


def unit_escape():
    def h(I, p):
        s = p.bytes_('value')
        p.assume(ule(s.len, 1 << 40))
        r = I.exec_function(the_fn(I, None, 'escape'), None, [p.newlv('value', s, STR)])
        r = r.load(p) if isinstance(r, LV) else r
        prove_eq(p, r, escaped(p, s.t, bv(s.len, 64)), 'the result is every octet of the value, escaped', 'post')
    return Unit('escape', 'escape', h, rules={'*': lambda I, k, n: EscapeLoop()})


def unit_lemma():
    """finite facts about one octet, from which by induction: an escaped value has no control characters, and a reader of the
    quoted field that takes \\ and the octet after it together neither meets a closing quote in it nor ends inside a pair; and
    the value can be read back"""
    def h(I, p):
        forms = {}
        for c in range(256):
            e = escape_octet(p, c)
            e = [simp(bv(x, 8)) for x in e.e]
            e = [x if isinstance(x, int) else x.as_long() for x in e]
            p.prove(all(x >= 0x20 and x != 0x7f for x in e), 'octet %02x: no control character' % c, 'lemma')
            k, closed = 0, False
            while k < len(e):
                if e[k] == 0x5c:
                    k += 2
                    continue
                closed |= e[k] == 0x22
                k += 1
            p.prove(not closed and k == len(e), 'octet %02x: the field stays open and whole' % c, 'lemma')
            forms[tuple(e)] = c
        fs = list(forms)
        p.prove(len(fs) == 256 and not any(a != b and b[:len(a)] == a for a in fs for b in fs), 'no form is the beginning of another: the value can be read back', 'lemma')
    return Unit('lemma: an escaped value stays inside its field', 'lemma', h)


class HeaderLoop(AutoFold):
    """each of the strings kept is the value of the nearest header passed of one name"""
    start = 's'

    def __init__(self, rev):
        self.dir = 'first' if rev else 'last'

    def names(self, st):
        return st.p.ex.persist.setdefault(('names', st.key), {})

    def arbitrary(self, st):
        p, G = st.p, st.p.ghost
        G['i'] = p.freshbv('headers', 64)
        p.assume(ule(G['i'], G['headers'].len))

    def entry(self, st):
        p = st.p
        for n in NAMES:
            p.fact(scan(p, n, self.dir, 0).t == dash(p))
        AutoFold.entry(self, st)

    def seq_value(self, st, loc, old):
        p = st.p
        c = self.names(st).get(self.lockey(loc), list(NAMES))
        if not is_dash(p, old):
            return old
        return scan(p, c[0], self.dir, p.ghost['i'])

    def first(self, st):
        st.p.ghost['i'] = 0

    def step(self, st):
        p, G = st.p, st.p.ghost
        G['g2'], G['path2'] = None, ()
        n = G['headers'].len
        if not p.decide(ult(G['i'], n)):
            return
        G['g2'] = 's'
        h = G['headers'].at(p, G['i'] if self.dir == 'last' else sub(sub(n, 1), G['i']))
        G['next'] = {n: scan(p, n, self.dir, G['i']) for n in NAMES}
        for n in NAMES:
            if p.decide(eq_formula(p, h.f['name'], txt(n))):
                G['next'][n] = h.f['value']
                break

    def back(self, st):
        p, G = st.p, st.p.ghost
        if G.get('gk') is not None and G.get('g2'):
            N = self.names(st)
            for lv, t, loc in st.items():
                v = lv.load(p)
                if kind_of(v) != 'seq':
                    continue
                k = self.lockey(loc)
                c = N.setdefault(k, list(NAMES))
                if not is_dash(p, st.entry[loc]):
                    raise ToolLimit('a string the loop changes does not start as "-"')
                if not val_same(v, G['next'][c[0]]) and not p.entails(eq_formula(p, v, G['next'][c[0]])):
                    if len(c) == 1:
                        if kind_of(v) == 'seq' and any(v is x or val_same(v, x) for n, x in G['next'].items()) or self.dir == 'first':
                            p.prove(False, 'the string kept is the value of the nearest header of its name', 'inv')
                            return
                        raise ToolLimit('a loop over the headers that is no plain scan')
                    N[k] = c[1:]
                    self.drop(self.per(st), None)
            p.reached()
        AutoFold.back(self, st)

    def check_seq(self, st, v):
        pass

    def exit(self, st):
        p, G = st.p, st.p.ghost
        if self.dir == 'first':      # unit_scan_lemma: after all headers the string kept is the value of the first of its name
            c = self.names(st)
            for lv, t, loc in st.items():
                if kind_of(lv.load(p)) == 'seq' and is_dash(p, st.entry[loc]):
                    k = first_named(p, c.get(self.lockey(loc), list(NAMES))[0])
                    lv.store(p, G['headers'].at(p, k).f['value'] if p.decide(ult(k, G['headers'].len)) else txt('-'))
        AutoFold.exit(self, st)


def first_named(p, n):
    """index of the first header named n"""
    G = p.ghost
    d = G.setdefault('first_named', {})
    if n not in d:
        d[n] = L.first_index(p.I, 0, G['headers'].len, lambda k: eq_formula(p, G['headers'].at(p, k).f['name'], txt(n)))
        for _, _, k, _ in G['firsts']:
            L.first_instance(p.I, k)
    return d[n]


def unit_scan_lemma():
    """a scan from the end that keeps the nearest ends at the first"""
    def h(I, p):
        n, i, k, q = [p.freshbv(x, 64) for x in ('n', 'i', 'k', 'q')]
        pred, val = z3.Function('pred', B64, z3.BoolSort()), z3.Function('val', B64, Str)
        D, f = z3.Const('dash', Str), z3.Function('scanned', B64, Str)
        p.assume(z3.And(z3.ULE(n, 1 << 40), z3.ULT(i, n)))
        inv = lambda i, k: z3.And(z3.ULE(n - i, k), z3.ULE(k, n), z3.Implies(z3.ULT(k, n), z3.And(pred(k), f(i) == val(k))), z3.Implies(k == n, f(i) == D))
        none = lambda i, k, q: z3.Implies(z3.And(z3.ULE(n - i, q), z3.ULT(q, k)), z3.Not(pred(q)))
        p.fact(f(0) == D)
        p.prove(inv(z3.BitVecVal(0, 64), n), 'base: nothing passed', 'lemma')
        p.prove(none(z3.BitVecVal(0, 64), n, q), 'base: nothing before', 'lemma')
        p.assume(inv(i, k))
        j = n - 1 - i
        for x in (q, j):
            p.assume(none(i, k, x))
        p.fact(f(i + 1) == z3.If(pred(j), val(j), f(i)))
        k2 = z3.If(pred(j), j, k)
        p.prove(inv(i + 1, k2), 'step: the value kept is that of the first of its name', 'lemma')
        p.prove(none(i + 1, k2, q), 'step: there is none before it', 'lemma')
    return Unit('lemma: scanning from the end finds the first', 'lemma', h)


def dash(p):
    t = z3.Const('dash', Str)
    if not p.ghost.get('dash'):
        p.ghost['dash'] = True
        p.fact(zb(eq_formula(p, Base(p, t), txt('-'))))
        p.fact(zb(eq_formula(p, escaped(p, t), txt('-'))))
    return t


def is_dash(p, v):
    return isinstance(v, Seq) and p.entails(eq_formula(p, v, txt('-')))


def scan(p, n, d, i):
    b = Base(p, SCAN[n][d](bv(i, 64)))
    p.fact(z3.ULE(b.len, z3.BitVecVal(1 << 40, 64)))
    return b


def loop(I, key, n):
    """over the headers, forwards or backwards, or over the octets of a string"""
    p = I.p
    for v in I.frames[-1].vars.values():
        try:
            x = v.load(p) if isinstance(v, LV) else v
        except Exception:
            continue
        if isinstance(x, RefV):
            x = x.lv.load(p)
        if isinstance(x, IterV):
            x = x.lv.load(p)
            if isinstance(x, FnSeq) and x.key == ('reversed', id(p.ghost['headers'])):
                return HeaderLoop(True)
            if x is p.ghost['headers']:
                for m in NAMES:
                    first_named(p, m)
                r = name_search(I, p, x, [m.encode() for m in NAMES])
                if r is None and returns(n):
                    raise ToolLimit('a search among the headers for a name that was not recognised')
                return r or HeaderLoop(False)
    return EscapeLoop()


def returns(n):
    return n.get('kind') == 'ReturnStmt' or n.get('kind') != 'LambdaExpr' and any(returns(c) for c in kids(n))


def x_get(I, args, node):
    p = I.p
    nm = whole(p, I.ev(args[0]))
    p.prove(eq_formula(p, nm, txt('access')), 'the logger asked for is the access log', 'post')
    p.ghost['on'] = p.choose(2) == 1
    return Ptr(p.ghost['logger']) if p.ghost['on'] else NULL


def m_info(I, lv, args, node):
    p = I.p
    if lv.key() != p.ghost['logger'].key():
        raise ToolLimit('another logger')
    vals = [load(p, I.ev(a)) for a in args]
    if len(args) > 1:
        lit = L.find_literal(args[0])
        if lit is None:
            raise ToolLimit('log format')
        vals = [L.format_string(I, lit, vals[1:], [I.T(a) for a in args[1:]])]
    p.ghost['lines'].append(vals[0])


def load(p, v):
    return v.load(p) if isinstance(v, LV) else v


class Timestamp:
    name = 'SystemClock::clf_timestamp'

    def apply(self, I, this, vals):
        p = I.p
        b = p.ghost['time'] = p.bytes_('timestamp')
        p.assume(ule(b.len, 32))
        return b


def unit_log_request(inline=False):
    def h(I, p):
        G = p.ghost
        hs = G['headers'] = I.symbolic(parse_type('std::vector<ion::HttpHeader>'), 'headers')
        p.assume(ule(hs.len, 1 << 30))
        G['logger'] = p.newlv('logger', Opaque('logger', 0), parse_type('spdlog::logger'))
        G['lines'], G['on'] = [], None
        ip = p.bytes_('ip')
        p.assume(ule(ip.len, 64))
        status, size = p.freshbv('status', 16), p.freshbv('size', 64)
        hl = p.newlv('headers', hs, parse_type('std::vector<ion::HttpHeader>'))
        try:
            I.exec_function(the_fn(I, 'AccessLog', 'log_request'), None, [hl, status, size, p.newlv('ip', ip, STR)])
        except CppThrow as e:
            p.prove(False, 'logging throws nothing (%s)' % e.cls, 'post')
            return
        p.prove(hl.load(p) is hs, 'logging changes no header', 'frame')
        ls = G['lines']
        if not G['on']:
            p.prove(not ls, 'with access logging off nothing is logged', 'post')
            return
        p.prove(len(ls) == 1, 'exactly one line is logged', 'post')
        if len(ls) != 1:
            return
        v = {}
        for n in NAMES:
            k = first_named(p, n)
            v[n] = escaped(p, hs.at(p, k).f['value'].t) if p.decide(ult(k, hs.len)) else txt('-')
        who = txt('-') if p.decide(Eq(ip.len, 0)) else ip
        u16 = parse_type('unsigned short')
        want = cat(who, txt(' - - '), G.get('time', EMPTY), txt(' "'), v[':method'], txt(' '), v[':path'], txt(' HTTP/2" '), L.decimal(I, status, u16), txt(' '),
                   L.decimal(I, size, parse_type('unsigned long')), txt(' "'), v['referer'], txt('" "'), v['user-agent'], txt('"'))
        prove_eq(p, S_(p, ls[0]), want, 'the line is the combined log entry of the request', 'post')
    return Unit('log_request', 'AccessLog::log_request', h, rules={'*': loop}, contracts=([] if inline else [Escape()]) + [Timestamp()],
                ctx=dict(externs={'get': x_get}, ext_methods={'spdlog::logger::info': m_info, 'element_type::info': m_info}))


# --- the time stamp -----------------------------------------------------------------------------------------------
def x_now(I, args, node):
    p = I.p
    p.ghost['now'] = p.freshbv('now', 64)
    return p.ghost['now']


def x_to_time_t(I, args, node):
    v = I.rv(args[0])
    if v is not I.p.ghost.get('now'):
        raise ToolLimit('a time that is not now')
    return v


def x_localtime(I, args, node):
    p = I.p
    t, tm = load(p, I.ev(args[0])), load(p, I.ev(args[1]))
    t = t.lv.load(p) if isinstance(t, Ptr) else t
    p.prove(t is p.ghost.get('now'), 'the time stamp is the current time', 'post')
    if not isinstance(tm, Ptr):
        raise ToolLimit('localtime_r')
    tm.lv.store(p, Opaque('tm', 'now'))
    return tm


CLF = b'[%d/%b/%Y:%H:%M:%S %z]'


def x_strftime(I, args, node):
    """writes the time and a NUL, if both fit; else nothing"""
    p = I.p
    buf, n, tm = load(p, I.ev(args[0])), I.rv(args[1]), load(p, I.ev(args[3]))
    p.prove(L.find_literal(args[2]) == CLF, 'the time stamp has the combined log format', 'post')
    p.prove(isinstance(tm, Ptr) and isinstance(tm.lv.load(p), Opaque) and tm.lv.load(p).key == 'now', 'the time stamp is the current time', 'post')
    if not isinstance(buf, Ptr) or buf.idx is None:
        raise ToolLimit('strftime')
    s = buf.lv.load(p)
    room = sub(s.len, buf.idx)
    p.require(ule(n, room), 'strftime stays inside its buffer', 'mem')
    p.prove(ule(29, n), 'the time stamp fits', 'post')
    st = p.ghost['stamp'] = p.bytes_('stamp')
    p.assume(Eq(st.len, 28))
    tail = p.bytes_('rest')
    p.assume(Eq(tail.len, sub(room, 29)))
    buf.lv.store(p, cat(slice_(p, s, 0, buf.idx), st, Lit([0]), tail))
    return 28


def unit_timestamp():
    def h(I, p):
        r = I.exec_function(the_fn(I, 'SystemClock', 'clf_timestamp'), None, [])
        r = load(p, r)
        prove_eq(p, S_(p, r), p.ghost.get('stamp', EMPTY), 'the time stamp is what strftime made', 'post')
    return Unit('clf_timestamp', 'SystemClock::clf_timestamp', h, ctx=dict(externs={'now': x_now, 'to_time_t': x_to_time_t, 'localtime_r': x_localtime, 'strftime': x_strftime}))


def units_c20():
    return [unit_escape(), unit_lemma(), unit_scan_lemma(), unit_log_request(), unit_timestamp()]

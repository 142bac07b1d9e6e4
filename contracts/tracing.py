"""C28: tracing. Every HEADERS frame that is a request is traced by exactly one finished span

Ghost state: spans started, how many objects hold each, which are current, attributes set before the end; all in the
order of the calls of the connection.  A span ends at End() or when its last holder (pointer or scope) is destroyed."""
import z3
from vc.verify import *
from vc import lib as L
from .conn import (C, mk_conn, calls, record, load, seq, fld, in_state, spec_block, named, name_search, IdleLoop, LogTable, WRITERS, Decode, Encode,
                   SetMax, LogRequest, ReadSettings, GetHandler, OCTETS, MAXF)
from .hpack_int import model_bytes

O = 'opentelemetry::'
SPTR = O + 'nostd::shared_ptr'


def spans(p):
    return p.ghost.setdefault('spans', {})


def start(I, name):
    p = I.p
    k = len(spans(p))
    p.ghost['spans'] = {**spans(p), k: dict(name=name, refs=1, ended=False, attrs=[])}
    record(p, 'span start', k)
    return Opaque('otel', ('span', k))


def upd(p, k, **kw):
    p.ghost['spans'] = {**spans(p), k: dict(spans(p)[k], **kw)}


def span_of(v):
    return v.key[1] if isinstance(v, Opaque) and v.kind == 'otel' and isinstance(v.key, tuple) and v.key[0] in ('span', 'scope') else None


def hold(I, v, n):
    """n more (fewer) objects hold the span v refers to"""
    p = I.p
    k = span_of(v)
    if k is None:
        return
    r = spans(p)[k]['refs'] + n
    assert r >= 0
    upd(p, k, refs=r)
    if r == 0 and not spans(p)[k]['ended']:
        end(I, k)


def end(I, k):
    p = I.p
    if not spans(p)[k]['ended']:
        upd(p, k, ended=True)
        record(p, 'span end', k)


def is_move(node):
    return node.get('valueCategory') == 'xvalue'


def shared_ctor(I, t, args, node):
    real = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
    if not real:
        return NULL
    a = I.ev(real[0])
    if not isinstance(a, LV):
        return a
    v = a.load(I.p)
    if is_move(real[0]):
        a.store(I.p, NULL)
    else:
        hold(I, v, 1)
    return v


def shared_assign(I, args, node):
    dst = I.lv(args[0])
    a = I.ev(args[1])
    v = load(I.p, a)
    if isinstance(a, LV):
        if is_move(args[1]):
            a.store(I.p, NULL)
        else:
            hold(I, v, 1)
    old = dst.load(I.p)
    dst.store(I.p, v)
    hold(I, old, -1)
    return dst


def shared_arrow(I, args, node):
    v = load(I.p, I.ev(args[0]))
    if v is NULL or not isinstance(v, Opaque):
        I.p.require(False, 'a tracing object is used through a null pointer', 'ub')
    return Ptr(LVVal(v))


def shared_destroy(I, lv, t):
    hold(I, lv.load(I.p), -1)


def scope_destroy(I, lv, t):
    p = I.p
    v = lv.load(p)
    k = span_of(v)
    if k is None:
        return
    cur = p.ghost['current']
    if k in cur:
        i = len(cur) - 1 - cur[::-1].index(k)
        p.ghost['current'] = cur[:i] + cur[i + 1:]
    record(p, 'scope end', k)
    hold(I, v, -1)


def get_tracer(I, lv, args, node):
    L.log_args(I, args)
    return Opaque('otel', ('tracer', 0))


def start_span(I, lv, args, node):
    if len([a for a in args if a.get('kind') != 'CXXDefaultArgExpr']) != 1:
        raise ToolLimit('StartSpan with options')
    return start(I, L.content(I, I.ev(args[0])))


def span_in(I, lv):
    k = span_of(lv.load(I.p))
    if k is None:
        raise ToolLimit('a span the contract does not know')
    return k


def set_attribute(I, lv, args, node):
    p = I.p
    k = span_in(I, lv)
    key = L.content(I, I.ev(args[0]))
    v = load(p, I.ev(args[1]))
    if not isinstance(v, (int, bool, z3.ExprRef)):
        v = L.content(I, v)
    if not spans(p)[k]['ended']:
        upd(p, k, attrs=spans(p)[k]['attrs'] + [(key, v)])


def span_end(I, lv, args, node):
    end(I, span_in(I, lv))


def with_active(I, args, node):
    p = I.p
    v = load(p, I.ev(args[0]))
    k = span_of(v)
    if k is None:
        raise ToolLimit('a span the contract does not know')
    p.ghost['current'] = p.ghost['current'] + (k,)
    hold(I, v, 1)
    return Opaque('otel', ('scope', k))


def scope_ctor(I, t, args, node):
    if len(args) == 1 and isinstance(I.T(args[0]).strip().name, str) and I.T(args[0]).strip().name == SPTR:
        return with_active(I, args, node)
    if len(args) == 1:
        return I.rv(args[0])
    raise ToolLimit('construction of a scope')


CTX = dict(raii=True,
           ext_ctors={SPTR: shared_ctor, O + 'trace::Scope': scope_ctor},
           ext_ops={(SPTR, '->'): shared_arrow, (SPTR, '='): shared_assign},
           ext_methods={O + 'trace::TracerProvider::GetTracer': get_tracer, O + 'trace::Tracer::StartSpan': start_span,
                        O + 'trace::Span::SetAttribute': set_attribute, O + 'trace::Span::End': span_end},
           ext_destroy={SPTR: shared_destroy, O + 'trace::Scope': scope_destroy},
           externs={'WithActiveSpan': with_active})


class Handler(GetHandler):
    """the handler, which may look at the current span"""

    def call(self, I, vals):
        record(I.p, 'in handler', I.p.ghost['current'])
        return GetHandler.call(self, I, vals)


class Log(LogRequest):
    def apply(self, I, this, vals):
        record(I.p, 'in log', I.p.ghost['current'])
        LogRequest.apply(self, I, this, vals)


ATTRS = (b'http.method', b'http.target', b'ion.client_ip', b'http.status_code')


def unit_request():
    def h(I, p):
        cn = mk_conn(I, p)
        b0 = dict(cn.load(p).f)
        p.ghost['current'] = ()
        data = p.bytes_('payload')
        p.assume(ule(data.len, MAXF))
        dl = p.newlv('payload', data, OCTETS)
        hdr = I.symbolic(parse_type('ion::Http2FrameHeader'), 'header')
        p.assume(Eq(simp(z3.ZeroExt(32, bv(hdr.f['length'], 32))), data.len))
        p.assume(z3.ULT(hdr.f['stream_id'], 1 << 31))
        hdr = hdr.with_('type', 1)
        fl = bv(hdr.f['flags'], 8)
        info = lambda m: dict(op='frame', type=1, flags=m.eval(fl, True).as_long(), stream=m.eval(bv(hdr.f['stream_id'], 32), True).as_long(),
                              payload=model_bytes(m, data, 0, 400))
        rd = p.newlv('reader', Rec('Http2FrameReader', {'header_': hdr, 'payload_': SpanV(dl, 0, data.len)}), parse_type('ion::Http2FrameReader'))
        p.assume(in_state(I, p, cn, 'AwaitingFrame'))
        I.exec_function(the_fn(I, C, 'process_frame'), cn, [rd])
        ss = spans(p)
        p.prove(all(s['ended'] and s['refs'] == 0 for s in ss.values()), 'every span started is finished', 'post', info)
        p.prove(not p.ghost['current'], 'no span stays current', 'post', info)
        dec, en = calls(p, 'decode'), calls(p, 'encode')
        if not en:
            return
        hs = dec[0][3]
        mine = [k for k in ss if isinstance(ss[k]['name'], Lit) and bytes(ss[k]['name'].e).rstrip(b'\0') == b'http_request']
        p.prove(len(mine) == 1 and len(ss) == 1, 'a request is traced by exactly one span, named http_request', 'post', info)
        if len(mine) != 1:
            return
        k = mine[0]
        order = p.ghost['calls']
        at = lambda *names: [i for i, c in enumerate(order) if c[0] in names]
        fin = [i for i, c in enumerate(order) if c[0] == 'span end' and c[1] == k]
        p.prove(len(fin) == 1 and fin[0] > max(at('headers', 'data'), default=-1), 'the span ends once, after the response has been queued', 'post', info)
        for c in calls(p, 'in handler', 'in log'):
            p.prove(c[1][-1:] == (k,), 'the span of the request is current %s' % ('while the handler runs' if c[0] == 'in handler' else 'while the request is logged'), 'post', info)
        kp, km = [named(I, p, hs, n) for n in (b':path', b':method')]
        attrs = {}
        for key, v in ss[k]['attrs']:       # the last value given counts
            if not isinstance(key, Lit):
                raise ToolLimit('a computed attribute name')
            attrs[bytes(key.e).rstrip(b'\0')] = v
        hd = calls(p, 'handle')
        if p.decide(And(ult(kp, hs.len), ult(km, hs.len))):
            for n, want in ((b'http.method', hs.at(p, km).f['value']), (b'http.target', hs.at(p, kp).f['value']), (b'ion.client_ip', b0['client_ip_'])):
                p.prove(n in attrs, 'the span has the attribute %s' % n.decode(), 'post', info)
                if n in attrs:
                    prove_eq(p, attrs[n], want, 'the value of %s' % n.decode(), 'post', info)
            if len(hd) != 1:
                return
            status = hd[0][2].f['status_code'] if hd[0][3] == 'returns' else 500
        else:
            status = 400
        p.prove(b'http.status_code' in attrs, 'the span has the attribute http.status_code', 'post', info)
        if b'http.status_code' in attrs:
            v = attrs[b'http.status_code']
            w = v.size() if isinstance(v, z3.ExprRef) and z3.is_bv(v) else 64
            p.prove(simp(z3.ZeroExt(64 - w, bv(v, w)) == z3.ZeroExt(48, bv(status, 16))), 'the value of http.status_code is the status sent', 'post', info)

    def rule(I, k, n):
        dec = calls(I.p, 'decode')
        if not dec:
            return None
        hs = dec[0][3]
        if I.frames[-1].name.endswith('process_frame'):
            return IdleLoop(lambda p: hs.len)
        return name_search(I, I.p, hs, (b':path', b':method'))
    return Unit('process_frame: tracing', C + '::process_frame', h, rules={'*': rule}, ctx=CTX,
                contracts=[LogTable()] + WRITERS + [Decode(), Encode(), SetMax(), Log(), ReadSettings(), Handler()])


# --- the trace id in log lines --------------------------------------------------------------------------------------
F = 'TraceIdFlag'
BUF = ('fmt::basic_memory_buffer', 'fmt::detail::buffer', 'fmt::v9::basic_memory_buffer', 'fmt::v9::detail::buffer')


def unit_flag():
    """a log line written while a span is current carries its trace id, others carry nothing"""
    G = {}

    def put(I, lv, x):
        lv.store(I.p, cat(lv.load(I.p), x))

    def push_back(I, lv, args, node):
        put(I, lv, Lit([load(I.p, I.ev(args[0]))]))

    def append(I, lv, args, node):
        p = I.p
        a = [I.ev(x) for x in args]
        if len(a) == 1:
            return put(I, lv, L.content(I, a[0]))
        a, b = [load(p, x) for x in a]
        if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv is b.lv):
            raise ToolLimit('append of %r' % (a,))
        o1, o2 = a.idx or 0, b.idx or 0
        p.require(And(ule(o1, o2), ule(o2, a.lv.load(p).len)), 'the characters appended lie in one array')
        put(I, lv, slice_(p, a.lv.load(p), o1, sub(o2, o1)))

    def lower(I, lv, args, node):
        p = I.p
        v = load(p, I.ev(args[0]))
        if isinstance(v, Ptr):
            v = SpanV(v.lv, v.idx or 0, 32)
        if not isinstance(v, SpanV) or is_sym(v.len) or v.len != 32 or is_sym(v.off):
            raise ToolLimit('ToLowerBase16 into %r' % (v,))
        old = v.lv.load(p)
        p.require(And(ule(v.off + 32, old.len)), 'the text stays inside its buffer', 'mem')
        v.lv.store(p, cat(slice_(p, old, 0, v.off), p.ghost['id'], slice_(p, old, v.off + 32, sub(old.len, v.off + 32))))

    def h(I, p):
        p.ghost['current'] = ()
        p.ghost['id'] = Lit([p.freshbv('id', 8) for _ in range(32)])
        valid = p.ghost['valid'] = p.freshbool('valid')
        old = p.bytes_('line')
        p.assume(ule(old.len, 1 << 40))
        dest = p.newlv('dest', old, OCTETS)
        fl = construct(I, F, [])
        I.exec_function(the_fn(I, F, 'format'), fl, [Opaque('otel', 0), Opaque('otel', 0), dest])
        want = cat(old, Lit([ord('[')]), p.ghost['id'], Lit([ord(']'), ord(' ')])) if p.decide(valid) else old
        prove_eq(p, dest.load(p), want, 'a line written while a span is current carries its trace id in brackets, another carries nothing', 'post', lambda m: dict(op='flag'))
    span = lambda I, *a: Opaque('otel', ('cur', 0))
    M = {O + 'trace::SpanContext::IsValid': lambda I, lv, a, n: I.p.ghost['valid'],
         O + 'trace::TraceId::ToLowerBase16': lower}
    for b in BUF:
        M[b + '::push_back'] = push_back
        M[b + '::append'] = append
    return Unit('TraceIdFlag::format', F + '::format', h, ctx=dict(ext_globals={'kSize': 16}, ext_methods=M, ext_ops={(SPTR, '->'): shared_arrow}, ext_ctors={SPTR: shared_ctor},
                                                                    externs={'GetCurrentSpan': span}))


def units_c28():
    return [unit_request(), unit_flag()]

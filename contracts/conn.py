"""The HTTP/2 connection (RFC 9113): framing of what is received and sent, states, output queue, responses."""
from vc.verify import *
from vc.fold import AutoFold, SearchFold, not_before, kind_of
from vc.interp import RefV
from vc import lib as L
from .frames import spec_parse, spec_octets, STRUCTS
from .hpack_int import model_bytes

C = 'Http2Connection'
MAXF = 16384
MAXBUF = 65536
MAXQ = 1 << 40          # octets queued for output at any time
PREFACE = b'PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n'
OCTETS = parse_type('std::vector<unsigned char>')


# --- the state of a connection -----------------------------------------------------------------------------
def mk_conn(I, p, **over):
    """a connection in an arbitrary state satisfying the class invariant -> LV"""
    f = {}
    tr = p.newlv('transport', Rec('Transport', {'#sent': EMPTY, '#in': EMPTY}), parse_type('ion::Transport'))
    rt = p.newlv('router', Rec('Router', {'#': Opaque('router', 0)}), parse_type('ion::Router'))
    for fd in I.all_fields(C):
        n, t = fd['name'], I.T(fd)
        s = t.strip()
        if n == 'transport_':
            v = UPtr(tr)
        elif t.kind == 'ref' and s.simple == 'Router':
            v = RefV(rt)
        elif s.simple in ('DynamicTable', 'HeaderBlockDecoder', 'HeaderBlockEncoder'):
            v = Rec(s.simple, {'#': Opaque('abs:' + s.simple, p.fresh(s.simple, Obj))})
        else:
            v = I.symbolic(t, n)
        f[n] = v
    for need in ('transport_', 'read_buffer_', 'write_buffer_', 'state_', 'last_stream_id_', 'decoder_', 'encoder_'):
        if need not in f:
            raise ToolLimit('no member %s' % need)
    f.update(over)
    p.assume(ule(f['read_buffer_'].len, MAXBUF))
    p.assume(ule(f['write_buffer_'].len, MAXQ))
    p.ghost['tr'] = tr
    p.ghost['calls'] = []
    p.ghost['emitted'] = []
    cn = p.newlv('conn', Rec(C, f), parse_type('ion::' + C))
    p.ghost['conn'] = cn
    return cn


def fld(p, cn, n):
    return cn.load(p).f[n]


def setf(p, cn, n, v):
    LVField(cn, n).store(p, v)


def STATE(I, n):
    return I.P.enums['Http2ConnectionState']['consts'][n]


def in_state(I, p, cn, *names):
    return Or(*[Eq(fld(p, cn, 'state_'), STATE(I, n)) for n in names])


def unchanged(p, cn, before, fields, what, info=None):
    for n in fields:
        prove_eq(p, fld(p, cn, n), before[n], '%s: %s is not changed' % (what, n), 'frame', info)


def calls(p, *names):
    return [c for c in p.ghost['calls'] if c[0] in names]


def record(p, *c):
    p.ghost['calls'] = p.ghost['calls'] + [c]


def emit(p, cn, kind, *args):
    """contract of a function that queues output: appends valid octets of its own, nothing else"""
    x = p.bytes_('out.' + kind)
    p.assume(ule(x.len, 1 << 36))
    setf(p, cn, 'write_buffer_', cat(fld(p, cn, 'write_buffer_'), x))
    p.ghost['emitted'] = p.ghost['emitted'] + [(kind, x) + args]
    return x


def load(p, v):
    return v.load(p) if isinstance(v, LV) else v


def seq(p, v):
    v = load(p, v)
    return v.seq(p) if isinstance(v, SpanV) else v


class Emit:
    """contract of write_*: queues one well-formed group of frames described by the arguments"""

    def __init__(self, name, kind, conv):
        self.name, self.kind, self.conv = C + '::' + name, kind, conv

    def apply(self, I, this, vals):
        args = self.conv(I, vals)
        record(I.p, self.kind, *args)
        emit(I.p, this, self.kind, *args)


def conv_headers(I, vals):
    p = I.p
    sid, data, flags = load(p, vals[0]), seq(p, vals[1]), load(p, vals[2])
    fl = bv(flags, 8)
    p.require(simp(z3.Or(fl == 4, fl == 5)), 'precondition of write_headers_response: END_HEADERS, and END_STREAM or not', 'pre')
    return sid, data, flags


def conv_data(I, vals):
    p = I.p
    b = seq(p, vals[1])
    p.require(ult(0, b.len), 'precondition of write_data_response: a body', 'pre')
    return load(p, vals[0]), b


WRITERS = [Emit('write_headers_response', 'headers', conv_headers), Emit('write_data_response', 'data', conv_data),
           Emit('write_settings_ack', 'ack', lambda I, v: ())]


# --- frames written ------------------------------------------------------------------------------------------
def frame_octets(length, type_, flags, sid):
    return spec_octets('Http2FrameHeader', {'length': length, 'type': type_, 'flags': flags, 'stream_id': sid})


class FramesFold(AutoFold):
    """each iteration queues exactly one valid frame carrying the next octets of the data"""
    start = 'first'

    def __init__(self, kind):
        self.kind = kind

    def do_cond_at_head(self, st):
        return False

    def begin(self, st):
        st.p.ghost['pos'] = 0

    def entry_forms(self, st):
        return [('pos', 0), ('rem', self.data.len)]

    def forms(self, p, after):
        x = p.ghost['pos2'] if after else p.ghost['pos']
        return [('pos', x), ('rem', sub(self.data.len, x))]

    def arbitrary(self, st):
        p, G = st.p, st.p.ghost
        if G['g'] == 'first':
            G['i'], G['pos'], G['out'] = 0, 0, self.wb0
            return
        G['i'] = p.freshbv('frames', 64)
        p.assume(And(ult(0, G['i']), ule(G['i'], 1 << 40)))
        G['pos'] = p.freshbv('pos', 64)
        p.assume(ult(G['pos'], self.data.len) if self.do else ule(G['pos'], self.data.len))
        G['out'] = p.bytes_('queued')
        p.assume(ule(G['out'].len, MAXQ))

    def first(self, st):
        G = st.p.ghost
        G['pos'], G['out'] = 0, self.wb0

    def owns(self, st, loc, v):
        return isinstance(v, SpanV)

    def other_value(self, st, loc, old):
        x = st.p.ghost['pos']
        return SpanV(self.dl, x, sub(self.data.len, x))

    def check_other(self, st, loc, v):
        p, G = st.p, st.p.ghost
        p.prove(And(Eq(v.off, G['pos2']), Eq(v.len, sub(self.data.len, G['pos2'])), v.lv.key() == self.dl.key()),
                'what remains is the rest of the data', 'inv', self.info)

    def step(self, st):
        G = st.p.ghost
        G['g2'], G['path2'] = 'rest', ()
        G['old'] = G['out']

    def frame_ok(self, p, v, where):
        """the octets v after what was queued before are one valid frame with the next part of the data -> its size"""
        G, D = p.ghost, self.data
        out, pos = G['old'], G['pos']
        prove_eq(p, slice_(p, v, 0, out.len), out, 'what was queued before stays', 'inv', self.info)
        E = slice_(p, v, out.len, sub(v.len, out.len))
        p.prove(ule(9, E.len), 'a frame is queued', 'inv', self.info)
        if not p.entails(ule(9, E.len)):
            return None
        h = spec_parse(p, 'Http2FrameHeader', E)
        n = simp(z3.ZeroExt(32, bv(h.f['length'], 32)))
        p.prove(ule(n, MAXF), 'no frame exceeds 16384 octets', 'post', self.info)
        p.prove(ule(n, sub(D.len, pos)), 'a frame carries octets of the data only', 'post', self.info)
        last = Eq(add(pos, n), D.len)
        first = G['g'] == 'first'
        if self.kind == 'headers':
            typ = 1 if first else 9
            es = self.flags & 1 if first else 0
            want = Ite(last, 4 | es, es, 8)
        else:
            typ, want = 0, Ite(last, 1, 0, 8)
        p.prove(first or ult(pos, D.len), 'no frame follows the last one', 'post', self.info)
        p.prove(Or(last, ult(0, n)), 'every frame but the last carries data', 'inv', self.info)
        p.prove(Eq(h.f['type'], typ), 'the frame type is %d' % typ, 'post', self.info)
        p.prove(Eq(h.f['flags'], want), 'flags: the last frame is marked, the stream ended once', 'post', self.info)
        p.prove(Eq(h.f['stream_id'], simp(bv(self.sid, 32) & 0x7fffffff)), 'the frame is on the stream', 'post', self.info)
        prove_eq(p, slice_(p, E, 5, 1), Lit([simp(z3.Extract(31, 24, bv(self.sid, 32) & 0x7fffffff))]), 'the reserved bit is zero', 'post', self.info)
        prove_eq(p, slice_(p, E, 9, sub(E.len, 9)), slice_(p, D, pos, n), 'the payload is the next part of the data', 'post', self.info)
        G['last'] = last
        return n

    def check_seq(self, st, v):
        pass

    def wb(self, p):
        return fld(p, self.cn, 'write_buffer_')

    def back(self, st):
        p, G = st.p, st.p.ghost
        if G['gk'] is None:
            raise Restart()
        n = self.frame_ok(p, self.wb(p), 'body')
        if n is None:
            return
        G['pos2'] = simp(bv(G['pos'], 64) + n)
        if self.do:
            p.prove(ult(G['pos2'], self.data.len), 'the loop goes on only while data remains', 'inv', self.info)
        AutoFold.back(self, st)
        p.reached()

    def exit(self, st):
        G = st.p.ghost
        G['where'] = 'exit'


def unit_frames(kind, fl=0):
    fn = 'write_%s_response' % kind
    rule = FramesFold(kind)

    def use(I, key, n):
        rule.do = n['kind'] == 'DoStmt'
        return rule

    def h(I, p):
        cn = mk_conn(I, p)
        b0 = cn.load(p).f
        data = p.bytes_('data')
        p.assume(ule(data.len, 1 << 32))
        if kind == 'data':
            p.assume(ult(0, data.len))
        sid = p.freshbv('stream', 32)
        dl = p.newlv('data', data, OCTETS)
        rule.data, rule.dl, rule.sid, rule.flags, rule.cn, rule.wb0, rule.I = data, dl, sid, fl, cn, b0['write_buffer_'], I
        rule.info = lambda m: dict(op='respond', part=kind, size=m.eval(bv(data.len, 64), True).as_long(), flags=fl)
        args = [sid, SpanV(dl, 0, data.len), fl] if kind == 'headers' else [sid, dl]
        p.ghost['old'] = b0['write_buffer_']
        I.exec_function(the_fn(I, C, fn, len(args)), cn, args)
        G = p.ghost
        if 'where' not in G:
            raise ToolLimit('the loop over the frames was not found')
        v = fld(p, cn, 'write_buffer_')
        # the loop was left at its head (everything was queued before) or after a last frame
        if p.decide(Eq(v.len, G['old'].len)):
            p.prove(G['g'] != 'first', 'at least one frame is queued', 'post', rule.info)
            prove_eq(p, v, G['old'], 'nothing else is queued', 'post', rule.info)
            p.prove(Eq(G['pos'], data.len), 'all of the data is queued', 'post', rule.info)
        else:
            n = rule.frame_ok(p, v, 'exit')
            if n is not None:
                p.prove(G['last'], 'all of the data is queued', 'post', rule.info)
        unchanged(p, cn, b0, [k for k in b0 if k not in ('write_buffer_', 'transport_', 'router_')], fn)
    return Unit(fn + ('[flags %d]' % fl if fl else ''), '%s::%s' % (C, fn), h, rules={'%s::%s' % (C, fn): use})


# --- contracts used for what a frame is handed to --------------------------------------------------------------
def hdr_list(I, p, name):
    return Base(p, p.fresh(name, Obj), I.elem_maker(parse_type('ion::HttpHeader')))


class Decode:
    name = 'HeaderBlockDecoder::decode'

    def apply(self, I, this, vals):
        p = I.p
        b = seq(p, vals[0])
        hs = hdr_list(I, p, 'request.headers')
        ok = p.freshbool('decoded')
        record(p, 'decode', b, ok, hs)
        LVField(this, '#').store(p, Opaque('abs:HeaderBlockDecoder', p.fresh('decoder', Obj)))
        return Opt(ok, hs, p.freshbv('decode.error', 32), 'expected')


class Encode:
    name = 'HeaderBlockEncoder::encode'

    def apply(self, I, this, vals):
        p = I.p
        b = p.bytes_('block')
        p.assume(ule(b.len, 1 << 32))
        record(p, 'encode', seq(p, vals[0]), b)
        LVField(this, '#').store(p, Opaque('abs:HeaderBlockEncoder', p.fresh('encoder', Obj)))
        return b


class SetMax:
    name = 'HeaderBlockEncoder::set_max_table_size'

    def apply(self, I, this, vals):
        p = I.p
        n = load(p, vals[0])
        p.require(ule(n, 65536), 'precondition of set_max_table_size: at most 65536', 'pre')
        record(p, 'setmax', n)
        LVField(this, '#').store(p, Opaque('abs:HeaderBlockEncoder', p.fresh('encoder', Obj)))


class ProcessRequest:
    name = C + '::process_request'

    def apply(self, I, this, vals):
        p = I.p
        r = I.symbolic(parse_type('ion::HttpResponse'), 'response')
        p.assume(ule(r.f['body'].len, 1 << 32))
        record(p, 'request', seq(p, vals[0]), r)
        return r


class LogRequest:
    name = 'AccessLog::log_request'

    def apply(self, I, this, vals):
        record(I.p, 'log', *[load(I.p, v) for v in vals])


class LogTable:
    """const member function that only logs (verified in unit DynamicTable::log_contents)"""
    name = 'DynamicTable::log_contents'

    def apply(self, I, this, vals):
        pass


class IdleLoop(SearchFold):
    """a loop over a sequence that has no effect (logging)"""

    def __init__(self, n):
        self.nf = n
        self.pred = lambda i: False

    def entry(self, st):
        self.n = self.nf(st.p)
        SearchFold.entry(self, st)

    def back(self, st):
        p = st.p
        for lv, t, loc in st.items():
            if kind_of(lv.load(p)) not in ('iter', 'int'):
                raise ToolLimit('a loop with effects where none is expected')
        SearchFold.back(self, st)


FRAME_USES = [LogTable()] + WRITERS + [Decode(), Encode(), SetMax(), ProcessRequest(), LogRequest()]


class SettingsLoop(AutoFold):
    """every entry is applied in order: HEADER_TABLE_SIZE bounds the encoder, the others do not touch it"""
    start = 's'

    def arbitrary(self, st):
        p, G = st.p, st.p.ghost
        G['i'] = p.freshbv('entries', 64)
        p.assume(ule(G['i'], G['settings'].len))
        G['calls'] = []

    def seq_value(self, st, loc, old):
        return old

    def check_seq(self, st, v):
        prove_eq(st.p, v, st.entry[[l for lv, t, l in st.items() if kind_of(lv.load(st.p)) == 'seq'][0]], 'the loop over the settings queues nothing', 'inv')

    def owns(self, st, loc, v):
        return isinstance(v, (Rec, Opaque))

    def other_value(self, st, loc, old):
        return Opaque(old.kind, st.p.fresh('encoder', Obj)) if isinstance(old, Opaque) else old

    def check_other(self, st, loc, v):
        pass

    def step(self, st):
        p, G = st.p, st.p.ghost
        G['g2'], G['path2'] = None, ()
        s = G['settings']
        if p.decide(ult(G['i'], s.len)):
            G['g2'] = 's'
            G['setting'] = s.at(p, G['i'])
            G['calls'] = []

    def back(self, st):
        p, G = st.p, st.p.ghost
        if G['gk'] is not None and G['g2']:
            self.check(p)
            p.reached()
        AutoFold.back(self, st)

    def check(self, p):
        s = p.ghost['setting']
        cs = calls(p, 'setmax')
        if p.decide(Eq(s.f['identifier'], 1)):
            p.prove(len(cs) == 1, 'a HEADER_TABLE_SIZE entry sets the maximum of the encoder', 'post', self.info)
            for c in cs:
                p.prove(ule(c[1], simp(z3.ZeroExt(32, bv(s.f['value'], 32)))), 'the encoder stays within the table size the peer announced', 'post', self.info)
                p.prove(ule(c[1], 4096), 'the encoder stays within the default table size', 'post', self.info)
        else:
            p.prove(not cs, 'other settings do not change the encoder', 'post', self.info)


class ReadSettings:
    """C08: Http2FrameReader::read_settings"""
    name = 'Http2FrameReader::read_settings'

    def apply(self, I, this, vals):
        p = I.p
        n = this.load(p).f['payload_'].len
        ok = Eq(simp(z3.URem(bv(n, 64), 6)), 0)
        s = Base(p, p.fresh('settings', Obj), I.elem_maker(parse_type('ion::Http2Setting')))
        p.fact(z3.Implies(zb(ok), zb(Eq(simp(bv(s.len, 64) * 6), n))))
        p.ghost['settings'] = s
        record(p, 'read_settings', s)
        return Opt(ok, s, p.freshbv('frame.error', 32), 'expected')


def spec_block(p, flags, payload):
    """RFC 9113 6.2: (valid, offset, length) of the field block in a HEADERS payload"""
    f = bv(flags, 8)
    n = payload.len
    padded, prio = simp((f & 8) != 0), simp((f & 0x20) != 0)
    pre = add(Ite(padded, 1, 0, 64), Ite(prio, 5, 0, 64))
    pad = Ite(padded, simp(z3.ZeroExt(56, bv(payload.at(p, 0), 8))), 0, 64)
    ok = And(ule(pre, n), ule(add(pre, pad), n))
    return ok, pre, sub(n, add(pre, pad))


FRAME_CASES = ['settings', 'headers', 'window_update', 'goaway', 'other']


def unit_process_frame(case):
    loop = SettingsLoop()
    idle = IdleLoop(lambda p: calls(p, 'decode')[0][3].len)

    def h(I, p):
        cn = mk_conn(I, p)
        b0 = dict(cn.load(p).f)
        data = p.bytes_('payload')
        p.assume(ule(data.len, MAXF))
        dl = p.newlv('payload', data, OCTETS)
        hdr = I.symbolic(parse_type('ion::Http2FrameHeader'), 'header')
        p.assume(Eq(simp(z3.ZeroExt(32, bv(hdr.f['length'], 32))), data.len))
        p.assume(z3.ULT(hdr.f['stream_id'], 1 << 31))
        typ = {'settings': 4, 'headers': 1, 'window_update': 8, 'goaway': 7}.get(case)
        if typ is not None:
            hdr = hdr.with_('type', typ)
        else:
            p.assume(And(*[Not(Eq(hdr.f['type'], t)) for t in (1, 4, 7, 8)]))
        fl = bv(hdr.f['flags'], 8)
        info = lambda m: dict(op='frame', type=m.eval(bv(hdr.f['type'], 8), True).as_long(), flags=m.eval(fl, True).as_long(),
                              stream=m.eval(bv(hdr.f['stream_id'], 32), True).as_long(), payload=model_bytes(m, data, 0, 400))
        loop.info = info
        rd = p.newlv('reader', Rec('Http2FrameReader', {'header_': hdr, 'payload_': SpanV(dl, 0, data.len)}), parse_type('ion::Http2FrameReader'))
        p.assume(in_state(I, p, cn, 'AwaitingFrame'))
        try:
            I.exec_function(the_fn(I, C, 'process_frame'), cn, [rd])
        except CppThrow as e:
            p.prove(False, 'handling a frame does not throw %s' % e.cls, 'post', info)
            return
        wb, wb0 = fld(p, cn, 'write_buffer_'), b0['write_buffer_']
        err = in_state(I, p, cn, 'ProtocolError')
        same_state = Eq(fld(p, cn, 'state_'), b0['state_'])
        keep = [k for k in b0 if k not in ('write_buffer_', 'transport_', 'router_', 'state_', 'last_stream_id_', 'encoder_', 'decoder_', 'encoder_dynamic_table_', 'decoder_dynamic_table_', 'last_activity_')]
        unchanged(p, cn, b0, keep, 'process_frame', info)
        em = p.ghost['emitted']
        prove_eq(p, wb, cat(wb0, *[e[1] for e in em]), 'output is only appended, whole frames at a time', 'frame', info)

        def nothing(what):
            p.prove(not em and not calls(p, 'request', 'log', 'decode', 'encode', 'setmax'), '%s: no response and no request' % what, 'post', info)
            p.prove(Eq(fld(p, cn, 'last_stream_id_'), b0['last_stream_id_']), '%s: no request stream is counted' % what, 'post', info)
        if case == 'settings':
            if p.decide(simp((fl & 1) != 0)):
                nothing('SETTINGS ACK')
                p.prove(same_state, 'SETTINGS ACK: the connection goes on', 'post', info)
            elif p.decide(Eq(simp(z3.URem(bv(data.len, 64), 6)), 0)):
                p.prove(same_state, 'valid SETTINGS: the connection goes on', 'post', info)
                p.prove([e[0] for e in em] == ['ack'], 'valid SETTINGS: acknowledged exactly once', 'post', info)
                if p.ghost.get('where') != 'exit':
                    raise ToolLimit('the loop over the settings was not found')
                p.prove(Not(ult(p.ghost['i'], p.ghost['settings'].len)), 'every setting is applied', 'post', info)
                p.prove(not calls(p, 'setmax', 'request', 'log', 'decode', 'encode'), 'SETTINGS: nothing else is done', 'post', info)
            else:
                p.prove(err, 'SETTINGS of a wrong length: connection error', 'post', info)
                nothing('invalid SETTINGS')
        elif case == 'headers':
            ok, off, n = spec_block(p, fl, data)
            dec = calls(p, 'decode')
            if not p.decide(ok):
                p.prove(err, 'HEADERS too short for its flags or padding: connection error', 'post', info)
                nothing('invalid HEADERS')
                return
            p.prove(len(dec) == 1, 'the field block is decoded exactly once', 'post', info)
            if len(dec) != 1:
                return
            prove_eq(p, dec[0][1], slice_(p, data, off, n), 'exactly the field block is decoded', 'post', info)
            if not p.decide(dec[0][2]):
                p.prove(err, 'undecodable field block: connection error', 'post', info)
                p.prove(not em and not calls(p, 'request', 'log'), 'undecodable field block: no response', 'post', info)
                p.prove(Eq(fld(p, cn, 'last_stream_id_'), b0['last_stream_id_']), 'undecodable field block: no request stream is counted', 'post', info)
                return
            p.prove(same_state, 'a request leaves the connection usable', 'post', info)
            sid, l0 = bv(hdr.f['stream_id'], 32), bv(b0['last_stream_id_'], 32)
            p.prove(Eq(fld(p, cn, 'last_stream_id_'), simp(z3.If(z3.ULT(l0, sid), sid, l0))), 'the highest stream of a request is remembered', 'post', info)
            rq, en, lg = calls(p, 'request'), calls(p, 'encode'), calls(p, 'log')
            p.prove(len(rq) == 1 and len(en) == 1, 'a request is answered exactly once', 'post', info)
            if len(rq) != 1 or len(en) != 1:
                return
            resp = rq[0][2]
            prove_eq(p, rq[0][1], dec[0][3], 'the request has all headers that were decoded', 'post', info)
            prove_eq(p, en[0][1], resp.f['headers'], 'the header list sent is the response\'s', 'post', info)
            empty = p.decide(Eq(resp.f['body'].len, 0))
            want = ['headers'] if empty else ['headers', 'data']
            p.prove([e[0] for e in em] == want, 'one header block and then the body are queued', 'post', info)
            if [e[0] for e in em] != want:
                return
            p.prove(Eq(em[0][2], sid), 'the header block is sent on the stream of the request', 'post', info)
            prove_eq(p, em[0][3], en[0][2], 'the header block sent is the encoded one', 'post', info)
            p.prove(Eq(em[0][4], 5 if empty else 4), 'END_STREAM on the header frame iff there is no body', 'post', info)
            if not empty:
                p.prove(Eq(em[1][2], sid), 'the body is sent on the stream of the request', 'post', info)
                prove_eq(p, em[1][3], resp.f['body'], 'the body sent is the response\'s', 'post', info)
            p.prove(len(lg) == 1, 'the request is logged exactly once', 'post', info)
            for c in lg:
                prove_eq(p, seq(p, c[1]), dec[0][3], 'logged: the request\'s headers', 'post', info)
                p.prove(Eq(c[2], resp.f['status_code']), 'logged: the status sent', 'post', info)
                p.prove(Eq(c[3], resp.f['body'].len), 'logged: the size of the body sent', 'post', info)
                prove_eq(p, seq(p, c[4]), b0['client_ip_'], 'logged: the client address', 'post', info)
        elif case == 'window_update':
            nothing('WINDOW_UPDATE')
            if p.decide(Eq(data.len, 4)):
                p.prove(same_state, 'WINDOW_UPDATE: the connection goes on', 'post', info)
            else:
                p.prove(err, 'WINDOW_UPDATE of a wrong length: connection error', 'post', info)
        elif case == 'goaway':
            nothing('GOAWAY')
            p.prove(in_state(I, p, cn, 'ClientClosed'), 'GOAWAY ends the connection', 'post', info)
        else:
            nothing('other frames')
            p.prove(same_state, 'other frames are ignored', 'post', info)
    return Unit('process_frame[%s]' % case, C + '::process_frame', h, rules={'*': lambda I, k, n: loop if case == 'settings' else idle},
                contracts=FRAME_USES + [ReadSettings()])


def units_frame():
    return [unit_process_frame(c) for c in FRAME_CASES]


# --- requests ---------------------------------------------------------------------------------------------------
SERVER_FIELDS = (b'server', b'x-powered-by')


class GetHandler:
    """Router::get_handler (C15): the handler routing selects"""
    name = 'Router::get_handler'

    def apply(self, I, this, vals):
        p = I.p
        f = FnSpec('handler', self.call, p.fresh('handler', Obj))
        record(p, 'route', seq(p, vals[0]), seq(p, vals[1]), f)
        return f

    def call(self, I, vals):
        p = I.p
        r = I.symbolic(parse_type('ion::HttpResponse'), 'handler.response')
        p.assume(ule(r.f['body'].len, 1 << 32))
        how = ('returns', 'throws std::exception', 'throws something else')[p.choose(3)]
        record(p, 'handle', load(p, vals[0]), r, how)
        if how == 'throws std::exception':
            raise CppThrow('?std::exception')
        if how != 'returns':
            raise CppThrow('?')
        return r


def named(I, p, hs, name):
    """index of the first header of that name, or the length"""
    return L.first_index(I, 0, hs.len, lambda k: eq_formula(p, hs.at(p, k).f['name'], lit_of(name)))


class NameSearch(SearchFold):
    """a loop that looks for the first header of a name held by a variable in scope"""

    def __init__(self, hs, name):
        self.n = hs.len
        self.pred_of = lambda p: lambda k: eq_formula(p, hs.at(p, k).f['name'], lit_of(name))

    def entry(self, st):
        self.pred = self.pred_of(st.p)
        SearchFold.entry(self, st)

    def instances(self, st):
        p = st.p
        L.first_instance(p.I, p.ghost['i'])
        for lo, hi, k, pred in p.ghost.get('firsts', []):
            not_before(p, k, k)

    def step(self, st):
        SearchFold.step(self, st)
        self.instances(st)              # the body may return

    def exit(self, st):
        self.instances(st)
        SearchFold.exit(self, st)


def name_search(I, p, hs, names):
    found = set()
    for v in I.frames[-1].vars.values():
        try:
            x = v.load(p) if isinstance(v, LV) else None
        except ToolLimit:
            continue
        if isinstance(x, Lit) and all(isinstance(e, int) for e in x.e):
            b = bytes(x.e).rstrip(b'\0')
            if b in names:
                found.add(b)
    return NameSearch(hs, found.pop()) if len(found) == 1 else None


def unit_process_request():

    def h(I, p):
        cn = mk_conn(I, p)
        b0 = dict(cn.load(p).f)
        hs = hdr_list(I, p, 'headers')
        p.assume(ule(hs.len, 1 << 40))
        hl = p.newlv('headers', hs, parse_type('std::vector<ion::HttpHeader>'))
        p.ghost['hs'] = hs
        info = lambda m: dict(op='request')
        kp, km = [named(I, p, hs, n) for n in (b':path', b':method')]
        r = I.exec_function(the_fn(I, C, 'process_request'), cn, [hl, Opaque('otel', 0)])
        G = p.ghost

        rt, hd = calls(p, 'route'), calls(p, 'handle')
        status, body, own = None, None, None
        present = And(ult(kp, hs.len), ult(km, hs.len))
        if p.decide(present):
            p.prove(len(rt) == 1 and len(hd) == 1, 'the handler is called exactly once', 'post', info)
            if len(rt) != 1 or len(hd) != 1:
                return
            prove_eq(p, rt[0][1], hs.at(p, kp).f['value'], 'routing is given the first :path', 'post', info)
            prove_eq(p, rt[0][2], hs.at(p, km).f['value'], 'routing is given the first :method', 'post', info)
            req = hd[0][1]
            prove_eq(p, req.f['method'], hs.at(p, km).f['value'], 'the handler sees the method', 'post', info)
            prove_eq(p, req.f['path'], hs.at(p, kp).f['value'], 'the handler sees the path', 'post', info)
            prove_eq(p, req.f['headers'], hs, 'the handler sees all request headers', 'post', info)
            if hd[0][3] == 'returns':
                status, body, own = hd[0][2].f['status_code'], hd[0][2].f['body'], hd[0][2].f['headers']
            else:
                status, body, own = 500, EMPTY, EMPTY
        else:
            p.prove(not rt and not hd, 'no handler for a request without :path or :method', 'post', info)
            status, body, own = 400, EMPTY, EMPTY
        p.prove(Eq(r.f['status_code'], status), 'the status is the handler\'s, 400 or 500', 'post', info)
        prove_eq(p, r.f['body'], body, 'the body is the handler\'s', 'post', info)
        # headers: :status, the handler's, content-length, server identification
        out = r.f['headers']
        st = Rec('HttpHeader', {'name': lit_of(b':status'), 'value': L.decimal(I, status, parse_type('unsigned short'))})
        mid = []
        if p.decide(ult(0, body.len)):
            mid = [Rec('HttpHeader', {'name': lit_of(b'content-length'), 'value': L.decimal(I, body.len, parse_type('unsigned long'))})]
        head = cat(Lit([st]), own, Lit(mid))
        prove_eq(p, slice_(p, out, 0, head.len), head, 'the header list: :status, the handler\'s headers in order, content-length iff there is a body', 'post', info)
        tail = slice_(p, out, head.len, sub(out.len, head.len))
        if not isinstance(tail, Lit):
            raise ToolLimit('the end of the header list was not recognised')
        names = [x.f['name'] for x in tail.e]
        p.prove(all(isinstance(n, Lit) and bytes(n.e) in SERVER_FIELDS for n in names), 'then only server identification', 'post', info)
        p.prove(sum(isinstance(n, Lit) and bytes(n.e) == b'server' for n in names) == 1, 'the server is identified once', 'post', info)
        unchanged(p, cn, b0, [k for k in b0 if k not in ('transport_', 'router_')], 'process_request', info)
        prove_eq(p, hl.load(p), hs, 'the request is not changed', 'frame', info)
    return Unit('process_request', C + '::process_request', h, contracts=[GetHandler()], rules={'*': lambda I, k, n: name_search(I, I.p, I.p.ghost['hs'], (b':path', b':method'))})


def units_request():
    return [unit_process_request()]


# --- the transport -------------------------------------------------------------------------------------------------
def TERR(I, n):
    return I.P.enums['TransportError']['consts'][n]


def transport_error(I, p, *options):
    """an arbitrary error the transport may report"""
    consts = I.P.enums['TransportError']['consts']
    w = I.P.enums['TransportError']['width']
    e = p.freshbv('transport.error', w)
    p.fact(z3.Or([e == c for c in consts.values()]))
    return e


class TRead:
    """Transport::read (C21): up to size octets of input, or an error; the rest of the buffer is untouched"""
    name = 'Transport::read'

    def apply(self, I, this, vals):
        p = I.p
        b = load(p, vals[0])
        if p.choose(2):
            e = transport_error(I, p)
            record(p, 'read', None, e)
            return Opt(False, None, e, 'expected')
        got = p.bytes_('received')
        p.assume(And(ult(0, got.len), ule(got.len, b.len)))
        old = b.lv.load(p)
        n = add(b.off, got.len)
        b.lv.store(p, cat(slice_(p, old, 0, b.off), got, slice_(p, old, n, sub(old.len, n))))
        t = LVField(this, '#in')
        t.store(p, cat(t.load(p), got))
        record(p, 'read', got, None)
        return Opt(True, got.len, None, 'expected')


class TWrite:
    """Transport::write (C21): a prefix of the octets given is sent, or nothing and an error"""
    name = 'Transport::write'

    def apply(self, I, this, vals):
        p = I.p
        d = seq(p, vals[0])
        if p.choose(2):
            e = transport_error(I, p)
            record(p, 'write', None, e)
            return Opt(False, None, e, 'expected')
        n = p.freshbv('written', 64)
        p.assume(ule(n, d.len))
        t = LVField(this, '#sent')
        t.store(p, cat(t.load(p), slice_(p, d, 0, n)))
        record(p, 'write', n, None)
        return Opt(True, n, None, 'expected')


class THandshake:
    name = 'Transport::handshake'

    def apply(self, I, this, vals):
        p = I.p
        if p.choose(2):
            e = transport_error(I, p)
            record(p, 'handshake', e)
            return Opt(False, None, e, 'expected')
        record(p, 'handshake', None)
        return Opt(True, None, None, 'expected')


class TShutdown:
    name = 'Transport::graceful_shutdown'

    def apply(self, I, this, vals):
        record(I.p, 'shutdown')


TRANSPORT = [TRead(), TWrite(), THandshake(), TShutdown()]
SAVED = ('transport_', 'router_')


def rest(b0, *except_):
    return [k for k in b0 if k not in SAVED + except_]


# --- input -----------------------------------------------------------------------------------------------------------
def frame_trace(p, v, what, info):
    """the concrete octets v are whole frames -> [(type, flags, stream, payload)]"""
    out = []
    while True:
        if same(v.len, 0):
            return out
        if is_sym(v.len) or not isinstance(v, Lit):
            raise ToolLimit('%s: the frames queued are not concrete' % what)
        if v.len < 9:
            p.prove(False, '%s: whole frames are queued' % what, 'post', info)
            return None
        hd = [x if isinstance(x, int) else simp(x) for x in v.e[:9]]
        if any(is_sym(x) for x in hd):
            raise ToolLimit('%s: the frame header queued is not concrete' % what)
        n = hd[0] << 16 | hd[1] << 8 | hd[2]
        if v.len < 9 + n:
            p.prove(False, '%s: whole frames are queued' % what, 'post', info)
            return None
        out.append((hd[3], hd[4], int.from_bytes(bytes(hd[5:9]), 'big'), v.e[9:9 + n]))
        v = Lit(v.e[9 + n:])


def unit_read_preface():
    def h(I, p):
        cn = mk_conn(I, p)
        p.assume(in_state(I, p, cn, 'AwaitingPreface'))
        b0 = dict(cn.load(p).f)
        rb = b0['read_buffer_']
        info = lambda m: dict(op='preface', octets=model_bytes(m, rb, 0, 40))
        r = I.exec_function(the_fn(I, C, 'read_preface'), cn, [])
        E = I.P.enums['ReadPrefaceResult']['consts']
        match = And(ule(24, rb.len), *[Eq(bv(rb.at(p, k), 8), c) for k, c in enumerate(PREFACE)])
        if p.decide(ult(rb.len, 24)):
            p.prove(Eq(r, E['NotEnoughData']), 'an incomplete preface is waited for', 'post', info)
            unchanged(p, cn, b0, rest(b0), 'incomplete preface', info)
        elif p.decide(match):
            p.prove(Eq(r, E['Success']), 'the client preface is accepted', 'post', info)
            p.prove(in_state(I, p, cn, 'AwaitingFrame'), 'after the preface frames are read', 'post', info)
            prove_eq(p, fld(p, cn, 'read_buffer_'), slice_(p, rb, 24, sub(rb.len, 24)), 'exactly the preface is consumed', 'post', info)
            wb0, wb = b0['write_buffer_'], fld(p, cn, 'write_buffer_')
            prove_eq(p, slice_(p, wb, 0, wb0.len), wb0, 'what was queued before stays', 'frame', info)
            fr = frame_trace(p, slice_(p, wb, wb0.len, sub(wb.len, wb0.len)), 'settings', info)
            if fr is not None:
                ok = len(fr) == 1 and fr[0][:3] == (4, 0, 0) and len(fr[0][3]) % 6 == 0
                p.prove(ok, 'the server preface, one SETTINGS frame, is queued', 'post', info)
                if ok:
                    s = {int.from_bytes(bytes(fr[0][3][k:k + 2]), 'big'): int.from_bytes(bytes(fr[0][3][k + 2:k + 6]), 'big') for k in range(0, len(fr[0][3]), 6)}
                    p.prove(s.get(5, 16384) == MAXF, 'the frame size announced is the one accepted', 'post', info)
                    p.prove(s.get(1, 4096) == 4096, 'no header table size other than the one the decoder has is announced', 'post', info)
            unchanged(p, cn, b0, rest(b0, 'write_buffer_', 'read_buffer_', 'state_'), 'preface', info)
        else:
            p.prove(Eq(r, E['ProtocolError']), 'anything else is refused', 'post', info)
            unchanged(p, cn, b0, rest(b0, 'state_'), 'wrong preface', info)
    return Unit('read_preface', C + '::read_preface', h)


class ProcessFrame:
    """process_frame as proved in process_frame[...]: queues whole frames, may end the connection, leaves the input alone"""
    name = C + '::process_frame'

    def apply(self, I, this, vals):
        p = I.p
        fr = load(p, vals[0])
        p.require(in_state(I, p, this, 'AwaitingFrame'), 'precondition of process_frame: frames are expected', 'pre')
        pl = fr.f['payload_'].seq(p)
        record(p, 'frame', fr.f['header_'], pl, fld(p, this, 'read_buffer_'))
        emit(p, this, 'frame')
        st = p.freshbv('state.after', I.P.enums['Http2ConnectionState']['width'])
        p.assume(z3.Or([st == STATE(I, n) for n in ('AwaitingFrame', 'ProtocolError', 'ClientClosed')]))
        setf(p, this, 'state_', st)
        setf(p, this, 'last_stream_id_', p.freshbv('last_stream', 32))
        for n in ('encoder_', 'decoder_'):
            v = fld(p, this, n)
            setf(p, this, n, v.with_('#', Opaque(v.f['#'].kind, p.fresh(n, Obj))))


def unit_try_read_frame():
    def h(I, p):
        cn = mk_conn(I, p)
        p.assume(in_state(I, p, cn, 'AwaitingFrame'))
        b0 = dict(cn.load(p).f)
        rb = b0['read_buffer_']
        info = lambda m: dict(op='input', octets=model_bytes(m, rb, 0, 64))
        r = I.exec_function(the_fn(I, C, 'try_read_frame'), cn, [])
        fs = calls(p, 'frame')
        if p.decide(ult(rb.len, 9)):
            p.prove(Eq(r, False), 'an incomplete frame header is waited for', 'post', info)
            p.prove(not fs, 'an incomplete frame is not acted on', 'post', info)
            unchanged(p, cn, b0, rest(b0), 'incomplete frame header', info)
            return
        hd = spec_parse(p, 'Http2FrameHeader', rb)
        n = simp(z3.ZeroExt(32, bv(hd.f['length'], 32)))
        if p.decide(ult(MAXF, n)):
            p.prove(in_state(I, p, cn, 'ProtocolError'), 'a frame of more than 16384 octets is a protocol error at once', 'post', info)
            p.prove(Eq(r, True), 'a frame that is too large does not wait for input', 'post', info)
            p.prove(not fs, 'a frame that is too large is not acted on', 'post', info)
            unchanged(p, cn, b0, rest(b0, 'state_', 'read_buffer_'), 'frame too large', info)
        elif p.decide(ule(add(n, 9), rb.len)):
            p.prove(Eq(r, True), 'a complete frame is processed', 'post', info)
            p.prove(len(fs) == 1, 'a complete frame is processed exactly once', 'post', info)
            if len(fs) != 1:
                return
            prove_eq(p, fs[0][1], hd, 'the frame processed has the header received', 'post', info)
            prove_eq(p, fs[0][2], slice_(p, rb, 9, n), 'the frame processed has exactly its own payload', 'post', info)
            prove_eq(p, fs[0][3], rb, 'the payload stays in place while it is processed', 'post', info)
            prove_eq(p, fld(p, cn, 'read_buffer_'), slice_(p, rb, add(n, 9), sub(rb.len, add(n, 9))), 'exactly the frame is consumed', 'post', info)
            prove_eq(p, fld(p, cn, 'write_buffer_'), cat(b0['write_buffer_'], *[e[1] for e in p.ghost['emitted']]), 'output is only appended', 'frame', info)
            unchanged(p, cn, b0, rest(b0, 'state_', 'read_buffer_', 'write_buffer_', 'last_stream_id_', 'encoder_', 'decoder_', 'encoder_dynamic_table_', 'decoder_dynamic_table_'), 'frame', info)
        else:
            p.prove(Eq(r, False), 'an incomplete frame is waited for', 'post', info)
            p.prove(not fs, 'an incomplete frame is not acted on', 'post', info)
            unchanged(p, cn, b0, rest(b0), 'incomplete frame', info)
    return Unit('try_read_frame', C + '::try_read_frame', h, contracts=[ProcessFrame()])


class FillFold(AutoFold):
    """each iteration appends exactly what one read delivered"""
    start = 's'

    def arbitrary(self, st):
        p, G = st.p, st.p.ghost
        G['i'] = p.freshbv('reads', 64)
        G['in'] = p.bytes_('input')
        p.assume(ule(add(self.rb0.len, G['in'].len), MAXBUF))
        p.assume(ule(G['in'].len, MAXBUF))
        G['calls'] = []
        G['clock'] = p.freshbv('clock', 64)
        p.fact(z3.And(G['clock'] >= 0, G['clock'] < (1 << 62)))

    def seq_value(self, st, loc, old):
        if loc[1][-1:] == ('#in',):
            return st.p.ghost['in']
        if loc[1] == ('read_buffer_',):
            return cat(self.rb0, st.p.ghost['in'])
        raise ToolLimit('a sequence changed by the loop that reads: %s' % (loc[1],))

    def check_seq(self, st, v):
        pass

    def step(self, st):
        p, G = st.p, st.p.ghost
        G['g2'], G['path2'] = 's', ()
        G['calls'] = []
        G['before'] = (LVField(G['tr'], '#in').load(p), dict(self.cn.load(p).f))

    def one(self, p):
        """the effect of the current (partial) iteration"""
        G = p.ghost
        rd = calls(p, 'read')
        p.prove(len(rd) <= 1, 'one read per iteration', 'inv', self.info)
        prove_eq(p, fld(p, self.cn, 'read_buffer_'), cat(self.rb0, LVField(G['tr'], '#in').load(p)), 'the buffer holds exactly the octets received, in order', 'inv', self.info)
        p.prove(ule(fld(p, self.cn, 'read_buffer_').len, MAXBUF), 'at most 64 KiB of input is buffered', 'post', self.info)
        return rd

    def back(self, st):
        p, G = st.p, st.p.ghost
        if G['gk'] is None:
            raise Restart()
        rd = self.one(p)
        p.prove(len(rd) == 1 and rd[0][1] is not None, 'reading goes on only after octets were received', 'inv', self.info)
        p.prove(Eq(fld(p, self.cn, 'last_activity_'), G.get('clock')), 'a successful read is activity', 'post', self.info)
        self.state_same(p)
        AutoFold.back(self, st)
        p.reached()

    def state_same(self, p):
        p.prove(Eq(fld(p, self.cn, 'state_'), p.ghost['before'][1]['state_']), 'received octets do not change the state', 'inv', self.info)

    def exit(self, st):
        st.p.ghost['where'] = 'exit'


def unit_fill():
    rule = FillFold()

    def h(I, p):
        cn = mk_conn(I, p)
        b0 = dict(cn.load(p).f)
        rb = b0['read_buffer_']
        rule.cn, rule.rb0 = cn, rb
        rule.info = info = lambda m: dict(op='fill', buffered=m.eval(bv(rb.len, 64), True).as_long())
        p.ghost['before'] = (EMPTY, b0)
        I.exec_function(the_fn(I, C, 'fill_read_buffer'), cn, [])
        if 'before' not in p.ghost or 'gk' not in p.ghost:
            raise ToolLimit('the loop that reads was not found')
        G = p.ghost
        rd = rule.one(p)
        before = G['before'][1]
        if rd and rd[0][1] is None:
            e = rd[0][2]
            st = fld(p, cn, 'state_')
            p.prove(Eq(st, Ite(Eq(e, TERR(I, 'ConnectionClosed')), STATE(I, 'ClientClosed'), Ite(Eq(e, TERR(I, 'ProtocolError')), STATE(I, 'ProtocolError'), before['state_'], 32), 32)),
                    'end of input ends the connection, a transport protocol error too, nothing else', 'post', info)
            p.prove(Eq(fld(p, cn, 'last_activity_'), before['last_activity_']), 'a failed read is no activity', 'post', info)
            prove_eq(p, fld(p, cn, 'read_buffer_'), before['read_buffer_'], 'a failed read delivers nothing', 'post', info)
        elif rd:
            rule.state_same(p)
            p.prove(Eq(fld(p, cn, 'last_activity_'), G.get('clock')), 'a successful read is activity', 'post', info)
        else:
            rule.state_same(p)
            p.prove(Eq(fld(p, cn, 'last_activity_'), before['last_activity_']), 'nothing read is no activity', 'post', info)
            p.prove(ule(MAXF + 9, fld(p, cn, 'read_buffer_').len), 'reading stops early only when the largest frame is sure to be complete', 'post', info)
        unchanged(p, cn, b0, rest(b0, 'read_buffer_', 'state_', 'last_activity_'), 'fill_read_buffer', info)
    return Unit('fill_read_buffer', C + '::fill_read_buffer', h, contracts=TRANSPORT, rules={C + '::fill_read_buffer': rule})


# --- output ----------------------------------------------------------------------------------------------------------
def unit_flush():
    def h(I, p):
        cn = mk_conn(I, p)
        b0 = dict(cn.load(p).f)
        wb = b0['write_buffer_']
        tr = p.ghost['tr']
        info = lambda m: dict(op='flush')
        r = I.exec_function(the_fn(I, C, 'flush_write_buffer'), cn, [])
        sent = LVField(tr, '#sent').load(p)
        w = calls(p, 'write')
        prove_eq(p, cat(sent, fld(p, cn, 'write_buffer_')), wb, 'what is sent and what stays queued is exactly what was queued, in order', 'post', info)
        unchanged(p, cn, b0, rest(b0, 'write_buffer_', 'state_', 'last_activity_'), 'flush_write_buffer', info)
        if not w:
            p.prove(Eq(wb.len, 0), 'queued output is offered to the transport', 'post', info)
            p.prove(Eq(r, True), 'nothing to send is no failure', 'post', info)
            unchanged(p, cn, b0, ['state_', 'last_activity_'], 'nothing to send', info)
            return
        p.prove(len(w) == 1, 'the transport is asked once', 'post', info)
        if w[0][1] is None:
            prove_eq(p, fld(p, cn, 'write_buffer_'), wb, 'after a write that sent nothing the queue is as before', 'post', info)
            p.prove(Eq(fld(p, cn, 'last_activity_'), b0['last_activity_']), 'a failed write is no activity', 'post', info)
            if p.decide(Eq(w[0][2], TERR(I, 'WantReadOrWrite'))):
                p.prove(Eq(r, True), 'a blocked write is no failure', 'post', info)
                p.prove(Eq(fld(p, cn, 'state_'), b0['state_']), 'a blocked write leaves the state', 'post', info)
            else:
                p.prove(Eq(r, False), 'a failed write is reported', 'post', info)
        else:
            p.prove(Eq(r, True), 'a successful write is no failure', 'post', info)
            p.prove(Eq(fld(p, cn, 'state_'), b0['state_']), 'a successful write leaves the state', 'post', info)
            p.prove(Eq(fld(p, cn, 'last_activity_'), p.ghost.get('clock')), 'a successful write is activity', 'post', info)
    return Unit('flush_write_buffer', C + '::flush_write_buffer', h, contracts=TRANSPORT)


def unit_close():
    def h(I, p):
        cn = mk_conn(I, p)
        b0 = dict(cn.load(p).f)
        p.assume(z3.Or([bv(b0['state_'], 32) == c for c in I.P.enums['Http2ConnectionState']['consts'].values()]))
        info = lambda m: dict(op='close')
        closing = p.decide(in_state(I, p, cn, 'Closing'))
        code = Ite(in_state(I, p, cn, 'ProtocolError'), 1, 0, 32)
        I.exec_function(the_fn(I, C, 'close'), cn, [])
        unchanged(p, cn, b0, rest(b0, 'write_buffer_', 'state_'), 'close', info)
        p.prove(in_state(I, p, cn, 'Closing'), 'the connection is closing', 'post', info)
        if closing:
            prove_eq(p, fld(p, cn, 'write_buffer_'), b0['write_buffer_'], 'a connection already closing is sent no second GOAWAY', 'post', info)
            return
        g = frame_octets(8, 7, 0, 0) + spec_octets('Http2GoAwayPayload', {'last_stream_id': b0['last_stream_id_'], 'error_code': code})
        prove_eq(p, fld(p, cn, 'write_buffer_'), cat(b0['write_buffer_'], Lit(g)), 'one GOAWAY with the highest request stream and the code is queued', 'post', info)
    return Unit('close', C + '::close', h)


def unit_ack():
    def h(I, p):
        cn = mk_conn(I, p)
        b0 = dict(cn.load(p).f)
        I.exec_function(the_fn(I, C, 'write_settings_ack'), cn, [])
        prove_eq(p, fld(p, cn, 'write_buffer_'), cat(b0['write_buffer_'], Lit(frame_octets(0, 4, 1, 0))), 'one empty SETTINGS frame with ACK is queued', 'post')
        unchanged(p, cn, b0, rest(b0, 'write_buffer_'), 'write_settings_ack')
    return Unit('write_settings_ack', C + '::write_settings_ack', h)


def unit_handshake():
    def h(I, p):
        cn = mk_conn(I, p)
        p.assume(in_state(I, p, cn, 'AwaitingHandshake'))
        b0 = dict(cn.load(p).f)
        info = lambda m: dict(op='handshake')
        r = I.exec_function(the_fn(I, C, 'handle_handshake'), cn, [])
        hs = calls(p, 'handshake')
        p.prove(len(hs) == 1, 'one handshake step is made', 'post', info)
        unchanged(p, cn, b0, rest(b0, 'state_', 'last_activity_'), 'handle_handshake', info)
        R = I.P.enums['Http2ProcessResult']['consts']
        if hs[0][1] is None:
            p.prove(Not(r.has), 'after the handshake processing goes on', 'post', info)
            p.prove(in_state(I, p, cn, 'AwaitingPreface'), 'after the handshake the preface is expected', 'post', info)
            p.prove(Eq(fld(p, cn, 'last_activity_'), p.ghost.get('clock')), 'a completed handshake is activity', 'post', info)
        else:
            p.prove(r.has, 'a handshake that is not complete ends processing', 'post', info)
            unchanged(p, cn, b0, ['state_', 'last_activity_'], 'handshake not complete', info)
            if r.has is not False:
                p.prove(Eq(r.val, Ite(Eq(hs[0][1], TERR(I, 'WantReadOrWrite')), R['WantRead'], R['DiscardConnection'], 32)), 'a blocked handshake waits, a failed one discards the connection', 'post', info)
    return Unit('handle_handshake', C + '::handle_handshake', h, contracts=TRANSPORT)


def units_io():
    return [unit_read_preface(), unit_try_read_frame(), unit_fill(), unit_flush(), unit_close(), unit_ack(), unit_handshake()]


# --- the processing loop -------------------------------------------------------------------------------------------
def any_state(I, p, cn, *names):
    st = p.freshbv('state', I.P.enums['Http2ConnectionState']['width'])
    p.assume(z3.Or([st == STATE(I, n) for n in names]))
    setf(p, cn, 'state_', st)


def idle_output(I, p, cn, what):
    p.require(Eq(fld(p, cn, 'write_buffer_').len, 0), '%s only when no output is pending' % what, 'pre', p.ghost.get('info'))


class HandleHandshake:
    name = C + '::handle_handshake'

    def apply(self, I, this, vals):
        p = I.p
        p.require(in_state(I, p, this, 'AwaitingHandshake'), 'the handshake is made only before anything else', 'pre', p.ghost.get('info'))
        R = I.P.enums['Http2ProcessResult']['consts']
        k = p.choose(3)
        record(p, 'hs', ('done', 'blocked', 'failed')[k])
        if k == 0:
            any_state(I, p, this, 'AwaitingPreface')
            setf(p, this, 'last_activity_', p.freshbv('act', 64))
            return Opt(False, R['WantRead'])
        return Opt(True, R['WantRead'] if k == 1 else R['DiscardConnection'])


class Flush:
    name = C + '::flush_write_buffer'

    def apply(self, I, this, vals):
        p = I.p
        wb = fld(p, this, 'write_buffer_')
        if not p.decide(ult(0, wb.len)):
            record(p, 'flush', 'empty')
            return True
        k = p.choose(3)
        record(p, 'flush', ('sent', 'blocked', 'failed')[k])
        if k == 0:
            n = p.freshbv('sent', 64)
            p.assume(ule(n, wb.len))
            setf(p, this, 'write_buffer_', slice_(p, wb, n, sub(wb.len, n)))
            setf(p, this, 'last_activity_', p.freshbv('act', 64))
        elif k == 2:
            any_state(I, p, this, *I.P.enums['Http2ConnectionState']['consts'])
            return False
        return True


class Fill:
    name = C + '::fill_read_buffer'

    def apply(self, I, this, vals):
        p = I.p
        idle_output(I, p, this, 'input is read')
        p.require(Not(in_state(I, p, this, 'ProtocolError', 'AwaitingHandshake')), 'input is read only while it is of use', 'pre', p.ghost.get('info'))
        record(p, 'fill')
        st = fld(p, this, 'state_')
        got = p.bytes_('got')
        rb = fld(p, this, 'read_buffer_')
        p.assume(ule(got.len, MAXBUF))
        p.assume(ule(add(rb.len, got.len), MAXBUF))
        setf(p, this, 'read_buffer_', cat(rb, got))
        setf(p, this, 'last_activity_', p.freshbv('act', 64))
        k = p.choose(3)
        if k:
            any_state(I, p, this, ('ClientClosed', 'ProtocolError')[k - 1])
            record(p, 'input', ('closed', 'broken')[k - 1])


class ReadPreface:
    name = C + '::read_preface'

    def apply(self, I, this, vals):
        p = I.p
        idle_output(I, p, this, 'the preface is handled')
        p.require(in_state(I, p, this, 'AwaitingPreface'), 'the preface is handled only when it is expected', 'pre', p.ghost.get('info'))
        E = I.P.enums['ReadPrefaceResult']['consts']
        k = p.choose(3)
        record(p, 'preface', ('ok', 'short', 'wrong')[k])
        if k == 0:
            rb = fld(p, this, 'read_buffer_')
            p.assume(ule(24, rb.len))
            setf(p, this, 'read_buffer_', slice_(p, rb, 24, sub(rb.len, 24)))
            emit(p, this, 'settings')
            any_state(I, p, this, 'AwaitingFrame')
            return E['Success']
        if k == 2:
            any_state(I, p, this, 'AwaitingPreface', 'ProtocolError')
        return E['NotEnoughData'] if k == 1 else E['ProtocolError']


class TryReadFrame:
    name = C + '::try_read_frame'

    def apply(self, I, this, vals):
        p = I.p
        idle_output(I, p, this, 'a frame is handled')
        p.require(in_state(I, p, this, 'AwaitingFrame'), 'a frame is handled only when frames are expected', 'pre', p.ghost.get('info'))
        k = p.choose(3)
        record(p, 'tryframe', ('handled', 'incomplete', 'too large')[k])
        if k == 1:
            return False
        if k == 2:
            any_state(I, p, this, 'ProtocolError')
            return True
        rb = fld(p, this, 'read_buffer_')
        n = p.freshbv('frame.size', 64)
        p.assume(And(ule(9, n), ule(n, rb.len)))
        setf(p, this, 'read_buffer_', slice_(p, rb, n, sub(rb.len, n)))
        emit(p, this, 'response')
        any_state(I, p, this, 'AwaitingFrame', 'ProtocolError', 'ClientClosed')
        setf(p, this, 'last_stream_id_', p.freshbv('last_stream', 32))
        for f in ('encoder_', 'decoder_'):
            v = fld(p, this, f)
            setf(p, this, f, v.with_('#', Opaque(v.f['#'].kind, p.fresh(f, Obj))))
        return True


class Close:
    name = C + '::close'

    def apply(self, I, this, vals):
        p = I.p
        was = fld(p, this, 'state_')
        record(p, 'close', was)
        if not p.decide(in_state(I, p, this, 'Closing')):
            emit(p, this, 'goaway')
            any_state(I, p, this, 'Closing')


LOOP_USES = [HandleHandshake(), Flush(), Fill(), ReadPreface(), TryReadFrame(), Close()] + TRANSPORT


class ProcessLoop(AutoFold):
    start = 's'

    def arbitrary(self, st):
        p, G = st.p, st.p.ghost
        G['i'] = p.freshbv('rounds', 64)

    def seq_value(self, st, loc, old):
        b = st.p.bytes_('any.' + loc[1][-1])
        st.p.assume(ule(b.len, MAXBUF if loc[1] == ('read_buffer_',) else MAXQ))
        return b

    def check_seq(self, st, v):
        pass

    def owns(self, st, loc, v):
        return isinstance(v, (Opaque, Rec, UPtr, Opt))

    def other_value(self, st, loc, old):
        if isinstance(old, Opaque):
            return Opaque(old.kind, st.p.fresh('any', Obj))
        if isinstance(old, Rec) and '#' in old.f:
            return Rec(old.cls, {**old.f, '#': Opaque(old.f['#'].kind, st.p.fresh('any', Obj))})
        raise ToolLimit('no abstraction for %s of the processing loop' % (loc[1],))

    def check_other(self, st, loc, v):
        pass

    def step(self, st):
        p, G = st.p, st.p.ghost
        G['g2'], G['path2'] = 's', ()
        G['calls'], G['emitted'] = [], []
        s = bv(fld(p, self.cn, 'state_'), 32)
        consts = st.I.P.enums['Http2ConnectionState']['consts']
        p.assume(z3.Or([s == c for c in consts.values()]))
        names = sorted(consts)
        G['head'] = names[p.choose_case([s == consts[n] for n in names])]
        G['round'] = True

    def back(self, st):
        p = st.p
        if p.ghost['gk'] is not None:
            self.judge(st.I, p, None)
            p.prove(ule(fld(p, self.cn, 'read_buffer_').len, MAXBUF), 'at most 64 KiB of input is buffered', 'inv')
            p.reached()
        AutoFold.back(self, st)

    def judge(self, I, p, r):
        """one round from state G['head'] to the next round (r None) or to the result r"""
        G, cn, info = p.ghost, self.cn, self.info
        R = I.P.enums['Http2ProcessResult']['consts']
        ev = [(c[0], c[1] if len(c) > 1 else None) for c in G['calls']]
        kinds = [e[0] for e in ev]
        name = None if r is None else {v: k for k, v in R.items()}.get(r, '?') if not is_sym(r) else None
        if r is not None and name is None:
            raise ToolLimit('the result is not determined on this path')
        head = G['head']
        ok = lambda c, t: p.prove(c, t, 'post', info)
        ok((kinds[:1] == ['hs']) == (head == 'AwaitingHandshake') and kinds.count('hs') <= 1, 'the handshake is made exactly while it is expected')
        if kinds[:1] == ['hs']:
            how = ev[0][1]
            if how != 'done':
                ok(len(ev) == 1, 'nothing is processed before the handshake is complete')
                ok(name == ('WantRead' if how == 'blocked' else 'DiscardConnection'), 'a blocked handshake waits, a failed one discards the connection')
                return
            ev, kinds = ev[1:], kinds[1:]
        ok(kinds[:1] == ['flush'], 'pending output is sent first')
        if kinds[:1] != ['flush']:
            return
        how = ev[0][1]
        if how == 'failed':
            ok(name == 'DiscardConnection' and len(ev) == 1, 'a failed write discards the connection')
            return
        ev, kinds = ev[1:], kinds[1:]
        if not kinds and p.decide(ult(0, fld(p, cn, 'write_buffer_').len)):
            ok(name == 'WantWrite', 'pending output is waited for')
            return
        handled = [e for e in ev if e[0] in ('preface', 'tryframe')]
        ok(len(handled) <= 1, 'one thing is handled per round')
        ended = head in ('ClientClosed', 'ProtocolError', 'Closing') or ('input', 'closed') in ev or ('input', 'broken') in ev
        if ended:
            ok(not handled, 'nothing is handled after the end of the connection')
            ok(name == 'DiscardConnection', 'a finished connection is reported for disposal')
            proto = head == 'ProtocolError' or (('input', 'broken') in ev)
            cl = [e for e in ev if e[0] == 'close']
            if proto:
                ok(len(cl) == 1 and [e[0] for e in G['emitted']] == ['goaway'], 'a protocol error is answered by one GOAWAY')
                if len(cl) == 1:
                    ok(Eq(cl[0][1], STATE(I, 'ProtocolError')), 'the GOAWAY has the code PROTOCOL_ERROR')
                    ok('flush' in kinds[kinds.index('close'):], 'the GOAWAY is offered to the transport')
            else:
                ok(not cl and not G['emitted'], 'nothing is answered on a finished connection')
                if head == 'Closing' and ('input', 'closed') not in ev:
                    ok('shutdown' in kinds, 'a closing connection is shut down')
            return
        ok(not G['emitted'] or [e[0] for e in G['emitted']] in (['settings'], ['response']), 'only SETTINGS and responses are queued')
        ok(len(handled) == 1, 'a live connection handles its input')
        if len(handled) != 1:
            return
        h = handled[0]
        if h == ('preface', 'wrong'):
            ok(name == 'DiscardConnection', 'a wrong preface ends the connection')
        elif h in (('preface', 'short'), ('tryframe', 'incomplete')):
            ok(name == 'WantRead', 'incomplete input is waited for')
        else:
            ok(name is None, 'after a frame or the preface processing goes on')

    def exit(self, st):
        st.p.ghost['where'] = 'exit'


def unit_internal_process():
    rule = ProcessLoop()

    def h(I, p):
        cn = mk_conn(I, p)
        rule.cn = cn
        rule.info = p.ghost['info'] = lambda m: dict(op='process', state=m.eval(bv(fld(p, cn, 'state_'), 32), True).as_long())
        try:
            r = I.exec_function(the_fn(I, C, 'internal_process'), cn, [])
        except CppThrow as e:
            p.prove(False, 'processing does not throw %s' % e.cls, 'post', rule.info)
            return
        if not p.ghost.get('round') or 'gk' not in p.ghost:
            raise ToolLimit('the processing loop was not found')
        rule.judge(I, p, r)
        p.prove(ule(fld(p, cn, 'read_buffer_').len, MAXBUF), 'at most 64 KiB of input is buffered', 'inv')
    return Unit('internal_process', C + '::internal_process', h, contracts=LOOP_USES, rules={C + '::internal_process': rule})


class InternalProcess:
    """any outcome, any exception"""
    name = C + '::internal_process'

    def apply(self, I, this, vals):
        p = I.p
        k = p.choose(3)
        record(p, 'internal', k)
        any_state(I, p, this, *I.P.enums['Http2ConnectionState']['consts'])
        if k == 1:
            raise CppThrow('?std::exception')
        if k:
            raise CppThrow('?')
        r = p.freshbv('result', I.P.enums['Http2ProcessResult']['width'])
        p.ghost['r'] = r
        return r


def unit_process():
    def h(I, p):
        cn = mk_conn(I, p)
        try:
            r = I.exec_function(the_fn(I, C, 'process'), cn, [])
        except CppThrow as e:
            p.prove(False, 'process() throws nothing to its caller', 'post')
            return
        c = calls(p, 'internal')
        p.prove(len(c) == 1, 'one processing run', 'post')
        if c and c[0][1] == 0:
            p.prove(Eq(r, p.ghost['r']), 'process() reports the result', 'post')
        else:
            p.prove(Eq(r, I.P.enums['Http2ProcessResult']['consts']['DiscardConnection']), 'an exception discards the connection', 'post')
            p.prove(in_state(I, p, cn, 'ProtocolError', 'Closing', 'ClientClosed'), 'after an exception nothing more is handled', 'post')
    return Unit('process', C + '::process', h, contracts=[InternalProcess()])


def unit_ctor():
    def h(I, p):
        tr = p.newlv('transport', Rec('Transport', {'#sent': EMPTY, '#in': EMPTY}), parse_type('ion::Transport'))
        rt = p.newlv('router', Rec('Router', {'#': Opaque('router', 0)}), parse_type('ion::Router'))
        ip = p.newlv('ip', p.bytes_('ip'), parse_type('std::string'))
        cn = construct(I, C, [UPtr(tr), ip, rt])
        f = cn.load(p).f
        p.prove(in_state(I, p, cn, 'AwaitingHandshake'), 'a new connection awaits the handshake', 'post')
        p.prove(And(Eq(f['read_buffer_'].len, 0), Eq(f['write_buffer_'].len, 0)), 'a new connection has no input and no output', 'post')
        p.prove(Eq(f['last_stream_id_'], 0), 'a new connection has received no request', 'post')
        for t in ('decoder_dynamic_table_', 'encoder_dynamic_table_'):
            d = f[t].f
            p.prove(And(Eq(d['max_table_size_'], 4096), Eq(d['table_size_'], 0), Eq(d['table_'].len, 0)), '%s is empty with the protocol default size 4096' % t, 'post')
        p.prove(f['decoder_'].f['dynamic_table_'].lv.key() == LVField(cn, 'decoder_dynamic_table_').key() and
                f['encoder_'].f['dynamic_table_'].lv.key() == LVField(cn, 'encoder_dynamic_table_').key(), 'decoder and encoder each use their own table', 'post')
        p.prove(Not(f['encoder_'].f['pending_min_table_size_'].has), 'no table size change is pending', 'post')
        prove_eq(p, f['client_ip_'], ip.load(p), 'the client address is kept', 'post')
        p.prove(Eq(f['last_activity_'], p.ghost.get('clock')), 'creation is activity', 'post')
    return Unit('Http2Connection::Http2Connection', C + '::' + C, h)


def unit_log_contents():
    idle = IdleLoop(lambda p: p.ghost['n'])

    def h(I, p):
        n = Base(p, p.fresh('entries', Obj), I.elem_maker(parse_type('ion::HttpHeader')))
        p.assume(ule(n.len, 1 << 30))
        p.ghost['n'] = n.len
        v = Rec('DynamicTable', {'table_': n, 'table_size_': p.freshbv('size', 64), 'max_table_size_': p.freshbv('max', 64)})
        f0 = I.all_fields('DynamicTable')
        v = Rec('DynamicTable', {x['name']: (n if x['name'] == 'table_' else I.symbolic(I.T(x), x['name'])) for x in f0})
        t = p.newlv('table', v, parse_type('ion::DynamicTable'))
        I.exec_function(the_fn(I, 'DynamicTable', 'log_contents'), t, [])
        prove_eq(p, t.load(p), v, 'logging does not change the table', 'frame')
    return Unit('DynamicTable::log_contents', 'DynamicTable::log_contents', h, rules={'*': lambda I, k, n: idle})


def units_loop():
    return [unit_internal_process(), unit_process(), unit_ctor(), unit_log_contents()]


def units_c11():
    return [unit_frames('headers', 4), unit_frames('headers', 5), unit_frames('data')]

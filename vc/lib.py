"""Meaning of the standard library and system calls used by the verified code (trusted; listed in the evidence)."""
import re, sys
import z3
from .sym import *
from . import maps as M
from .types import parse_type, node_type_str, T as Type

U64 = parse_type('unsigned long')
I64 = parse_type('long')

EXT_INT = {'std::byte': (8, False), 'std::strong_ordering': (8, True), 'std::_Ios_Openmode': (32, True), 'std::ios_base::openmode': (32, True),
           'EPOLL_EVENTS': (32, False), '__socket_type': (32, True)}
_U = parse_type('unsigned int')
_S = parse_type('unsigned short')
_C = parse_type('std::array<unsigned char, 8>')
EXT_RECORDS = {'pollfd': {'fd': parse_type('int'), 'events': parse_type('short'), 'revents': parse_type('short')},
               'in_addr': {'s_addr': _U}, 'in6_addr': {'octets': parse_type('std::array<unsigned char, 16>')},
               'sockaddr_in': {'sin_family': _S, 'sin_port': _S, 'sin_addr': parse_type('in_addr'), 'sin_zero': _C},
               'sockaddr_in6': {'sin6_family': _S, 'sin6_port': _S, 'sin6_flowinfo': _U, 'sin6_addr': parse_type('in6_addr'), 'sin6_scope_id': _U},
               'sockaddr_storage': {'ss_family': _S, '__ss_padding': parse_type('std::array<unsigned char, 118>'), '__ss_align': parse_type('unsigned long')},
               'epoll_event': {'events': _U, 'data': parse_type('epoll_data')},
               'epoll_data': {'fd': parse_type('int')}}
ENUMCONST = {'SOCK_STREAM': 1, 'SOCK_NONBLOCK': 0o4000, 'SOCK_CLOEXEC': 0o2000000, 'IPPROTO_TCP': 6, 'IPPROTO_IP': 0, 'SHUT_RD': 0, 'SHUT_WR': 1, 'SHUT_RDWR': 2, 'EPOLLIN': 1, 'EPOLLPRI': 2, 'EPOLLOUT': 4, 'EPOLLERR': 8,
             'EPOLLHUP': 16, 'EPOLLRDHUP': 0x2000, '_S_in': 8, '_S_out': 16, '_S_bin': 4, '_S_ate': 2, '_S_app': 1, '_S_trunc': 32}
LOGLEVEL = {'trace': 0, 'debug': 1, 'info': 2, 'warn': 3, 'err': 4, 'critical': 5, 'off': 6}
VIEW = {'std::span', 'std::string_view'}
SEQ = {'std::vector', 'std::deque', 'std::string', 'std::array', 'std::string_view', 'std::span', 'std::initializer_list'}


class DefaultArg:
    pass


class FnRef:
    __slots__ = ('decl',)

    def __init__(self, d):
        self.decl = d


class CStr:
    """pointer to a NUL-terminated string with the given contents"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


class Drop:
    """std::views::drop(n) adaptor"""
    def __init__(self, n):
        self.n = n


class Ordering:
    def __init__(self, a, b, signed):
        self.a, self.b, self.signed = a, b, signed


_ESC = {'n': 10, 't': 9, 'r': 13, '0': 0, '\\': 92, '"': 34, "'": 39, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '?': 63, 'e': 27}


def c_unescape(s):
    s = s[s.index('"') + 1:]
    s = s[:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c != '\\':
            out += c.encode('utf-8')
            i += 1
            continue
        d = s[i + 1]
        if d == 'x':
            j = i + 2
            while j < len(s) and s[j] in '0123456789abcdefABCDEF':
                j += 1
            out.append(int(s[i + 2:j], 16) & 255)
            i = j
        elif d in '01234567':
            j = i + 1
            while j < len(s) and j < i + 4 and s[j] in '01234567':
                j += 1
            out.append(int(s[i + 1:j], 8) & 255)
            i = j
        elif d in _ESC:
            out.append(_ESC[d])
            i += 2
        else:
            raise ToolLimit('string escape \\%s' % d)
    return bytes(out)


def sizeof(I, t):
    t = t.strip()
    if t.kind in ('int', 'bool'):
        return max(1, I.width(t) // 8)
    if t.kind == 'ptr':
        return 8
    if t.kind == 'array':
        return t.n * sizeof(I, t.args[0])
    if t.kind == 'class' and t.name == 'std::array':
        return t.args[1].n * sizeof(I, t.args[0])
    k = {'sockaddr_in': 16, 'sockaddr_in6': 28, 'sockaddr_storage': 128, 'epoll_event': 12, 'pollfd': 8}.get(t.simple)
    if k:
        return k
    raise ToolLimit('sizeof %s' % t)


def default_value(I, t):
    n = t.name
    if n.startswith('std::chrono::'):
        return 0
    if n in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set'):
        return Lit(())
    if n == 'std::error_code':
        return Rec('error_code', {'v': 0})
    if n in ('std::shared_ptr', 'opentelemetry::nostd::shared_ptr'):
        return NULL
    if n in ('std::equal_to', 'std::hash', 'std::less', 'std::nullopt_t', 'std::monostate'):
        return Opaque(n, 0)
    if n == 'std::pair':
        return Rec('pair', {'first': I.default(t.args[0]), 'second': I.default(t.args[1])})
    if n in EXT_RECORDS:
        return Rec(n, {f: I.default(x) for f, x in EXT_RECORDS[n].items()})
    if n in ('stat', 'tm', 'linger'):
        return Opaque('ext:' + n, 0)
    return None


def is_null(I, v):
    if v is None or isinstance(v, Null):
        return True
    if isinstance(v, UPtr):
        return v.cell is None
    if isinstance(v, SymPtr):
        return Not(v.ok)
    if isinstance(v, Opaque) and isinstance(v.data, dict) and 'null' in v.data:
        return v.data['null']
    if isinstance(v, (Ptr, Closure, FnSpec, CStr, FnRef)):
        return False
    if type(v).__name__ == 'UPtrSym':
        return False
    raise ToolLimit('null test of %r' % (v,))


def bit_cast(I, v, ft, tt):
    if isinstance(v, Null):
        return v
    a, b = ft.strip(), tt.strip()
    if a.kind == 'ptr' and b.kind == 'ptr':
        x, y = a.to.strip(), b.to.strip()
        if x.kind in ('int', 'bool') and y.kind in ('int', 'bool') and I.width(x) == I.width(y):
            return v
        if y.kind == 'void' or x.kind == 'void':
            return v
        return Opaque('pointer', ('cast', repr(y)), {'of': v})
    if a.kind == 'ref' or b.kind == 'ref' or a.kind == b.kind:
        return v
    raise ToolLimit('pointer cast %s -> %s' % (ft, tt))


def content(I, v):
    """the sequence a string-like value denotes"""
    if isinstance(v, LV):
        v = v.load(I.p)
    if isinstance(v, Seq):
        return v
    if isinstance(v, SpanV):
        return v.seq(I.p)
    if isinstance(v, CStr):
        return v.s
    if isinstance(v, Ptr):
        return cstr_content(I, v)
    raise ToolLimit('not a sequence: %r' % (v,))


def cstr_content(I, v):
    if isinstance(v, CStr):
        return v.s
    if isinstance(v, Ptr):
        return cstr_in(I, v.lv.load(I.p), v.idx)
    raise ToolLimit('C string of %r' % (v,))


def cstr_in(I, s, idx=0):
    """the C string in an array"""
    if isinstance(s, Lit) and not is_sym(idx):
        e = s.e[idx or 0:]
        for i, x in enumerate(e):
            if is_sym(x):
                raise ToolLimit('symbolic C string')
            if x == 0:
                return Lit(e[:i])
        I.p.require(False, 'C string is terminated')
        raise PathEnd()
    if isinstance(s, Cat) and not is_sym(idx) and not idx:      # text a contract wrote (without a NUL in it), a NUL, anything
        t, z = s.parts[0], s.parts[1]
        if isinstance(t, Base) and str(t.t) in I.p.ghost.get('cstr', ()) and isinstance(z, Lit) and len(z.e) and not is_sym(z.e[0]) and z.e[0] == 0:
            return t
    raise ToolLimit('C string in %r' % (s,))


def equal(I, a, b):
    p = I.p
    if isinstance(a, LV):
        a = a.load(p)
    if isinstance(b, LV):
        b = b.load(p)
    if isinstance(a, M.MFound) or isinstance(b, M.MFound):
        if isinstance(a, M.MFound) and isinstance(b, M.MFound):
            return Eq(a.k, b.k)
        f, e = (a, b) if isinstance(a, M.MFound) else (b, a)
        if isinstance(e, M.MIter) and same(e.idx, f.lv.load(p).base.n):
            return False
        if isinstance(e, M.MIter):
            return Eq(f.lv.load(p).base.posf(f.lv.load(p).base.id, bv(f.k, f.lv.load(p).base.kw)), e.idx)
    if isinstance(a, (Ptr, CStr)) and isinstance(b, Seq):
        a = cstr_content(I, a)
    if isinstance(b, (Ptr, CStr)) and isinstance(a, Seq):
        b = cstr_content(I, b)
    if isinstance(a, Opt) and not isinstance(b, Opt):
        if isinstance(b, Opaque) and b.kind == 'std::nullopt_t':
            return Not(a.has)
        if a.has is False:
            return False
        return And(a.has, equal(I, a.val, b))
    if isinstance(b, Opt) and not isinstance(a, Opt):
        return equal(I, b, a)
    if isinstance(a, Null) or isinstance(b, Null):
        x = b if isinstance(a, Null) else a
        return is_null(I, x)
    if isinstance(a, (bool, int, z3.ExprRef)) and isinstance(b, (bool, int, z3.ExprRef)):
        if isinstance(a, bool) != isinstance(b, bool) and not is_sym(a) and not is_sym(b):
            return int(a) == int(b)
        if is_sym(a) and z3.is_bool(a) and isinstance(b, int) and not isinstance(b, bool):
            return a if b == 1 else Not(a)
        if is_sym(b) and z3.is_bool(b) and isinstance(a, int) and not isinstance(a, bool):
            return b if a == 1 else Not(b)
        return Eq(a, b)
    return eq_formula(p, a, b)


def address_of(I, lv):
    if isinstance(lv, LVElem):
        return Ptr(lv.base, lv.idx)
    return Ptr(lv)


def deref(I, v):
    p = I.p
    if isinstance(v, LV):
        v = v.load(p)
    if isinstance(v, Ptr):
        if v.idx is None:
            return v.lv
        p.require(ult(v.idx, seqlen(I, v.lv)), 'dereferenced pointer in bounds')
        return LVElem(v.lv, v.idx)
    if isinstance(v, (M.MIter, M.MFound)):
        return M.LVMapEnt(v.lv, M.it_key(I, v))
    if isinstance(v, IterV):
        p.require(ult(v.idx, seqlen(I, v.lv)), 'dereferenced iterator in range')
        return LVElem(v.lv, v.idx)
    if isinstance(v, UPtr):
        p.require(v.cell is not None, 'dereferenced pointer not null')
        return v.cell if isinstance(v.cell, LV) else LVCell(v.cell)
    if isinstance(v, SymPtr):
        p.require(v.ok, 'dereferenced pointer not null')
        return deref(I, v.ptr)
    if isinstance(v, Null):
        p.require(False, 'dereferenced pointer not null')
        raise PathEnd()
    if isinstance(v, Opaque):
        return LVVal(v)
    raise ToolLimit('dereference of %r' % (v,))


def seqlen(I, lv):
    v = lv.load(I.p)
    if isinstance(v, Seq):
        return v.len
    if isinstance(v, SpanV):
        return v.len
    raise ToolLimit('length of %r' % (v,))


def ext_global(I, d):
    nm = d['name']
    if nm in ('nullopt',):
        return LVVal(Opaque('std::nullopt_t', 0))
    if nm in ('drop',):
        return LVVal(Opaque('views::drop', 0))
    if nm in ('reverse',):
        return LVVal(Opaque('views::reverse', 0))
    if nm == 'npos':
        return LVVal((1 << 64) - 1)
    if nm in ('stdout', 'stderr', 'cout', 'cerr'):
        return LVVal(Opaque('stream', nm))
    h = I.ctx.get('ext_globals', {}).get(nm)
    if h is not None:
        return LVVal(h)
    return None


# --- first index satisfying a predicate -----------------------------------------------------------
class MemPtr:
    """pointer to a data member"""
    __slots__ = ('field',)

    def __init__(self, f):
        self.field = f


def fn_object(t):
    """the algorithm a function object of std::ranges stands for"""
    m = re.search(r'(?:^|::)__(\w+)_fn$', t.name or '')
    return m.group(1) if m else None


def ranges_algo(I, name, args, node):
    p = I.p
    args = [a for a in args if not default_arg(a)]
    evs = [I.ev(a) for a in args]
    vals = [load(I, v) for v in evs]

    def rng():
        if isinstance(vals[0], (IterV, Ptr)):
            a, b = vals[0], vals[1]
            lv, lo, hi = a.lv, a.idx, b.idx
            k = 2
        else:
            lv, lo, hi = seq_lv(I, evs[0])
            k = 1
        p.require(And(ule(lo, hi), ule(hi, seqlen(I, lv))), 'iterator range is valid')
        s = lv.load(p)
        s = s.seq(p) if isinstance(s, SpanV) else s
        del vals[:k], evs[:k], args[:k]
        return lv, lo, hi, s

    def project(i):
        if len(vals) <= i:
            return lambda x: x
        f = vals[i]

        def go(x):
            if isinstance(f, MemPtr):
                return x.f[f.field] if isinstance(x, Rec) else LVField(LVVal(x), f.field).load(p)
            return load(I, pure_call(I, f, [LVVal(x)]))
        return go
    if name in ('find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'find', 'contains'):
        lv, lo, hi, s = rng()
        pr = project(1)
        neg = name in ('find_if_not', 'all_of')

        def pred(k):
            x = pr(s.at(p, k))
            if name in ('find', 'contains'):
                return equal(I, x, vals[0])
            c = pure_call(I, vals[0], [LVVal(x)])
            return Not(c) if neg else c
        k = first_index(I, lo, hi, pred)
        if name.startswith('find'):
            return IterV(lv, k)
        found = ult(k, hi)
        return Not(found) if name in ('none_of', 'all_of') else found
    if name in ('copy', 'equal', 'mismatch'):
        lv, lo, hi, s = rng()
        a = slice_(p, s, lo, sub(hi, lo))
        if name == 'copy':
            return Rec('pair', {'in': IterV(lv, hi), 'out': write_out(I, a, vals[0])})
        lv2, lo2, hi2, s2 = rng()
        if vals:
            raise ToolLimit('ranges::%s with a predicate' % name)
        b = slice_(p, s2, lo2, sub(hi2, lo2))
        if name == 'equal':
            return seq_eq_formula(p, a, b)
        k = mismatch_at(I, a, b)
        return Rec('pair', {'in1': IterV(lv, add(lo, k)), 'in2': IterV(lv2, add(lo2, k))})
    if name == 'distance' and len(vals) == 1:
        lv, lo, hi, s = rng()
        return sub(hi, lo)
    raise ToolLimit('std::ranges::%s' % name)


def mismatch_at(I, a, b):
    """the first index at which two sequences differ, or the length of the shorter"""
    p = I.p
    n = Ite(ult(a.len, b.len), a.len, b.len, 64)
    return first_index(I, 0, simp(n) if is_sym(n) else n, lambda k: Not(equal(I, a.at(p, k), b.at(p, k))))


def first_index(I, lo, hi, pred, tag='first'):
    """the least k in [lo, hi) with pred(k), or hi; pred is deterministic and side-effect free"""
    p = I.p
    if not is_sym(lo) and not is_sym(hi):
        r = hi
        # concrete range: the exact formula, from the back
        for k in range(hi - 1, lo - 1, -1):
            c = pred(k)
            if c is True:
                r = k
            elif c is False:
                pass
            else:
                r = Ite(c, k, r, 64)
        return simp(r)
    k = p.fresh(tag, B64)
    p.fact(z3.And(z3.UGE(k, bv(lo, 64)), z3.ULE(k, bv(hi, 64))))
    p.fact(zb(Implies(ult(k, hi), pred(k))))
    lst = p.ghost.setdefault('firsts', [])
    me = (lo, hi, k, pred)
    for (lo2, hi2, k2, pred2) in lst:
        p.fact(zb(Implies(And(ule(lo2, k), ult(k, k2)), Not(pred2(k)))))
        p.fact(zb(Implies(And(ule(lo, k2), ult(k2, k)), Not(pred(k2)))))
    for j in p.ghost.get('instances', ()):      # indices a harness names
        p.fact(zb(Implies(And(ule(lo, j), ult(j, k)), Not(pred(j)))))
    lst.append(me)
    p.ghost['firsts'] = list(lst)
    return k


def first_instance(I, j):
    """instantiate 'no earlier index satisfies the predicate' at j for every search made so far"""
    for (lo, hi, k, pred) in I.p.ghost.get('firsts', []):
        I.p.fact(zb(Implies(And(ule(lo, j), ult(j, k)), Not(pred(j)))))


def pure_call(I, f, args):
    """call a function value that must not fork or write; merged result"""
    res = {}

    def run():
        return truth(I, call_value(I, f, args))
    ok, v = I.speculate(True, run)
    if not ok:
        raise ToolLimit('predicate is not a pure function')
    return v


def truth(I, v):
    if isinstance(v, LV):
        v = v.load(I.p)
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v != 0
    if is_sym(v) and z3.is_bool(v):
        return v
    if is_sym(v):
        return simp(v != 0)
    raise ToolLimit('not a truth value: %r' % (v,))


# --- calls ------------------------------------------------------------------------------------------
def ev_list(I, args):
    return [I.ev(a) for a in args]


def load(I, v):
    return v.load(I.p) if isinstance(v, LV) else v


def has_repo_call(I, n):
    if n.get('kind') in ('CallExpr', 'CXXMemberCallExpr'):
        return True
    return any(has_repo_call(I, c) for c in n.get('inner', []) if isinstance(c, dict))


def has_effect(n):
    if n.get('kind') in ('CompoundAssignOperator',) or (n.get('kind') == 'UnaryOperator' and n.get('opcode') in ('++', '--')) or \
            (n.get('kind') == 'BinaryOperator' and n.get('opcode') == '='):
        return True
    return any(has_effect(c) for c in n.get('inner', []) if isinstance(c, dict))


def atomic_read(I, lv):
    h = I.ctx.get('volatile')
    return h(I, lv) if h is not None else lv.load(I.p)


def atomic_method(I, lv, t, name, args):
    """std::atomic<T>: its value is that of the T; memory orders are not modelled"""
    p = I.p
    val = lambda a: coerce(I, load(I, I.ev(a)), I.T(a), t)
    if name == 'load' or name.startswith('operator ') :
        return atomic_read(I, lv)
    if name in ('store', 'operator='):
        v = val(args[0])
        lv.store(p, v)
        return v
    if name == 'exchange':
        v, old = val(args[0]), atomic_read(I, lv)
        lv.store(p, v)
        return old
    if name in ('compare_exchange_strong', 'compare_exchange_weak'):
        exp = I.lv(args[0])
        new = val(args[1])
        if name.endswith('weak') and p.choose(2):
            return False
        cur = atomic_read(I, lv)
        e = exp.load(p)
        same = is_null(I, cur) if isinstance(e, Null) else is_null(I, e) if isinstance(cur, Null) else Eq(cur, e) if is_sym(cur) or isinstance(cur, int) else cur.lv.key() == e.lv.key()
        if p.decide(same):
            lv.store(p, new)
            return True
        exp.store(p, cur)
        return False
    raise ToolLimit('std::atomic::' + name)


def log_args(I, args):
    for a in args:
        try:
            if has_effect(a):
                I.rv(a)
            elif has_repo_call(I, a):
                I.speculate(True, lambda: I.rv(a))
            else:
                I.ev(a)
        except (ToolLimit, CannotMerge):
            pass


def fmt_pieces(s):
    """parse a std::format string -> list of bytes | spec string"""
    out, cur, i = [], bytearray(), 0
    while i < len(s):
        c = s[i:i + 1]
        if c in b'{}' and s[i + 1:i + 2] == c:
            cur += c
            i += 2
            continue
        if c == b'{':
            j = s.index(b'}', i)
            if cur:
                out.append(bytes(cur))
                cur = bytearray()
            out.append(s[i + 1:j].decode())
            i = j + 1
            continue
        cur += c
        i += 1
    if cur:
        out.append(bytes(cur))
    return out


def decimal(I, v, t):
    """std::to_string / {} of an integer"""
    p = I.p
    if isinstance(v, bool):
        raise ToolLimit('format of bool')
    if not is_sym(v):
        w = I.width(t)
        x = v - (1 << w) if I.signed(t) and v >= 1 << (w - 1) else v
        return lit_of(str(x))
    w, sg = v.size(), I.signed(t)
    x = z3.SignExt(64 - w, v) if sg and w < 64 else z3.ZeroExt(64 - w, v) if w < 64 else v
    from .interp import ubound
    if sg and ubound(v) < (1 << (w - 1)):
        sg, x = False, (z3.ZeroExt(64 - w, v) if w < 64 else v)
    x = simp(x)
    f = UF('decimal_s' if sg else 'decimal_u', B64, Str)
    b = Base(p, f(x))
    p.fact(z3.And(z3.UGE(b.len, 1), z3.ULE(b.len, 20)))
    return b


def hexdigit(n):
    """number below 16 (as 8 bits) -> lower-case hexadecimal digit"""
    return simp(z3.If(z3.ULT(n, 10), n + 0x30, n + 0x57))


def byte_of(I, v, t):
    from .interp import ubound
    v = bv(v, I.width(t))
    if v.size() == 8 and not I.signed(t):
        return v
    if ubound(v) < 256:
        return z3.Extract(7, 0, v)
    return None


def format_string(I, fmt, vals, types):
    pieces = fmt_pieces(fmt)
    out, k = [], 0
    for x in pieces:
        if isinstance(x, bytes):
            out.append(lit_of(x))
            continue
        v, t = vals[k], types[k].strip()
        k += 1
        if isinstance(v, (Seq, SpanV, CStr, Ptr)):
            if x not in ('', ':s'):
                raise ToolLimit('format spec %s' % x)
            out.append(content(I, v))
        elif I.is_scalar(t) and x == '':
            if t.kind == 'int' and t.name == 'char':
                out.append(Lit([v]))
            else:
                out.append(decimal(I, v, t))
        elif I.is_scalar(t) and not is_sym(v) and re.match(r'^:[0-9]*[xXd]$', x):
            out.append(lit_of(format(v, x[1:])))
        elif I.is_scalar(t) and x == ':02x' and byte_of(I, v, t) is not None:
            b = byte_of(I, v, t)
            out.append(Lit([hexdigit(z3.LShR(b, 4)), hexdigit(b & 0xf)]))
        elif I.is_scalar(t):
            f = UF('fmt' + x, B64, Str)
            y = bv(v, I.width(t))
            out.append(Base(I.p, f(z3.ZeroExt(64 - y.size(), y) if y.size() < 64 else y)))
        else:
            raise ToolLimit('format argument %r' % (v,))
    return cat(*out)


def strip_casts(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'ConstantExpr', 'CXXConstructExpr', 'CXXBindTemporaryExpr', 'ParenExpr',
                            'CXXFunctionalCastExpr') and len(n.get('inner', [])) >= 1:
        n = n['inner'][0]
    return n


def find_literal(n):
    if n.get('kind') == 'StringLiteral':
        return c_unescape(n['value'])
    for c in n.get('inner', []):
        r = find_literal(c)
        if r is not None:
            return r
    return None


def call_function(I, decl, args, node):
    p = I.p
    name = decl['name']
    h = I.ctx.get('externs', {}).get(name)
    if h is not None:
        return h(I, args, node)
    if name in ('trace', 'debug', 'info', 'warn', 'error', 'critical'):
        log_args(I, args)
        return None
    if name in ('move', 'forward', 'as_const', 'move_if_noexcept', 'forward_like'):
        if len(args) == 1:
            return I.ev(args[0])
    if name in ('to_underlying',):
        return I.rv(args[0])
    if name in ('min', 'max', 'lowest') and not args:       # std::numeric_limits
        t = I.T(node).strip()
        w, sg = I.width(t), I.signed(t)
        if name == 'max':
            return (1 << (w - 1)) - 1 if sg else (1 << w) - 1
        return 1 << (w - 1) if sg else 0
    if name in ('min', 'max') and len(args) == 2:
        a, b = I.ev(args[0]), I.ev(args[1])
        t = I.T(node).strip()
        x, y = load(I, a), load(I, b)
        if name == 'min':
            c = I.compare('<', y, x, t)
        else:
            c = I.compare('<', x, y, t)
        return p.newlv('tmp', simp(Ite(c, y, x, I.width(t))), t)
    if name in ('min', 'max') and len(args) == 1:
        s = content(I, I.rv(args[0]))
        t = I.T(node).strip()
        r = s.at(p, 0)
        for i in range(1, s.len):
            y = s.at(p, i)
            c = I.compare('<', y, r, t) if name == 'min' else I.compare('<', r, y, t)
            r = Ite(c, y, r, I.width(t))
        return simp(r)
    if name == 'clamp' and len(args) == 3:
        v, lo, hi = [load(I, I.ev(a)) for a in args]
        t = I.T(node).strip()
        r = Ite(I.compare('<', v, lo, t), lo, Ite(I.compare('<', hi, v, t), hi, v, I.width(t)), I.width(t))
        return p.newlv('tmp', simp(r), t)
    if name == 'exchange':
        a = I.lv(args[0])
        b = I.rv(args[1])
        old = a.load(p)
        bt, at = I.T(args[1]), I.T(args[0])
        if I.is_scalar(at):
            b = I.int_cast(b, bt, at)
        a.store(p, b)
        return old
    if name == 'swap':
        a, b = I.lv(args[0]), I.lv(args[1])
        x, y = a.load(p), b.load(p)
        a.store(p, y)
        b.store(p, x)
        return None
    if name == 'distance':
        a, b = I.rv(args[0]), I.rv(args[1])
        if isinstance(a, IterV) and isinstance(b, IterV):
            return sub(b.idx, a.idx)
    if name in ('next', 'prev'):
        a = I.rv(args[0])
        k = I.rv(args[1]) if len(args) > 1 and args[1].get('kind') != 'CXXDefaultArgExpr' else 1
        if isinstance(a, IterV):
            return IterV(a.lv, add(a.idx, k) if name == 'next' else sub(a.idx, k))
    if name in ('begin', 'cbegin', 'end', 'cend', 'size', 'ssize', 'empty', 'data') and len(args) == 1:
        a = I.ev(args[0])
        lv = a if isinstance(a, LV) else p.newlv('tmp', a, I.T(args[0]).strip())
        return method(I, lv, I.T(args[0]).strip(), name, [], node)
    if name in ('find_if', 'find_if_not', 'any_of', 'all_of', 'none_of'):
        vals = [load(I, I.ev(a)) for a in args]
        if isinstance(vals[0], IterV):
            a, b, f = vals[:3]
            lv, lo, hi = a.lv, a.idx, b.idx
        else:      # ranges form
            lv, lo, hi = seq_lv(I, I.ev(args[0]))
            f = vals[1]
        p.require(And(ule(lo, hi), ule(hi, seqlen(I, lv))), 'iterator range is valid')
        neg = name in ('find_if_not', 'all_of')
        s = lv.load(p)
        s = s.seq(p) if isinstance(s, SpanV) else s

        def pred(k):
            c = pure_call(I, f, [LVVal(s.at(p, k))])
            return Not(c) if neg else c
        k = first_index(I, lo, hi, pred)
        if name in ('find_if', 'find_if_not'):
            return IterV(lv, k)
        found = ult(k, hi)
        return found if name == 'any_of' else Not(found)
    if name == 'find' and len(args) == 3:
        a, b, v = [load(I, I.ev(x)) for x in args]
        if isinstance(a, IterV):
            s = a.lv.load(p)
            s = s.seq(p) if isinstance(s, SpanV) else s
            return IterV(a.lv, first_index(I, a.idx, b.idx, lambda k: equal(I, s.at(p, k), v)))
    if name == 'mismatch' and len(args) in (3, 4):
        vals = [load(I, I.ev(x)) for x in args]
        if all(isinstance(x, (IterV, Ptr)) for x in vals):
            a, b, c = vals[:3]
            sa, sb = seq_of(I, a.lv), seq_of(I, c.lv)
            p.require(And(ule(a.idx, b.idx), ule(b.idx, sa.len)), 'iterator range is valid')
            n = sub(b.idx, a.idx)
            m = sub(vals[3].idx, c.idx) if len(vals) == 4 else n
            p.require(And(ule(c.idx, sb.len), ule(m, sub(sb.len, c.idx))), 'iterator range is valid')
            k = mismatch_at(I, slice_(p, sa, a.idx, n), slice_(p, sb, c.idx, m))
            return Rec('pair', {'first': type(a)(a.lv, add(a.idx, k)), 'second': type(c)(c.lv, add(c.idx, k))})
    if name == 'back_inserter' and len(args) == 1:
        return Opaque('back_inserter', 0, I.lv(args[0]))
    if name in ('format_to', 'vformat_to') and len(args) >= 2:
        out = I.rv(args[0])
        lit = find_literal(args[1])
        if lit is None:
            raise ToolLimit('format string')
        vals = [load(I, I.ev(a)) for a in args[2:]]
        return write_out(I, content(I, format_string(I, lit, vals, [I.T(a) for a in args[2:]])), out)
    if name in ('copy', 'copy_n', 'fill', 'fill_n', 'transform', 'for_each', 'accumulate', 'equal', 'reverse', 'sort', 'count_if', 'remove_if', 'memcpy', 'memset', 'memcmp'):
        return algo(I, name, args, node)
    if name == 'to_string' and len(args) == 1:
        return decimal(I, I.rv(args[0]), I.T(args[0]))
    if name in ('format',):
        lit = find_literal(args[0])
        if lit is None:
            raise ToolLimit('format string')
        vals = [load(I, I.ev(a)) for a in args[1:]]
        return format_string(I, lit, vals, [I.T(a) for a in args[1:]])
    if name == 'byteswap' or name == '__builtin_bswap32' or name in ('htonl', 'ntohl', 'htons', 'ntohs', '__bswap_32', '__bswap_16'):
        v = I.rv(args[0])
        t = I.T(node).strip()
        w = I.width(t)
        if not is_sym(v):
            return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
        return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)]))
    if name == 'make_unique':
        t = I.T(node).strip()
        ot = t.args[0]
        if ot.simple in I.P.records:
            v = make_object(I, ot, args)
            lv = p.newlv('heap.' + ot.simple, v, ot)
            return UPtr(lv)
    if name == 'make_pair' or name == 'make_optional':
        vals = [I.rv(a) for a in args]
        return Rec('pair', {'first': vals[0], 'second': vals[1]}) if name == 'make_pair' else Opt(True, vals[0])
    if name == '__assert_fail':
        p.require(False, 'assertion')
        raise PathEnd()
    if name == 'unreachable' or name == '__builtin_unreachable':
        p.require(False, 'unreachable code')
        raise PathEnd()
    if name in ('abort', 'exit', '_exit', 'terminate'):
        p.require(False, 'the process is not ended')
        raise PathEnd()
    if name in ('isdigit', 'isalpha', 'tolower', 'toupper', 'isprint', 'isspace', 'isalnum', 'iscntrl'):
        v = I.rv(args[0])
        return ctype(I, name, v)
    if name == 'now':
        t = p.ghost.get('clock')
        n = p.freshbv('now', 64)
        p.fact(z3.And(n >= 0, n < (1 << 62)))
        if t is not None:
            p.fact(n >= t)
        p.ghost['clock'] = n
        p.ghost.setdefault('times', []).append(n)
        return n
    if name in ('duration_cast',):
        v = I.rv(args[0])
        return duration_cast(I, v, I.T(args[0]), I.T(node))
    if name == 'get' and len(args) == 1:
        v = I.lv(args[0])
        r = v.load(p)
        ta = node['inner'][0]
        raise ToolLimit('std::get')
    if name == '__errno_location':
        return Ptr(errno_lv(I))
    if I.T(node).strip().name.startswith('opentelemetry'):
        log_args(I, args)
        return Opaque('otel', 0)
    raise ToolLimit('external function %s' % name)


def errno_lv(I):
    lv = I.p.ghost.get('errno')
    if lv is None:
        lv = I.p.ghost['errno'] = I.p.newlv('errno', I.p.freshbv('errno', 32), parse_type('int'))
    return lv


def ctype(I, name, v):
    def rng(a, b):
        return simp(z3.And(z3.UGE(bv(v, 32), a), z3.ULE(bv(v, 32), b)))
    lo, up, dg = rng(97, 122), rng(65, 90), rng(48, 57)
    if name == 'isdigit':
        c = dg
    elif name == 'isalpha':
        c = Or(lo, up)
    elif name == 'isalnum':
        c = Or(lo, up, dg)
    elif name == 'tolower':
        return simp(z3.If(zb(up), bv(v, 32) + 32, bv(v, 32)))
    elif name == 'toupper':
        return simp(z3.If(zb(lo), bv(v, 32) - 32, bv(v, 32)))
    elif name == 'isprint':
        c = rng(32, 126)
    elif name == 'iscntrl':
        c = Or(rng(0, 31), Eq(v, 127))
    else:
        c = Or(rng(9, 13), Eq(v, 32))
    return simp(Ite(c, 1, 0, 32))


def seq_lv(I, v):
    """(lv, lo, hi) of a container, span or range value"""
    p = I.p
    lv = v if isinstance(v, LV) else p.newlv('tmp', v)
    x = lv.load(p)
    if isinstance(x, SpanV):
        return (x.lv, x.off, add(x.off, x.len)) if x.lv is not None else (p.newlv('tmp', EMPTY), 0, 0)
    if isinstance(x, Seq):
        return lv, 0, x.len
    raise ToolLimit('not a range: %r' % (x,))


def algo(I, name, args, node):
    p = I.p
    vals = [load(I, I.ev(a)) for a in args]

    def src(a, b):
        s = a.lv.load(p)
        p.require(And(ule(a.idx, b.idx), ule(b.idx, seqlen(I, a.lv))), 'iterator range is valid')
        s = s.seq(p) if isinstance(s, SpanV) else s
        return slice_(p, s, a.idx, sub(b.idx, a.idx))

    if name in ('copy',) and isinstance(vals[0], (IterV, Ptr)):
        return write_out(I, src(vals[0], vals[1]), vals[2])
    if name == 'copy_n' and isinstance(vals[0], (IterV, Ptr)):
        n = I.int_cast(vals[1], I.T(args[1]), U64)
        return write_out(I, src(vals[0], type(vals[0])(vals[0].lv, add(vals[0].idx, n))), vals[2])
    if name == 'memcpy':
        n = vals[2]
        d, s = vals[0], vals[1]
        if isinstance(d, Ptr) and isinstance(s, Ptr):
            write_out(I, src(s, Ptr(s.lv, add(s.idx, n))), d)
            return d
    if name == 'memcmp' and all(isinstance(x, (Ptr, IterV)) and x.idx is not None for x in vals[:2]):
        n = I.int_cast(vals[2], I.T(args[2]), U64)
        c = seq_eq_formula(p, src(vals[0], Ptr(vals[0].lv, add(vals[0].idx, n))), src(vals[1], Ptr(vals[1].lv, add(vals[1].idx, n))))
        if c is True:
            return 0
        r = p.fresh('memcmp', z3.BitVecSort(32))
        p.fact((r == 0) == zb(c))
        return r
    if name in ('fill',) and isinstance(vals[0], (IterV, Ptr)):
        n = sub(vals[1].idx, vals[0].idx)
        write_out(I, Rep(vals[2], n), vals[0])
        return None
    if name == 'equal' and len(vals) >= 3 and isinstance(vals[0], (IterV, Ptr)):
        a = src(vals[0], vals[1])
        if len(vals) == 4:
            b = src(vals[2], vals[3])
        else:
            b = src(vals[2], type(vals[2])(vals[2].lv, add(vals[2].idx, a.len)))
        return seq_eq_formula(p, a, b)
    raise ToolLimit('algorithm %s' % name)


def write_out(I, s, out):
    p = I.p
    if isinstance(out, Opaque) and out.kind == 'back_inserter':
        lv = out.data
        lv.store(p, cat(lv.load(p), s))
        return out
    if isinstance(out, (IterV, Ptr)):
        lv, off = out.lv, out.idx
        d = lv.load(p)
        if isinstance(d, SpanV):
            raise ToolLimit('write through nested span')
        p.require(And(ule(off, d.len), ule(s.len, sub(d.len, off))), 'copied range fits the destination')
        end = add(off, s.len)
        n = cat(slice_(p, d, 0, off), s, slice_(p, d, end, sub(d.len, end)))
        lv.store(p, n, ('[]',))
        return type(out)(lv, end)
    raise ToolLimit('output iterator %r' % (out,))


def make_object(I, ot, args):
    """value of an object of repository class ot constructed from argument expressions (overload by arity)"""
    cls = ot.simple
    fs = [f for f in I.P.funcs.get(cls, []) if f['_cls'] == cls and f['kind'] == 'CXXConstructorDecl' and not f.get('isImplicit')]
    ex = [f for f in fs if len(I.params(f)) == len(args)]
    if not ex:
        if not args:
            return I.construct_record(cls, None, [])
        raise ToolLimit('make_unique<%s>' % cls)
    if len(ex) > 1:
        def fits(f):
            return all(I.T(q).strip().raw == I.T(a).strip().raw or I.T(q).strip().simple == I.T(a).strip().simple and I.T(q).strip().kind == I.T(a).strip().kind == 'class'
                       for q, a in zip(I.params(f), args))
        ex = [f for f in ex if fits(f)]
    if len(ex) != 1:
        raise ToolLimit('ambiguous constructor of %s' % cls)
    fn = ex[0]
    tmp = I.p.newlv('obj.' + cls, Rec(cls, {}), ot)
    vals = []
    for pn, a in zip(I.params(fn), args):      # the function forwards: a by-value parameter is constructed from the argument
        t = I.T(pn)
        if t.kind == 'ref':
            vals.append(I.lv(a))
        elif a.get('valueCategory') == 'xvalue' and t.kind == 'class':
            vals.append(transfer(I, I.lv(a), t, True))
        else:
            vals.append(I.rv(a))
    c = I.contracts.get('%s::%s' % (cls, cls))
    if c is not None:
        c.apply(I, tmp, vals)
    else:
        I.run_ctor(fn, cls, tmp, vals)
    return tmp.load(I.p)


# --- function values --------------------------------------------------------------------------------
def call_value(I, f, vals, rt=None):
    if isinstance(f, LV):
        f = f.load(I.p)
    if isinstance(f, Closure):
        return I.call_closure(f, vals)
    if isinstance(f, FnSpec):
        if f.call is not None:
            return f.call(I, vals)
        h = I.ctx.get('fn_app')
        if h is not None:
            return h(I, f, vals, rt)
        raise ToolLimit('call of an unknown function value')
    if isinstance(f, FnRef):
        fn = I.find_function(f.decl)
        if fn is not None:
            return I.call_values(fn, None, vals)
    if isinstance(f, Null):
        raise CppThrow('std::bad_function_call')
    raise ToolLimit('call of %r' % (f,))


def call_fn_value(I, fn, args, node):
    f = load(I, fn)
    if isinstance(f, Opaque) and f.kind == 'views::drop':
        return Drop(I.rv(args[0]))
    if isinstance(f, Opaque) and f.kind == 'views::reverse':
        return reversed_lv(I, I.ev(args[0]))
    vals = ev_list(I, args)
    return call_value(I, f, vals, I.T(node))


def reversed_lv(I, lv):
    """a view of a container from its last element to its first (for reading)"""
    p = I.p
    if not isinstance(lv, LV):
        raise ToolLimit('reversed view of a temporary')
    s = content(I, lv.load(p))
    d = p.ghost.setdefault('reversed', {})
    k = (lv.key(), id(s))
    if k not in d:
        r = FnSeq(s.len, lambda p, i: s.at(p, sub(sub(s.len, 1), i)), ('reversed', id(s)))
        d[k] = (s, p.newlv('reversed', r, parse_type('std::vector<int>')))
    return d[k][1]


# --- methods of library classes ----------------------------------------------------------------------
def default_arg(a):
    return a.get('kind') == 'CXXDefaultArgExpr'


def u64arg(I, a):
    v = I.rv(a)
    return I.int_cast(v, I.T(a), U64)


def elem_value(I, v):
    v = load(I, v)
    return v


def method(I, lv, ot, name, args, node):
    p = I.p
    n = ot.name
    h = I.ctx.get('ext_methods', {}).get('%s::%s' % (n, name))
    if h is not None:
        return h(I, lv, args, node)
    if name.startswith('operator ') and '(*)' in name and isinstance(load(I, lv), Closure):      # a lambda without captures as a function pointer
        return load(I, lv)
    if n == 'std::atomic':
        return atomic_method(I, lv, ot.args[0], name, args)
    if isinstance(lv, LV) and isinstance(lv.load(p), Rec) and lv.load(p).cls == 'stringstream':
        r = lv.load(p)
        if name in ('str', 'view') and not args:
            return r.f['s'] if name == 'str' else p.newlv('stream text', r.f['s'], parse_type('std::string'))
        if name == 'write' or name == 'put' or name == 'str':
            raise ToolLimit('stream.' + name)
        raise ToolLimit('stream method ' + name)
    if ot.kind == 'lambda':
        if name == 'operator()':
            return call_fn_value(I, lv, args, node)
        if name.startswith('operator '):
            return load(I, lv)
    if n in ('std::vector', 'std::deque', 'std::string', 'std::array', 'std::string_view', 'std::span', 'std::initializer_list', 'std::ranges::drop_view', 'std::ranges::reverse_view', 'std::ranges::ref_view'):
        return seq_method(I, lv, ot, name, args, node)
    if n == 'std::filesystem::path' and name in ('c_str', 'string', 'native', 'empty', 'generic_string'):      # on POSIX: its native string
        return lv.load(p) if name == 'string' or name == 'generic_string' else lv if name == 'native' else seq_method(I, lv, ot, name, args, node)
    if n in ('std::optional', 'std::expected'):
        o = lv.load(p)
        if name in ('has_value', 'operator bool'):
            return o.has
        if name == 'value':
            if n == 'std::optional' or n == 'std::expected':
                if not p.decide(o.has):
                    raise CppThrow('std::bad_optional_access' if n == 'std::optional' else 'std::bad_expected_access')
            return LVOpt(lv)
        if name == 'error':
            p.require(Not(o.has), 'error() of an expected without a value')
            return LVOpt(lv, 'err')
        if name == 'value_or':
            d = I.rv(args[0])
            if o.has is True:
                return o.val
            if o.has is False:
                return coerce(I, d, I.T(args[0]), ot.args[0])
            t = ot.args[0]
            d = coerce(I, d, I.T(args[0]), t)
            if I.is_scalar(t):
                return simp(Ite(o.has, o.val, d, I.width(t))) if t.kind != 'bool' else Ite(o.has, o.val, d)
            return o.val if p.decide(o.has) else d
        if name == 'reset':
            lv.store(p, Opt(False))
            return None
        if name == 'emplace':
            t = ot.args[0]
            if len(args) == 1:
                v = coerce(I, I.rv(args[0]), I.T(args[0]), t)
            elif t.simple in I.P.records:
                v = make_object(I, t, args)
            else:
                raise ToolLimit('emplace')
            lv.store(p, Opt(True, v))
            return LVOpt(lv)
        if name in ('operator=',):
            return assign_to(I, lv, ot, I.ev(args[0]), I.T(args[0]))
    if n == 'std::unique_ptr' or n.startswith('std::shared_ptr') or n.endswith('shared_ptr'):
        v = lv.load(p)
        if name == 'get':
            if isinstance(v, UPtr):
                return NULL if v.cell is None else Ptr(v.cell if isinstance(v.cell, LV) else LVCell(v.cell))
            if type(v).__name__ == 'UPtrSym':
                return Ptr(deref(I, v))
            return v
        if name == 'operator bool':
            return Not(is_null(I, v))
        if name == 'get_deleter':
            return v.deleter
        if name in ('reset', 'operator=') and own_deleter(ot) and isinstance(v, UPtr):
            real = [a for a in args if not default_arg(a)]
            nv = Null() if not real else load(I, I.ev(real[0]))
            own = isinstance(nv, UPtr)
            if own:
                move_out(I, I.ev(real[0]), ot)
            lv.store(p, nv if own else owner(I, nv, v.deleter))
            delete(I, v, ot)
            return lv if name == 'operator=' else None
        if name == 'reset':
            if [a for a in args if not default_arg(a) and not isinstance(load(I, I.ev(a)), Null)]:
                raise ToolLimit('unique_ptr::reset to another object')
            lv.store(p, UPtr(None))
            return None
        if name == 'release':
            lv.store(p, UPtr(None, getattr(v, 'deleter', None)))
            return v if not isinstance(v, UPtr) else NULL if v.cell is None else Ptr(v.cell if isinstance(v.cell, LV) else LVCell(v.cell))
    if n == 'std::chrono::duration' and name == 'count':
        return lv.load(p)
    if n in ('std::map', 'std::unordered_map'):
        return map_method(I, lv, ot, name, args, node)
    if n == 'std::function':
        if name == 'operator bool':
            return Not(is_null(I, lv.load(p)))
        if name == 'operator()':
            return call_fn_value(I, lv, args, node)
    if n.endswith('exception') or n.endswith('error'):
        if name == 'what':
            return CStr(p.bytes_('what'))
    if n.startswith('opentelemetry'):
        log_args(I, args)
        return Opaque('otel', 0)
    if name.startswith('operator ') and isinstance(lv.load(p), (int, bool, z3.ExprRef)):
        return lv.load(p)
    raise ToolLimit('method %s::%s' % (n, name))


def coerce(I, v, ft, tt):
    """implicit conversion of a value where clang's AST leaves it inside a library template"""
    tt = tt.strip()
    v = load(I, v)
    if I.is_scalar(tt) and isinstance(v, (int, bool, z3.ExprRef)):
        return I.int_cast(v, ft, tt)
    if tt.name == 'std::string' and isinstance(v, (Ptr, CStr)):
        return cstr_content(I, v)
    if tt.name in ('std::string', 'std::string_view') and ft.strip().kind == 'array' and isinstance(v, Lit):     # a string literal
        e = list(v.e)
        return Lit(e[:e.index(0)] if 0 in e else e)
    if tt.name == 'std::string' and ft.strip().kind == 'array':
        return cstr_in(I, v)
    if tt.name == 'std::optional' and not isinstance(v, Opt):
        if isinstance(v, Opaque) and v.kind == 'std::nullopt_t':
            return Opt(False)
        return Opt(True, coerce(I, v, ft, tt.args[0]))
    return v


def seq_of(I, lv):
    v = lv.load(I.p)
    return v.seq(I.p) if isinstance(v, SpanV) else v


def seq_method(I, lv, ot, name, args, node):
    p = I.p
    v = lv.load(p)
    isview = isinstance(v, SpanV)
    L = v.len
    base, off = (v.lv, v.off) if isview else (lv, 0)

    def elt(i):
        return LVElem(base, add(off, i))
    if name in ('size', 'length'):
        return L
    if name == 'empty':
        return Eq(L, 0)
    if name in ('begin', 'cbegin'):
        return IterV(base, off)
    if name in ('end', 'cend'):
        return IterV(base, add(off, L))
    if name in ('rbegin', 'crbegin') and not isview:
        return IterV(reversed_lv(I, lv), 0)
    if name in ('rend', 'crend') and not isview:
        return IterV(reversed_lv(I, lv), L)
    if name == 'data':
        if ot.name in ('std::string_view',):
            return Ptr(p.newlv('view', v), 0)
        return Ptr(base, off) if base is not None else NULL
    if name == 'c_str':
        return CStr(v)
    if name in ('front', 'back'):
        p.require(Not(Eq(L, 0)), '%s() of a non-empty container' % name)
        return elt(0 if name == 'front' else sub(L, 1))
    if name == 'at':
        i = u64arg(I, args[0])
        if not p.decide(ult(i, L)):
            raise CppThrow('std::out_of_range')
        return elt(i)
    if name == 'operator[]':
        i = u64arg(I, args[0])
        p.require(ult(i, L), 'index in bounds')
        return elt(i)
    if name == 'operator basic_string_view':
        return v
    if isview or ot.name == 'std::string_view':
        if name == 'subspan':
            o = k = None
            ty = I.T(node).strip()
            if args:
                o = u64arg(I, args[0])
                k = None if len(args) < 2 or default_arg(args[1]) else u64arg(I, args[1])
            else:
                # template form: only the static extent of the result is visible; the offset is in the callee's name
                o, k = template_args(I, node, ty)
            if k is not None and not is_sym(k) and k == (1 << 64) - 1:
                k = None
            p.require(ule(o, L), 'subspan offset in bounds')
            if k is not None:
                p.require(ule(k, sub(L, o)), 'subspan count in bounds')
            return SpanV(base, add(off, o), sub(L, o) if k is None else k)
        if name in ('first', 'last'):
            k = u64arg(I, args[0]) if args else I.T(node).strip().args[1].n
            p.require(ule(k, L), 'span %s(count) in bounds' % name)
            return SpanV(base, off if name == 'first' else add(off, sub(L, k)), k)
        if name == 'size_bytes':
            return L
    # strings and string views
    if name == 'substr':
        o = 0 if not args or default_arg(args[0]) else u64arg(I, args[0])
        if not p.decide(ule(o, L)):
            raise CppThrow('std::out_of_range')
        rest = sub(L, o)
        if len(args) < 2 or default_arg(args[1]):
            k = rest
        else:
            k = u64arg(I, args[1])
            c = ult(k, rest)
            if isinstance(c, bool):
                k = k if c else rest
            else:
                k = k if p.decide(c) else rest
        return slice_(p, v, o, k)
    if name in ('starts_with', 'ends_with'):
        a = load(I, I.ev(args[0]))
        if isinstance(a, (int, z3.ExprRef)):
            a = Lit([a])
        a = content(I, a)
        fits = ule(a.len, L)
        if fits is False:
            return False
        o = 0 if name == 'starts_with' else sub(L, a.len)
        if not is_sym(a.len):
            return And(fits, *[eq_formula(p, a.at(p, i), v.at(p, add(o, i))) for i in range(a.len)])
        if not p.decide(fits):
            return False
        return seq_eq_formula(p, slice_(p, v, o, a.len), a)
    if name in ('find', 'rfind', 'find_last_of', 'find_first_of', 'contains', 'find_first_not_of', 'find_last_not_of') and ot.name in ('std::string', 'std::string_view'):
        return string_find(I, v, name, args)
    if name == 'compare' and len(args) == 1:
        a = content(I, I.ev(args[0]))
        e = seq_eq_formula(p, v, a)
        return 0 if p.decide(e) else p.freshbv('cmp', 32) | 1
    if isview:
        raise ToolLimit('span::%s' % name)
    # modifiers
    t = lv
    et = ot.args[0] if ot.args else Type('int', 'char', width=8, signed=True)
    if name in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
        if name.startswith('emplace'):
            if et.simple in I.P.records and not et.args and not (len(args) == 1 and I.T(args[0]).strip().simple == et.simple):
                x = emplace_value(I, et, args)
            else:
                x = coerce(I, I.rv(args[0]), I.T(args[0]), et) if args else I.default(et)
        else:
            a = I.ev(args[0])
            x = load(I, a)
            if isinstance(x, LazyIte):
                x = force(x, I.width(et))
            if 'xvalue' == args[0].get('valueCategory'):
                if isinstance(a, LV) and not (isinstance(a, LVCell) and a.cell.name == 'tmp'):
                    move_out(I, a, I.T(args[0]).strip())
        s = t.load(p)
        t.store(p, cat(s, Lit([x])) if name.endswith('back') else cat(Lit([x]), s))
        if name.startswith('emplace'):
            return LVElem(t, L if name.endswith('back') else 0)
        return None
    if name in ('pop_back', 'pop_front'):
        p.require(Not(Eq(L, 0)), '%s() of a non-empty container' % name)
        t.store(p, slice_(p, v, 0, sub(L, 1)) if name == 'pop_back' else slice_(p, v, 1, sub(L, 1)))
        return None
    if name == 'clear':
        t.store(p, EMPTY)
        return None
    if name in ('reserve', 'shrink_to_fit'):
        for a in args:
            I.ev(a)
        return None
    if name == 'resize':
        k = u64arg(I, args[0])
        fill = I.rv(args[1]) if len(args) > 1 and not default_arg(args[1]) else I.default(et)
        if p.decide(ule(k, L)):
            t.store(p, slice_(p, v, 0, k))
        else:
            t.store(p, cat(v, Rep(fill, sub(k, L))))
        return None
    if name == 'insert':
        pos = load(I, I.ev(args[0]))
        if isinstance(pos, IterV):
            p.require(And(key_eq(pos.lv, t), ule(pos.idx, L)), 'insert position belongs to the container')
            if len(args) == 3:
                a, b = load(I, I.ev(args[1])), load(I, I.ev(args[2]))
                if isinstance(a, (IterV, Ptr)) and isinstance(b, (IterV, Ptr)):
                    sl = seqlen(I, a.lv) if a.lv is not None else 0
                    p.require(And(ule(a.idx, b.idx), ule(b.idx, sl)), 'inserted range is valid')
                    s = seq_of(I, a.lv) if a.lv is not None else EMPTY
                    ins = slice_(p, s, a.idx, sub(b.idx, a.idx))
                else:
                    k = I.int_cast(a, I.T(args[1]), U64)
                    ins = Rep(b, k)
            elif len(args) == 2:
                x = load(I, I.ev(args[1]))
                if isinstance(x, Seq) and I.T(args[1]).strip().name == 'std::initializer_list':
                    ins = x
                else:
                    ins = Lit([coerce(I, x, I.T(args[1]), et)])
            else:
                raise ToolLimit('insert overload')
            v = t.load(p)
            t.store(p, cat(slice_(p, v, 0, pos.idx), ins, slice_(p, v, pos.idx, sub(v.len, pos.idx))))
            return IterV(t, pos.idx)
        raise ToolLimit('insert overload')
    if name in ('erase', 'insert') and ot.name == 'std::string' and not isinstance(load(I, I.ev(args[0])) if args else 0, IterV):
        o = 0 if not args or default_arg(args[0]) else u64arg(I, args[0])
        if not p.decide(ule(o, L)):
            raise CppThrow('std::out_of_range')
        rest = sub(L, o)
        if name == 'erase':
            k = rest
            if len(args) > 1 and not default_arg(args[1]):
                k = u64arg(I, args[1])
                k = k if p.decide(ult(k, rest)) else rest
            t.store(p, cat(slice_(p, v, 0, o), slice_(p, v, add(o, k), sub(rest, k))))
            return t
        if len(args) != 2:
            raise ToolLimit('insert overload')
        t.store(p, cat(slice_(p, v, 0, o), content(I, load(I, I.ev(args[1]))), slice_(p, v, o, rest)))
        return t
    if name == 'erase' and ot.name != 'std::string' or name == 'erase' and args and isinstance(load(I, I.ev(args[0])), IterV):
        a = load(I, I.ev(args[0]))
        b = load(I, I.ev(args[1])) if len(args) > 1 else None
        if isinstance(a, IterV):
            if b is None:
                p.require(ult(a.idx, L), 'erased position in range')
                e = add(a.idx, 1)
            else:
                e = b.idx
                p.require(And(ule(a.idx, e), ule(e, L)), 'erased range is valid')
            t.store(p, cat(slice_(p, v, 0, a.idx), slice_(p, v, e, sub(L, e))))
            return IterV(t, a.idx)
    if name in ('append', 'operator+=', 'assign') and ot.name in ('std::string', 'std::vector'):
        vals = [load(I, I.ev(a)) for a in args if not default_arg(a)]
        if len(vals) == 1:
            x = Lit([vals[0]]) if isinstance(vals[0], (int, z3.ExprRef)) else content(I, vals[0])
        elif len(vals) == 2 and isinstance(vals[0], (IterV, Ptr)) and isinstance(vals[1], (IterV, Ptr)):
            x = slice_(p, seq_of(I, vals[0].lv), vals[0].idx, sub(vals[1].idx, vals[0].idx))
        elif len(vals) == 2 and isinstance(vals[0], (int, z3.ExprRef)):
            x = Rep(vals[1], I.int_cast(vals[0], I.T(args[0]), U64))
        elif len(vals) == 2 and isinstance(vals[0], Ptr):
            k = I.int_cast(vals[1], I.T(args[1]), U64)
            p.require(ule(add(vals[0].idx, k), seqlen(I, vals[0].lv)), 'range valid')
            x = slice_(p, seq_of(I, vals[0].lv), vals[0].idx, k)
        else:
            raise ToolLimit('append overload')
        t.store(p, x if name == 'assign' else cat(t.load(p), x))
        return t
    if name == 'operator=':
        return assign_to(I, lv, ot, I.ev(args[0]), I.T(args[0]))
    if name == 'swap':
        o = I.lv(args[0])
        x = o.load(p)
        o.store(p, v)
        t.store(p, x)
        return None
    if name == 'fill' and ot.name == 'std::array':
        t.store(p, Rep(I.rv(args[0]), L) if L > 64 else Lit([I.rv(args[0])] * L))
        return None
    raise ToolLimit('%s::%s' % (ot.name, name))


def emplace_value(I, et, args):
    cls = et.simple
    fs = [f for f in I.P.funcs.get(cls, []) if f['_cls'] == cls and f['kind'] == 'CXXConstructorDecl' and not f.get('isImplicit')]
    if fs:
        return make_object(I, et, args)
    flds = I.all_fields(cls)
    d = {}
    for fd, a in zip(flds, args):
        d[fd['name']] = coerce(I, I.rv(a), I.T(a), I.T(fd))
    for fd in flds[len(args):]:
        d[fd['name']] = I.field_default(fd)
    return Rec(cls, d)


def key_eq(a, b):
    return a is b or a.key() == b.key()


def template_args(I, node, ty):
    """offset and count of subspan<Offset, Count>() from the source text of the call"""
    m = node['inner'][0]
    src = I.P.source_text(node) if hasattr(I.P, 'source_text') else None
    d = I.P.by_id.get(m.get('referencedMemberDecl'))
    nexp = ty.args[1].n if len(ty.args) > 1 else None
    if src:
        mm = re.search(r'(?:template\s+)?subspan\s*<(.*)>\s*\(\s*\)', src, re.S)
        if mm:
            from .types import split_args
            parts = split_args(mm.group(1))
            o = I.P.const_expr(parts[0])
            if o is not None:
                return o, nexp if nexp is not None and nexp < (1 << 60) else None
    raise ToolLimit('subspan template arguments')


def string_find(I, v, name, args):
    p = I.p
    a = load(I, I.ev(args[0]))
    npos = (1 << 64) - 1
    pos = None
    if len(args) > 1 and not default_arg(args[1]):
        pos = u64arg(I, args[1])
    s = Lit([a]) if isinstance(a, (int, z3.ExprRef)) else content(I, a)
    if is_sym(s.len):
        raise ToolLimit('search for a symbolic string')
    one = s.len == 1

    def isin(x):
        return Or(*[eq_formula(p, x, c) for c in s.e]) if isinstance(s, Lit) else Or(*[eq_formula(p, x, s.at(p, i)) for i in range(s.len)])
    if name == 'contains':
        if not one:
            raise ToolLimit('contains')
        k = first_index(I, 0, v.len, lambda k: isin(v.at(p, k)))
        return ult(k, v.len)
    if name in ('find', 'find_first_of') and (one or name == 'find_first_of'):
        if isinstance(v, Lit) and not v.e:
            return npos
        k = first_index(I, 0 if pos is None else pos, v.len, lambda k: isin(v.at(p, k)))
        return simp(Ite(ult(k, v.len), k, npos, 64))
    if name == 'find_first_not_of':
        k = first_index(I, 0 if pos is None else pos, v.len, lambda k: Not(isin(v.at(p, k))))
        return simp(Ite(ult(k, v.len), k, npos, 64))
    if name in ('rfind', 'find_last_of') and (one or name == 'find_last_of') and pos is None:
        # index from the end
        n = v.len
        k = first_index(I, 0, n, lambda k: isin(v.at(p, sub(sub(n, 1), k))), 'last')
        return simp(Ite(ult(k, n), sub(sub(n, 1), k), npos, 64))
    raise ToolLimit('string::%s' % name)


def map_method(I, lv, ot, name, args, node):
    """maps with concrete keys: Lit of pair records"""
    p = I.p
    v = lv.load(p)
    if isinstance(v, Lit) and (v.e or not I.is_scalar(ot.args[0])):
        if name == 'size':
            return v.len
        if name == 'empty':
            return v.len == 0
        if name in ('find', 'contains', 'at', 'count'):
            k = load(I, I.ev(args[0]))
            k = coerce(I, k, I.T(args[0]), ot.args[0])
            if isinstance(k, Seq) and v.len <= 64:       # one case per entry
                idx = v.len
                for i in range(v.len):
                    if p.decide(equal(I, v.e[i].f['first'], k)):
                        idx = i
                        break
            else:
                idx = first_index(I, 0, v.len, lambda i: equal(I, v.at(p, i).f['first'], k))
            if name == 'contains':
                return ult(idx, v.len)
            if name == 'at':
                if not p.decide(ult(idx, v.len)):
                    raise CppThrow('std::out_of_range')
                return LVField(LVElem(lv, idx), 'second')
            if name == 'count':
                return Ite(ult(idx, v.len), 1, 0, 64)
            return IterV(lv, idx)
        if name in ('end', 'cend'):
            return IterV(lv, v.len)
        if name in ('begin', 'cbegin'):
            return IterV(lv, 0)
    return M.method(I, lv, ot, name, args, node, sys.modules[__name__])


# --- operators ----------------------------------------------------------------------------------------
def operator(I, name, args, node):
    p = I.p
    ts = [I.T(a).strip() for a in args]
    op = name[len('operator'):]
    t0 = ts[0]
    if t0.name == 'std::atomic' and op == '=':
        return atomic_method(I, I.lv(args[0]), t0.args[0], 'operator=', args[1:])
    h = I.ctx.get('ext_ops', {}).get((t0.name, op))
    if h is not None:
        return h(I, args, node)
    if op == '=':
        return assign(I, args)
    if op == '[]':
        if t0.name in SEQ:
            return seq_method(I, I.lv(args[0]), t0, 'operator[]', args[1:], node)
        if t0.name in ('std::map', 'std::unordered_map'):
            return map_method(I, I.lv(args[0]), t0, 'operator[]', args[1:], node)
        raise ToolLimit('operator[] of %s' % t0)
    if op in ('|', '&', '^') and len(args) == 2 and all(I.is_scalar(t) for t in ts):      # bit-mask enumerations
        a, b = I.rv(args[0]), I.rv(args[1])
        if not is_sym(a) and not is_sym(b):
            return a | b if op == '|' else a & b if op == '&' else a ^ b
        w = I.width(t0)
        return simp(bv(a, w) | bv(b, w) if op == '|' else bv(a, w) & bv(b, w) if op == '&' else bv(a, w) ^ bv(b, w))
    if op == '*' and len(args) == 1:
        if t0.name in ('std::optional', 'std::expected'):
            lv = I.lv(args[0])
            p.require(lv.load(p).has, 'dereferenced %s is engaged' % t0.name)
            return LVOpt(lv)
        return deref(I, I.rv(args[0]))
    if op == '->':
        if t0.name in ('std::optional', 'std::expected'):
            lv = I.lv(args[0])
            p.require(lv.load(p).has, 'dereferenced %s is engaged' % t0.name)
            return Ptr(LVOpt(lv))
        v = I.rv(args[0])
        if isinstance(v, Opaque):
            return v
        return Ptr(deref(I, v))
    if op in ('++', '--'):
        lv = I.lv(args[0])
        v = lv.load(p)
        if isinstance(v, M.MIter):
            p.require(ult(v.idx, v.lv.load(p).base.n), 'advanced iterator of a map is not the end')
            m, k = v.lv.load(p), v.lv.load(p).base.key(p, v.idx)
            p.require(m.has(p, k), 'advanced iterator of a map refers to an element that is still there')
        if isinstance(v, (IterV, Ptr)):
            nv = type(v)(v.lv, add(v.idx, 1) if op == '++' else sub(v.idx, 1))
            lv.store(p, nv)
            return v if len(args) > 1 else lv
    if op == '|' and len(args) == 2 and (t0.name in SEQ):
        b = load(I, I.ev(args[1]))
        if isinstance(b, Opaque) and b.kind == 'views::reverse':
            return reversed_lv(I, I.ev(args[0]))
        if isinstance(b, Drop):
            lv, lo, hi = seq_lv(I, I.ev(args[0]))
            n = I.int_cast(b.n, parse_type('int'), U64)
            tot = sub(hi, lo)
            d = Ite(ult(n, tot), n, tot, 64)
            d = simp(d)
            return SpanV(lv, add(lo, d), sub(tot, d))
    if op in ('==', '!='):
        a, b = I.ev(args[0]), I.ev(args[1])
        r = equal(I, a, b)
        return Not(r) if op == '!=' else r
    if op == '+':
        a, b = load(I, I.ev(args[0])), load(I, I.ev(args[1]))
        if isinstance(a, IterV):
            return IterV(a.lv, add(a.idx, I.int_cast(b, ts[1], I64)))
        if 'std::string' in (ts[0].name, ts[1].name):
            f = lambda x: Lit([x]) if isinstance(x, (int, z3.ExprRef)) else content(I, x)
            return cat(f(a), f(b))
        if ts[0].name.startswith('std::chrono'):
            return time_val(I, a, ts[0]) + time_val(I, b, ts[1])
    if op == '-':
        a, b = load(I, I.ev(args[0])), load(I, I.ev(args[1]))
        if isinstance(a, IterV) and isinstance(b, IterV):
            return sub(a.idx, b.idx)
        if isinstance(a, IterV):
            return IterV(a.lv, sub(a.idx, I.int_cast(b, ts[1], I64)))
        if ts[0].name.startswith('std::chrono'):
            return simp(bv(a, 64) - bv(b, 64))
    if op in ('+=', '-='):
        lv = I.lv(args[0])
        b = load(I, I.ev(args[1]))
        v = lv.load(p)
        if t0.name == 'std::string':
            x = Lit([b]) if isinstance(b, (int, z3.ExprRef)) else content(I, b)
            lv.store(p, cat(v, x))
            return lv
        if isinstance(v, IterV):
            k = I.int_cast(b, ts[1], I64)
            lv.store(p, IterV(v.lv, add(v.idx, k) if op == '+=' else sub(v.idx, k)))
            return lv
    if op == '<=>':
        a, b = load(I, I.ev(args[0])), load(I, I.ev(args[1]))
        if ts[0].name.startswith('std::chrono'):
            return Ordering(time_val(I, a, ts[0]), time_val(I, b, ts[1]), True)
        if isinstance(a, IterV):
            return Ordering(a.idx, b.idx, False)
    if op in ('<', '>', '<=', '>='):
        a, b = load(I, I.ev(args[0])), load(I, I.ev(args[1]))
        if isinstance(a, Ordering) or isinstance(b, Ordering):
            x, y = (a.a, a.b) if isinstance(a, Ordering) else (b.b, b.a)
            return I.compare(op, x, y, I64 if (a if isinstance(a, Ordering) else b).signed else U64)
        if isinstance(a, IterV) and isinstance(b, IterV):
            return I.compare(op, a.idx, b.idx, U64)
        if ts[0].name.startswith('std::chrono'):
            return I.compare(op, time_val(I, a, ts[0]), time_val(I, b, ts[1]), I64)
    if op == '!' and len(args) == 1:
        return Not(truth(I, I.rv(args[0])))
    if op == '<<':
        s = I.ev(args[0])
        if isinstance(s, LV) and isinstance(s.load(p), Rec) and s.load(p).cls == 'stringstream':
            insert_text(I, s, args[1])
            return s
        log_args(I, args[1:])
        return s
    raise ToolLimit('operator %s on %s' % (op, ', '.join(map(repr, ts))))


STREAMS = ('std::stringstream', 'std::ostringstream', 'std::basic_stringstream', 'std::basic_ostringstream')


def insert_text(I, s, arg):
    """string stream << arg"""
    p = I.p
    t = I.T(arg).strip()
    name = next((c.get('referencedDecl', {}).get('name') for c in [arg, *arg.get('inner', [])] if c.get('kind') == 'DeclRefExpr'), None)
    r = s.load(p)
    if (arg.get('referencedDecl') or {}).get('kind') == 'FunctionDecl' or name in ('fixed', 'dec', 'hex', 'left', 'right', 'endl', 'flush'):
        if name in ('fixed', 'dec', 'flush') and not r.f.get('odd'):
            return
        if name in ('hex', 'left', 'right', 'oct', 'showbase', 'boolalpha', 'internal', 'uppercase', 'showpos', 'dec'):
            s.store(p, Rec(r.cls, dict(r.f, odd=True)))
            return
        raise ToolLimit('manipulator %s' % name)
    if t.name in ('std::_Setprecision',):
        return
    if t.name in ('std::_Setw', 'std::_Setfill', 'std::_Setbase'):
        s.store(p, Rec(r.cls, dict(r.f, odd=True)))
        return
    v = load(I, I.ev(arg))
    if r.f.get('odd') and not isinstance(v, (bytes,)):
        raise ToolLimit('formatted output of a stream')
    if isinstance(v, Opaque) and v.kind == 'float':
        x = Base(p, p.fresh('float text', Str))
        p.fact(z3.ULE(x.len, z3.BitVecVal(400, 64)))
    elif t.name in ('char', 'signed char', 'unsigned char', 'uint8_t', 'int8_t'):
        x = Lit([bv(v, 8) if is_sym(v) else v & 0xff])
    elif isinstance(v, bool) or t.kind == 'bool':
        x = Lit([0x31]) if p.decide(v) else Lit([0x30])
    elif isinstance(v, (int, z3.ExprRef)):
        x = decimal(I, v, t)
    else:
        x = content(I, v)
    r = s.load(p)
    s.store(p, Rec(r.cls, dict(r.f, s=cat(r.f['s'], x))))


def ratio_ns(t):
    """nanoseconds per tick of a std::chrono::duration type"""
    t = t.strip()
    if t.name == 'std::chrono::time_point':
        return 1
    s = t.raw or ''
    m = re.search(r'ratio<(\d+)L?(?:,\s*(\d+)L?)?>', s)
    if m:
        num, den = int(m.group(1)), int(m.group(2) or 1)
        return num * 10**9 // den
    if 'nanoseconds' in s:
        return 1
    if 'milliseconds' in s:
        return 10**6
    if 'microseconds' in s:
        return 10**3
    if 'minutes' in s:
        return 60 * 10**9
    if 'seconds' in s or (t.name == 'std::chrono::duration' and len(t.args) == 1):
        return 10**9
    raise ToolLimit('duration unit of %s' % s)


def time_val(I, v, t):
    k = ratio_ns(t)
    if not is_sym(v):
        return v * k
    return v if k == 1 else simp(v * k)


def duration_cast(I, v, ft, tt):
    a, b = ratio_ns(ft), ratio_ns(tt)
    if a == b:
        return v
    if not is_sym(v):
        return v * a // b if v < (1 << 63) else ToolLimit
    if a > b:
        return simp(v * (a // b))
    return simp(v / z3.BitVecVal(b // a, 64))


def assign(I, args):
    lv = I.lv(args[0])
    r = I.ev(args[1])
    t = I.T(args[0]).strip()
    return assign_to(I, lv, t, r, I.T(args[1]), args[1].get('valueCategory'))


def assign_to(I, lv, t, r, rt, cat_=None):
    p = I.p
    v = load(I, r)
    t = t.strip()
    if t.name == 'std::optional':
        if isinstance(v, Opaque) and v.kind == 'std::nullopt_t':
            v = Opt(False)
        elif isinstance(v, Opt):
            if v.val is not None and rt.strip().name == 'std::optional':
                pass
        else:
            v = Opt(True, coerce(I, v, rt, t.args[0]))
    elif t.name == 'std::expected':
        if isinstance(v, Unexpected):
            v = Opt(False, None, v.err, 'expected')
        elif not isinstance(v, Opt):
            v = Opt(True, coerce(I, v, rt, t.args[0]), None, 'expected')
    elif t.name in ('std::string',):
        v = Lit([v]) if isinstance(v, (int, z3.ExprRef)) else content(I, v)
    elif t.name == 'std::vector' and isinstance(v, SpanV):
        v = v.seq(p)
    elif t.name == 'std::unique_ptr' and isinstance(v, Null):
        v = UPtr(None)
    elif t.name.startswith('std::chrono::duration') and isinstance(v, (int, z3.ExprRef)):
        v = duration_cast(I, v, rt, t)
    if cat_ == 'xvalue' and isinstance(r, LV):
        move_out(I, r, rt.strip())
    if needs_destroy(I, t):
        destroy(I, lv, t)
    lv.store(p, v)
    return lv


# --- construction -------------------------------------------------------------------------------------
def construct(I, t, args, node):
    p = I.p
    n = t.name
    ct = node.get('ctorType', {}).get('qualType', '')
    args = [a for a in args]
    h = I.ctx.get('ext_ctors', {}).get(n)
    if h is not None:
        return h(I, t, args, node)
    if n == 'std::atomic':
        return coerce(I, load(I, I.ev(args[0])), I.T(args[0]), t.args[0]) if args else I.default(t)
    if n in STREAMS:
        if not [a for a in args if not default_arg(a)]:
            return Rec('stringstream', {'s': Lit([])})
        raise ToolLimit('string stream with an initial text')
    if n == 'fmt::basic_format_string' or n == 'std::basic_format_string':
        return I.rv(args[0]) if args else None
    if n in ('std::nullopt_t', 'std::allocator', 'std::equal_to', 'std::hash', 'std::__cmp_cat::__unspec', 'std::less'):
        return Opaque(n, 0)
    if t.kind == 'ptr' or I.is_scalar(t):
        return I.rv(args[0]) if args else I.default(t)
    if n in ('std::__cmp_cat::__unspec',):
        return 0
    base = ct.split(' noexcept')[0]
    real = [a for a in args if not default_arg(a)]
    if n == 'std::span':
        if not real:
            return SpanV(None, 0, 0)
        if len(real) == 1:
            a = I.ev(real[0])
            v = load(I, a)
            if isinstance(v, SpanV):
                r = v
            else:
                lv = a if isinstance(a, LV) else p.newlv('tmp', v, I.T(real[0]).strip())
                r = SpanV(lv, 0, v.len)
        else:
            a, b = I.rv(real[0]), I.rv(real[1])
            if isinstance(b, (IterV, Ptr)):
                k = sub(b.idx, a.idx)
            else:
                k = I.int_cast(b, I.T(real[1]), U64)
            if isinstance(a, Null):
                p.require(Eq(k, 0), 'span of a null pointer is empty')
                return SpanV(None, 0, 0)
            if not isinstance(a, (Ptr, IterV)):
                raise ToolLimit('span from %r' % (a,))
            p.require(And(ule(a.idx, seqlen(I, a.lv)), ule(k, sub(seqlen(I, a.lv), a.idx))), 'span within its storage')
            r = SpanV(a.lv, a.idx, k)
        if len(t.args) > 1 and t.args[1].n is not None and 0 <= t.args[1].n < (1 << 40):
            p.require(Eq(r.len, t.args[1].n), 'span has its static extent')
            r = SpanV(r.lv, r.off, t.args[1].n)
        return r
    if n in ('std::string', 'std::vector', 'std::deque', 'std::string_view'):
        if not real or (len(real) == 1 and I.T(real[0]).strip().name == 'std::allocator'):
            return EMPTY
        real = [a for a in real if I.T(a).strip().name != 'std::allocator']
        if len(real) == 1:
            a = I.ev(real[0])
            v = load(I, a)
            at = I.T(real[0]).strip()
            if isinstance(v, (Ptr, CStr)):
                return cstr_content(I, v)
            if isinstance(v, Opaque) and v.kind == 'cstr':
                return v.data
            if I.is_scalar(at) and isinstance(v, (int, z3.ExprRef)):
                k = I.int_cast(v, at, U64)
                e = I.default(t.args[0])
                return Rep(e, k) if is_sym(k) or k > 64 else Lit([e] * k)
            s = content(I, v)
            if base.endswith('&&)') and isinstance(a, LV) and at.name == n and real[0].get('valueCategory') == 'xvalue':
                move_out(I, a, at)
            return s
        if len(real) == 2:
            a, b = load(I, I.ev(real[0])), load(I, I.ev(real[1]))
            if isinstance(a, (IterV, Ptr)) and isinstance(b, (IterV, Ptr)):
                if a.lv is None:
                    return EMPTY
                p.require(And(ule(a.idx, b.idx), ule(b.idx, seqlen(I, a.lv))), 'iterator range is valid')
                return slice_(p, seq_of(I, a.lv), a.idx, sub(b.idx, a.idx))
            if isinstance(a, (Ptr, IterV)):
                k = I.int_cast(b, I.T(real[1]), U64)
                p.require(And(ule(a.idx, seqlen(I, a.lv)), ule(k, sub(seqlen(I, a.lv), a.idx))), 'pointer range is valid')
                return slice_(p, seq_of(I, a.lv), a.idx, k)
            if isinstance(a, (int, z3.ExprRef)):
                k = I.int_cast(a, I.T(real[0]), U64)
                b = coerce(I, b, I.T(real[1]), t.args[0] if t.args else Type('int', 'char', width=8, signed=True))
                return Rep(b, k)
            if isinstance(a, Seq) and isinstance(b, (int, z3.ExprRef)):   # string(sv, pos)
                raise ToolLimit('string(sv,pos)')
        raise ToolLimit('constructor %s %s' % (n, ct))
    if n in ('std::optional', 'std::expected'):
        kind = 'optional' if n == 'std::optional' else 'expected'
        if not real:
            if kind == 'optional':
                return Opt(False)
            return I.default(t)
        a = I.ev(real[0])
        at = I.T(real[0]).strip()
        if I.ctx.get('raii') and isinstance(a, LV) and needs_destroy(I, at) and (at.name == n or at.simple == t.args[0].simple):
            v = transfer(I, a, at, real[0].get('valueCategory') == 'xvalue')
            return v if at.name == n else Opt(True, v, None, kind)
        v = load(I, a)
        if isinstance(v, Opaque) and v.kind == 'std::nullopt_t':
            return Opt(False)
        if isinstance(v, Unexpected):
            return Opt(False, None, v.err, 'expected')
        if isinstance(v, Opt) and at.name == n:
            if at.args and t.args and at.args[0].name == t.args[0].name or True:
                if kind == 'optional' and t.args[0].kind != 'void' and v.val is not None and I.is_scalar(t.args[0]) and I.is_scalar(at.args[0]):
                    v = Opt(v.has, I.int_cast(v.val, at.args[0], t.args[0]), v.err, v.kind)
                if base.endswith('&&)') and isinstance(a, LV) and real[0].get('valueCategory') == 'xvalue' and v.val is not None and v.has is not False:
                    if t.args[0].kind == 'class' and (t.args[0].simple in I.P.records):
                        move_out(I, LVOpt(a), t.args[0])
                return v
        if base.endswith('&&)') and isinstance(a, LV) and real[0].get('valueCategory') == 'xvalue' and not (isinstance(a, LVCell) and a.cell.name == 'tmp'):
            vv = coerce(I, v, at, t.args[0])
            move_out(I, a, at)
            return Opt(True, vv, None, kind)
        return Opt(True, coerce(I, v, at, t.args[0]), None, kind)
    if n == 'std::unexpected':
        v = I.rv(real[0])
        return Unexpected(v)
    if n == 'std::unique_ptr':
        if not real:
            return UPtr(None)
        a = I.ev(real[0])
        v = load(I, a)
        if own_deleter(t) and not isinstance(v, UPtr):
            if len(real) > 1:
                d = load(I, I.ev(real[1]))
            elif t.args[1].kind == 'class' and t.args[1].simple in I.P.records:
                d = make_object(I, t.args[1], [])
            else:
                raise ToolLimit('unique_ptr deleter %s' % (t.args[1],))
            return owner(I, v, d)
        if isinstance(v, Null):
            return UPtr(None)
        if isinstance(a, LV) and real[0].get('valueCategory') == 'xvalue' and not (isinstance(a, LVCell) and a.cell.name == 'tmp'):
            a.store(p, UPtr(None))
        return v
    if n == 'std::function':
        if not real:
            return NULL
        a = I.ev(real[0])
        v = load(I, a)
        return v
    if n in ('std::back_insert_iterator', '__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::_Deque_iterator', 'std::_Rb_tree_iterator', 'std::__detail::_Node_iterator', 'std::_Rb_tree_const_iterator',
             'std::__detail::_Node_const_iterator'):
        return I.rv(real[0])
    if n.startswith('std::chrono::duration') or n.startswith('std::chrono::time_point'):
        if not real:
            return 0
        v = I.rv(real[0])
        at = I.T(real[0]).strip()
        if at.name.startswith('std::chrono::'):
            return duration_cast(I, v, at, t)
        return I.int_cast(v, at, I64)
    if n == 'std::pair':
        vals = [coerce(I, load(I, I.ev(a)), I.T(a), t.args[i]) for i, a in enumerate(real)] if len(real) == 2 else None
        if vals:
            return Rec('pair', {'first': vals[0], 'second': vals[1]})
        return I.rv(real[0])
    if n in ('std::map', 'std::unordered_map'):
        if not real:
            return Lit(())
        return I.rv(real[0])
    if n in ('std::runtime_error', 'std::out_of_range', 'std::system_error', 'std::invalid_argument', 'std::logic_error', 'std::length_error', 'std::bad_alloc'):
        for a in real:
            try:
                I.ev(a)
            except ToolLimit:
                pass
        return Opaque('exception', n)
    if n == 'std::array':
        if not real:
            return I.default(t)
        return I.rv(real[0])
    if n.endswith('shared_ptr') or n.startswith('opentelemetry'):
        return I.rv(real[0]) if real else Opaque('otel', 0)
    if n == 'std::filesystem::path':        # from a path, or from its native string
        if not real:
            return EMPTY
        v = I.ev(real[0])
        v = v.load(p) if isinstance(v, LV) else v
        return v if isinstance(v, Seq) else content(I, v)
    if n == 'std::initializer_list' and not real:
        return EMPTY
    d = default_value(I, t)
    if d is not None and not real:
        return d
    if t.simple in EXT_RECORDS and len(real) == 1 and I.T(real[0]).strip().simple == t.simple:       # a copy
        return I.rv(real[0])
    raise ToolLimit('constructor of %s (%s)' % (n, ct))


def init_list(I, t, ks, node):
    if t.name == 'std::initializer_list':
        return Lit([I.rv(c) for c in ks])
    if t.simple in EXT_RECORDS:
        fs = list(EXT_RECORDS[t.simple].items())
        d = {}
        for (f, ft), c in zip(fs, ks):
            d[f] = I.default(ft) if c.get('kind') == 'ImplicitValueInitExpr' or (c.get('kind') == 'InitListExpr' and not [x for x in c.get('inner', ()) if x.get('kind') != 'ImplicitValueInitExpr']) else I.rv(c)
        for f, ft in fs[len(ks):]:
            d[f] = I.default(ft)
        return Rec(t.simple, d)
    if len(ks) == 1:
        return I.rv(ks[0])
    if t.name == 'std::pair' and len(ks) == 2:
        return Rec('pair', {'first': I.rv(ks[0]), 'second': I.rv(ks[1])})
    if not ks:
        return I.default(t)
    raise ToolLimit('initialiser list of %s' % t)


def move_out(I, lv, t):
    """leave the moved-from state"""
    p = I.p
    try:
        v = lv.load(p)
        if isinstance(lv, LVVal):
            return
        nv = moved(I, v)
        if nv is not v:
            lv.store(p, nv)
    except ToolLimit:
        pass


def own_deleter(t):
    t = t.strip()
    return t.name == 'std::unique_ptr' and len(t.args) > 1 and 'default_delete' not in t.args[1].name


def owner(I, v, d):
    """a unique_ptr with its own deleter d, made from the raw pointer v"""
    if isinstance(v, SymPtr):
        v = v.ptr if I.p.decide(v.ok) else Null()
    if isinstance(v, Null):
        return UPtr(None, d)
    if isinstance(v, Ptr) and v.idx is None:
        return UPtr(v.lv, d)
    raise ToolLimit('unique_ptr from %r' % (v,))


def delete(I, v, t):
    """the deleter of a unique_ptr that has one of its own is called on what it owns"""
    if not isinstance(v, UPtr):
        raise ToolLimit('unique_ptr %r' % (v,))
    if v.cell is None:
        return
    x = Ptr(v.cell if isinstance(v.cell, LV) else LVCell(v.cell))
    d = v.deleter
    if isinstance(d, Ptr):
        d = load(I, d.lv)
    if isinstance(d, FnRef):
        h = I.ctx.get('externs', {}).get(d.decl.get('name'))
        if h is None:
            raise ToolLimit('deleter %s' % d.decl.get('name'))
        h(I, [{'kind': 'EngineValue', '#value': x}], None)
        return
    call_value(I, d, [x], parse_type('void'))


def moved(I, v):
    if isinstance(v, Seq):
        return EMPTY
    if isinstance(v, UPtr):
        return UPtr(None, v.deleter)
    if isinstance(v, Rec):
        d = {k: moved(I, x) for k, x in v.f.items()}
        if all(d[k] is v.f[k] for k in d):
            return v
        return Rec(v.cls, d)
    return v


EXC_BASE = {'some std::exception': 'std::exception'}
for _b, _ds in (('std::exception', 'runtime_error logic_error bad_alloc bad_cast bad_typeid bad_exception bad_optional_access bad_expected_access '
                 'bad_function_call bad_variant_access bad_weak_ptr'),
                ('std::logic_error', 'out_of_range invalid_argument length_error domain_error future_error'),
                ('std::runtime_error', 'system_error range_error overflow_error underflow_error format_error regex_error'),
                ('std::system_error', 'filesystem::filesystem_error ios_base::failure'), ('std::bad_cast', 'bad_any_cast'),
                ('std::bad_alloc', 'bad_array_new_length')):
    for _d in _ds.split():
        EXC_BASE['std::' + _d] = _b
EXC_BASE.update({'CLI::Error': 'std::runtime_error', 'CLI::ParseError': 'CLI::Error', 'CLI::ValidationError': 'CLI::ParseError',
                 'CLI::Success': 'CLI::ParseError', 'CLI::CallForHelp': 'CLI::Success', 'CLI::RequiredError': 'CLI::ParseError',
                 'CLI::ConversionError': 'CLI::ParseError', 'CLI::ExtrasError': 'CLI::ParseError', 'spdlog::spdlog_ex': 'std::exception'})


def exc_bases(c):
    while c is not None:
        yield c
        c = EXC_BASE.get(c)


def catches(caught, thrown, exc=None, p=None):
    """does a clause for that class catch the exception? Where the class thrown is not known, both happen, consistently for all clauses"""
    if not thrown.startswith('?'):
        return caught in exc_bases(thrown)
    if thrown[1:] and caught in exc_bases(thrown[1:]):
        return True
    if exc is None or p is None:
        return False
    if caught not in exc.isa:
        if any(v and caught in exc_bases(k) for k, v in exc.isa.items()):
            return True
        if any(not v and k in exc_bases(caught) for k, v in exc.isa.items()):
            return False
        exc.isa[caught] = p.choose(2) == 0
    return exc.isa[caught]


def user_special(I, cls, name, want=None):
    """user-provided special member functions of a repository class"""
    return [f for f in I.P.funcs.get(name, []) if f['_cls'] == cls and not f.get('isImplicit') and not f.get('explicitlyDefaulted') and
            not f.get('explicitlyDeleted')]


def needs_destroy(I, t):
    t = t.strip()
    if t.kind != 'class':
        return False
    if I.ctx.get('ext_destroy') and t.name in I.ctx['ext_destroy']:
        return True
    if t.simple in I.P.records and not t.args:
        if user_special(I, t.simple, '~' + t.simple):
            return True
        if not I.ctx.get('raii'):
            return False
        memo = I.P.__dict__.setdefault('_nd', {})
        if t.simple not in memo:
            memo[t.simple] = False
            memo[t.simple] = any(needs_destroy(I, I.T(f)) for f in I.all_fields(t.simple) if I.T(f).kind != 'ref')
        return memo[t.simple]
    if own_deleter(t):     # a deleter of its own
        return True
    if I.ctx.get('raii') and t.name in ('std::optional', 'std::unique_ptr', 'std::expected') and t.args:
        return t.name == 'std::unique_ptr' and t.args[0].simple in I.P.records or needs_destroy(I, t.args[0])
    return False


def destroy(I, lv, t):
    t = t.strip()
    if t.kind == 'ref':
        return
    p = I.p
    h = I.ctx.get('ext_destroy', {}).get(t.name)
    if h is not None:
        h(I, lv, t)
        return
    if t.kind == 'class' and t.simple in I.P.records:
        d = user_special(I, t.simple, '~' + t.simple)
        c = I.contracts.get('%s::~%s' % (t.simple, t.simple))
        if c is not None:
            c.apply(I, lv, [])
            return
        if d:
            I.exec_function(d[0], lv, [])
        if I.ctx.get('raii'):
            for f in reversed(I.all_fields(t.simple)):
                ft = I.T(f)
                if ft.kind != 'ref' and needs_destroy(I, ft):
                    destroy(I, LVField(lv, f['name']), ft)
        return
    if own_deleter(t):
        delete(I, lv.load(p), t)
        return
    if not I.ctx.get('raii'):
        return
    if t.name in ('std::optional', 'std::expected') and needs_destroy(I, t):
        v = lv.load(p)
        if isinstance(v, Opt) and p.decide(v.has):
            destroy(I, LVOpt(lv), t.args[0])
    elif t.name == 'std::unique_ptr' and needs_destroy(I, t):
        v = lv.load(p)
        if isinstance(v, UPtr) and v.cell is not None:
            o = v.cell.load(p)
            cls = o.cls if isinstance(o, Rec) else t.args[0].simple
            destroy(I, v.cell, parse_type(cls))


def transfer(I, src, t, move):
    """the value of a new object of type t copy- or move-constructed from src (raii mode)"""
    p = I.p
    t = t.strip()
    if t.kind == 'class' and t.simple in I.P.records and not t.args:
        for f in user_special(I, t.simple, t.simple):
            ps = I.params(f)
            if len(ps) == 1 and I.T(ps[0]).kind == 'ref' and I.T(ps[0]).strip().simple == t.simple:
                rvr = '&&' in node_type_str(ps[0])
                if rvr == bool(move):
                    tmp = p.newlv('obj.' + t.simple, Rec(t.simple, {}), t)
                    I.run_ctor(f, t.simple, tmp, [src])
                    return tmp.load(p)
        if needs_destroy(I, t):
            v = src.load(p)
            for f in I.all_fields(t.simple):
                if I.T(f).kind != 'ref':
                    v = v.with_(f['name'], transfer(I, LVField(src, f['name']), I.T(f), move))
            return v
    if t.name == 'std::optional' and needs_destroy(I, t):
        v = src.load(p)
        if isinstance(v, Opt):
            if p.decide(v.has):
                return Opt(True, transfer(I, LVOpt(src), t.args[0], move))
            return Opt(False, v.val)
    v = src.load(p)
    if move:
        move_out(I, src, t)
    return v


def static_local(I, d, t, init):
    key = ('static', d['id'])
    if key not in I.globals:
        if not t.const and not str(d.get('type', {}).get('qualType', '')).startswith('const '):
            raise ToolLimit('%s keeps its value from call to call' % d['name'])
        I.globals[key] = LVVal(I.rv(init[0]) if init else I.default(t))
    return I.globals[key]


def uninit_array(I, t):
    e = t.args[0].strip()
    if e.kind == 'int' and e.width == 8:
        b = Base(I.p, I.p.fresh('uninit', Str))
        I.p.fact(b.len == t.n)
        return Slice(b, 0, t.n)
    if t.n <= 64 and (e.kind in ('int', 'bool')):
        return Lit([I.symbolic(e, 'uninit') for _ in range(t.n)])
    return Rep(I.default(e), t.n)


def binding(I, base, b, i):
    v = base.load(I.p)
    if isinstance(v, Rec):
        if v.cls == 'pair':
            return LVField(base, ['first', 'second'][i])
        fs = [f['name'] for f in I.all_fields(v.cls)] or list(v.f)
        return LVField(base, fs[i])
    if isinstance(v, Lit):
        return LVElem(base, i)
    raise ToolLimit('structured binding of %r' % (v,))

"""Verification-condition generator: symbolic execution of clang's AST of the real code, function by function.

Calls to functions with a contract use the contract; other repository functions are executed in place; standard library
and system functions are given by vc/lib.py.  Every implicit obligation of C++ (bounds, engaged optionals, arithmetic,
iterator ranges) is proved where it arises.
"""
import os
import re
import z3
from .sym import *
from .types import parse_type, node_type_str, T as Type
from . import lib as L


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


LOGFN = {'trace', 'debug', 'info', 'warn', 'error', 'critical'}


def kids(n):
    return n.get('inner', [])


def tmask(w):
    return (1 << w) - 1


def to_signed(v, w):
    return v - (1 << w) if v >= (1 << (w - 1)) else v


def ubound(e, memo=None):
    """a cheap upper bound of an unsigned bit-vector term"""
    if not is_sym(e):
        return e
    if memo is None:
        memo = {}
    key = e.get_id()
    if key in memo:
        return memo[key]
    k = e.decl().kind()
    top = (1 << e.size()) - 1
    if k == z3.Z3_OP_BNUM:
        r = e.as_long()
    elif k == z3.Z3_OP_ZERO_EXT:
        r = ubound(e.arg(0), memo)
    elif k == z3.Z3_OP_CONCAT and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
        r = (e.arg(0).as_long() << e.arg(1).size()) + ubound(e.arg(1), memo)
    elif k == z3.Z3_OP_ITE:
        r = max(ubound(e.arg(1), memo), ubound(e.arg(2), memo))
    elif k == z3.Z3_OP_BADD:
        r = min(sum(ubound(e.arg(i), memo) for i in range(e.num_args())), top)
    elif k == z3.Z3_OP_BAND:
        r = min(ubound(e.arg(i), memo) for i in range(e.num_args()))
    else:
        r = top
    memo[key] = r
    return r


class Frame:
    __slots__ = ('fn', 'name', 'vars', 'this', 'scopes', 'ret', 'loopn', 'caps')

    def __init__(self, fn, name, this, ret=None):
        self.fn, self.name, self.this, self.ret = fn, name, this, ret
        self.vars = {}
        self.scopes = []
        self.loopn = {}
        self.caps = {}


class LoopState:
    """information a loop rule works with"""

    def __init__(self, I, key, locs, entry):
        self.I, self.p, self.key, self.locs, self.entry = I, I.p, key, locs, entry
        self.ghost = {}

    def items(self):
        """[(lv, type)] of the modified locations"""
        out = []
        for c, sub in self.locs:
            lv = LVCell(c)
            for s in sub:
                lv = LVField(lv, s)
            out.append((lv, self.I.loc_type(c, sub), (c, sub)))
        return out


class Interp:
    def __init__(self, prog, path, contracts, ctx):
        self.P, self.p, self.contracts, self.ctx = prog, path, contracts, ctx
        self.frames = []
        self.globals = {}
        self.depth = 0
        self.steps = 0
        self.temps = None

    # ---- types
    def T(self, n):
        t = n.get('_T')
        if t is None:
            t = n['_T'] = self.norm(parse_type(node_type_str(n)))
        return t

    def norm(self, t):
        return t

    def isint(self, t):
        return t.kind == 'int' or (t.kind == 'class' and t.simple in self.P.enums)

    def width(self, t):
        t = t.strip()
        if t.kind == 'int':
            return t.width
        if t.kind == 'bool':
            return 1
        if t.kind == 'class' and t.simple in self.P.enums:
            return self.P.enums[t.simple]['width']
        if t.kind == 'class' and t.name in L.EXT_INT:
            return L.EXT_INT[t.name][0]
        if t.kind == 'class' and t.name.startswith(('std::chrono::time_point', 'std::chrono::duration')):
            return 64
        raise ToolLimit('not an integer type: %r %s' % (t, t.raw))

    def signed(self, t):
        t = t.strip()
        if t.kind == 'int':
            return t.signed
        if t.kind == 'class' and t.simple in self.P.enums:
            return self.P.enums[t.simple]['signed']
        if t.kind == 'class' and t.name in L.EXT_INT:
            return L.EXT_INT[t.name][1]
        return False

    def is_scalar(self, t):
        t = t.strip()
        return t.kind in ('int', 'bool') or (t.kind == 'class' and (t.simple in self.P.enums or t.name in L.EXT_INT))

    def loc_type(self, c, sub):
        t = c.type
        for s in sub:
            if t is None:
                return None
            t = self.field_type(t, s)
        return t

    def field_type(self, t, f):
        t = t.strip()
        if t.name in ('std::pair',):
            return t.args[0 if f == 'first' else 1]
        r = self.P.records.get(t.simple)
        if r is None:
            return L.EXT_RECORDS.get(t.simple, {}).get(f)
        for c in kids(r):
            if c.get('kind') == 'FieldDecl' and c.get('name') == f:
                return self.T(c)
        for b in r.get('bases', []):
            bt = parse_type(b['type'].get('desugaredQualType') or b['type']['qualType'])
            x = self.field_type(bt, f)
            if x is not None:
                return x
        return None

    # ---- symbolic values by type
    def symbolic(self, t, name):
        p = self.p
        t = t.strip()
        if t.kind == 'bool':
            return p.freshbool(name)
        if self.is_scalar(t):
            v = p.freshbv(name, self.width(t))
            self.enum_range(t, v)
            return v
        if t.kind == 'class':
            n = t.name
            if n in ('std::vector', 'std::deque', 'std::string', 'std::string_view'):
                e = t.args[0] if t.args else Type('int', 'char', width=8, signed=True)
                if e.kind == 'int' and e.width == 8:
                    return Base(p, p.fresh(name, Str))
                return Base(p, p.fresh(name, Obj), self.elem_maker(e))
            if n == 'std::array':
                e = t.args[0]
                cnt = t.args[1].n
                if e.kind == 'int' and e.width == 8:
                    b = Base(p, p.fresh(name, Str))
                    p.fact(b.len == cnt)
                    return Slice(b, 0, cnt)
                if cnt <= 64:
                    return Lit([self.symbolic(e, name) for _ in range(cnt)])
            if n == 'std::optional':
                return Opt(p.freshbool(name + '.has'), self.symbolic(t.args[0], name + '.val'))
            if n == 'std::expected':
                return Opt(p.freshbool(name + '.has'), None if t.args[0].kind == 'void' else self.symbolic(t.args[0], name + '.val'),
                           self.symbolic(t.args[1], name + '.err'), 'expected')
            if n == 'std::span':
                c = p.newlv(name + '.data', Base(p, p.fresh(name, Str)))
                b = c.load(p)
                if len(t.args) > 1 and t.args[1].n is not None and t.args[1].n < (1 << 40):
                    p.fact(b.len == t.args[1].n)
                    return SpanV(c, 0, t.args[1].n)
                return SpanV(c, 0, b.len)
            if n.startswith('std::chrono::time_point') or n.startswith('std::chrono::duration'):
                return p.freshbv(name, 64)
            if n == 'std::atomic':
                return self.symbolic(t.args[0], name)
            if t.simple in self.P.records:
                f = {}
                for c in self.all_fields(t.simple):
                    f[c['name']] = self.symbolic(self.T(c), '%s.%s' % (name, c['name']))
                return Rec(t.simple, f)
            if n == 'std::filesystem::path':      # on POSIX a path is its native string
                return p.bytes_(name)
            if n == 'std::function':
                return FnSpec(name, None, p.fresh(name, Obj))
        raise ToolLimit('no symbolic value for type %s' % (t.raw or t))

    def all_fields(self, cls):
        r = self.P.records.get(cls)
        out = []
        if r is None:
            return out
        for b in r.get('bases', []):
            bt = parse_type(b['type'].get('desugaredQualType') or b['type']['qualType'])
            out += self.all_fields(bt.simple)
        out += [c for c in kids(r) if c.get('kind') == 'FieldDecl']
        return out

    def enum_range(self, t, v):
        e = self.P.enums.get(t.simple) if t.kind == 'class' else None
        if e and e['consts'] and t.simple in self.ctx.get('closed_enums', ()):
            self.p.fact(z3.Or([v == c for c in e['consts'].values()]))

    def elem_maker(self, t):
        t = t.strip()
        if t.kind == 'int' or self.is_scalar(t):
            f = UF('elem.%s' % t, Obj, B64, z3.BitVecSort(self.width(t)))
            return lambda p, term, i: f(term, i)
        if t.name == 'std::string':
            f = UF('elem.string', Obj, B64, Str)
            return lambda p, term, i: Base(p, f(term, i))
        if t.kind == 'class' and t.name == 'std::function':
            f = UF('elem.fn', Obj, B64, Obj)
            return lambda p, term, i: FnSpec('fn', None, f(term, i))
        if t.kind == 'class' and t.name == 'std::unique_ptr':
            return lambda p, term, i: SymElemPtr(p, term, i, t.args[0].simple)
        if t.kind == 'class' and t.simple in L.EXT_RECORDS:
            mk = []

            def ext(cls, pre):
                out = []
                for f, ft in L.EXT_RECORDS[cls].items():
                    if ft.simple in L.EXT_RECORDS:
                        out.append((f, ext(ft.simple, pre + '.' + f)))
                    else:
                        uf = UF(pre + '.' + f, Obj, B64, z3.BitVecSort(self.width(ft)))
                        out.append((f, lambda p, term, i, uf=uf: uf(term, i)))
                return lambda p, term, i: Rec(cls, {k: m(p, term, i) for k, m in out})
            return ext(t.simple, t.simple)
        if t.kind == 'class' and t.simple in self.P.records:
            fs = self.all_fields(t.simple)
            mk = []
            for c in fs:
                ft = self.T(c).strip()
                nm = '%s.%s' % (t.simple, c['name'])
                if ft.name == 'std::string':
                    uf = UF(nm, Obj, B64, Str)
                    mk.append((c['name'], lambda p, term, i, uf=uf: Base(p, uf(term, i))))
                elif self.is_scalar(ft):
                    uf = UF(nm, Obj, B64, z3.BitVecSort(self.width(ft)))
                    mk.append((c['name'], lambda p, term, i, uf=uf: uf(term, i)))
                elif ft.name == 'std::function':
                    uf = UF(nm, Obj, B64, Obj)
                    mk.append((c['name'], lambda p, term, i, uf=uf: FnSpec('fn', None, uf(term, i))))
                else:
                    raise ToolLimit('element field type %s' % ft)
            cls = t.simple
            return lambda p, term, i: Rec(cls, {k: m(p, term, i) for k, m in mk})
        raise ToolLimit('no element maker for %s' % t)

    # ---- default values
    def default(self, t, cls_init=True):
        t0 = t
        t = t.strip()
        if t.kind == 'bool':
            return False
        if self.is_scalar(t):
            return 0
        if t.kind == 'ptr':
            return NULL
        if t.kind == 'float':
            return Opaque('float', 0.0)
        if t.kind == 'array':
            e = self.default(t.args[0])
            return Lit([e] * t.n)
        if t.kind == 'class':
            n = t.name
            if n in ('std::vector', 'std::deque', 'std::string', 'std::string_view', 'std::set', 'std::initializer_list'):
                return EMPTY
            if n == 'std::array':
                e = self.default(t.args[0])
                return Lit([e] * t.args[1].n) if t.args[1].n <= 4096 else Rep(e, t.args[1].n)
            if n == 'std::optional':
                return Opt(False)
            if n == 'std::expected':
                return Opt(True, None if t.args[0].kind == 'void' else self.default(t.args[0]), None, 'expected')
            if n == 'std::atomic':
                return self.default(t.args[0])
            if n == 'std::unique_ptr':
                return UPtr(None)
            if n == 'std::span':
                return SpanV(None, 0, 0)
            if n == 'std::function':
                return NULL
            if n == 'std::allocator':
                return Opaque('allocator', 0)
            m = L.default_value(self, t)
            if m is not None:
                return m
            if t.simple in self.P.records:
                return self.construct_record(t.simple, None, [])
        raise ToolLimit('no default value for type %s' % (t.raw or t))

    # ---- evaluation helpers
    def ev(self, n):
        self.steps += 1
        if self.steps > self.ctx.get('max_steps', 4000000):
            raise ToolLimit('execution budget exceeded')
        k = n['kind']
        m = getattr(self, 'k_' + k, None)
        if m is None:
            raise ToolLimit('unsupported construct %s' % k)
        return m(n)

    def rv(self, n):
        v = self.ev(n)
        if isinstance(v, LV):
            v = v.load(self.p)
        if isinstance(v, LazyIte):
            t = self.T(n).strip()
            v = force(v, self.width(t))
        return v

    def lv(self, n):
        v = self.ev(n)
        if isinstance(v, LV):
            return v
        lv = self.p.newlv('tmp', v, self.T(n).strip())
        if self.ctx.get('raii') and n.get('storageDuration') == 'full expression' and self.temps is not None and L.needs_destroy(self, self.T(n)):
            self.temps.append((lv, self.T(n).strip()))
        return lv

    def cond(self, n):
        v = self.rv(n)
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if is_sym(v) and z3.is_bool(v):
            return v
        if is_sym(v):
            return simp(v != 0)
        raise ToolLimit('condition %r' % (v,))

    # ---- expressions: wrappers
    def _inner(self, n):
        return self.ev(n['inner'][0])

    def k_ExprWithCleanups(self, n):
        if not self.ctx.get('raii'):
            return self.ev(n['inner'][0])
        old, self.temps = self.temps, []
        try:
            return self.ev(n['inner'][0])
        finally:
            mine, self.temps = self.temps, old
            for lv, t in reversed(mine):
                L.destroy(self, lv, t)

    k_CXXBindTemporaryExpr = k_ParenExpr = k_ConstantExpr = k_SubstNonTypeTemplateParmExpr = _inner
    k_CXXRewrittenBinaryOperator = _inner
    k_CXXDefaultInitExpr = _inner

    def k_CXXDefaultArgExpr(self, n):
        if kids(n):
            return self.ev(n['inner'][0])
        return L.DefaultArg()

    def k_MaterializeTemporaryExpr(self, n):
        v = self.ev(n['inner'][0])
        if isinstance(v, LV):
            return v
        return self.p.newlv('tmp', v, self.T(n).strip())

    def k_CXXStdInitializerListExpr(self, n):
        v = self.ev(n['inner'][0])
        return v.load(self.p) if isinstance(v, LV) else v

    def k_IntegerLiteral(self, n):
        return int(n['value']) & tmask(self.width(self.T(n)))

    def k_CharacterLiteral(self, n):
        return int(n['value']) & tmask(self.width(self.T(n)))

    def k_CXXBoolLiteralExpr(self, n):
        return bool(n['value'])

    def k_FloatingLiteral(self, n):
        return Opaque('float', float(n['value']))

    def k_CXXNullPtrLiteralExpr(self, n):
        return NULL

    def k_GNUNullExpr(self, n):
        return NULL

    def k_StringLiteral(self, n):
        b = L.c_unescape(n['value'])
        t = self.T(n).strip()
        return LVVal(Lit(tuple(b) + (0,)))

    def k_CXXThisExpr(self, n):
        return Ptr(self.frames[-1].this)

    def k_ImplicitValueInitExpr(self, n):
        return self.default(self.T(n))

    k_CXXScalarValueInitExpr = k_ImplicitValueInitExpr

    def k_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') == 'sizeof':
            at = n.get('argType')
            if at:
                t = parse_type(at.get('desugaredQualType') or at['qualType'])
            else:
                t = self.T(n['inner'][0])
            return L.sizeof(self, t)
        raise ToolLimit('type trait %s' % n.get('name'))

    def k_DeclRefExpr(self, n):
        d = n['referencedDecl']
        k = d['kind']
        if k == 'EnumConstantDecl':
            i = d['id']
            if i in self.P.enumconst:
                return self.P.enumconst[i] & tmask(self.width(self.T(n)))
            t = self.T(n).strip()
            e = self.P.enums.get(t.simple)
            if e and d['name'] in e['consts']:
                return e['consts'][d['name']] & tmask(e['width'])
            v = L.ENUMCONST.get(d['name'])
            if v is None and 'level_enum' in str(d.get('type', {}).get('qualType', '')):
                v = L.LOGLEVEL.get(d['name'])
            if v is not None:
                return v
            raise ToolLimit('enumerator %s' % d['name'])
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl', 'DecompositionDecl'):
            for f in reversed(self.frames):
                if d['id'] in f.vars:
                    v = f.vars[d['id']]
                    if callable(v):
                        return v()
                    return v
                break
            return self.global_var(d)
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return L.FnRef(d)
        raise ToolLimit('reference to %s %s' % (k, d.get('name')))

    def global_var(self, d):
        key = d['id']
        h = self.ctx.get('state')      # mutable static variables a harness knows
        if h is not None:
            v = h(self, d)
            if v is not None:
                return v
        if key in self.globals:
            return self.globals[key]
        node = self.P.by_id.get(d['id'])
        cands = []
        if node is not None and (kids(node)):
            cands = [node]
        else:
            cands = [g for g in self.P.globals.get(d['name'], [])]
        cands = [c for c in cands if any('kind' in x for x in kids(c))]
        if not cands:
            v = L.ext_global(self, d)
            if v is not None:
                self.globals[key] = v
                return v
            raise ToolLimit('global %s' % d['name'])
        node = cands[0]
        ck = ('g', node['id'])
        if ck not in self.globals:
            cached = node.get('_const')
            if cached is None:
                init = [x for x in kids(node) if 'Expr' in x.get('kind', '') or x.get('kind', '').endswith('Literal') or x.get('kind') == 'CXXConstructExpr']
                self.frames.append(Frame(None, 'global', None))
                try:
                    cached = self.rv(init[0])
                finally:
                    self.frames.pop()
                t = self.T(node)
                if t.const or 'constexpr' in node or node.get('constexpr'):
                    node['_const'] = cached
                elif node.get('type', {}).get('qualType', '').startswith('const '):
                    node['_const'] = cached
                else:
                    raise ToolLimit('mutable global %s' % d['name'])
            self.globals[ck] = LVVal(cached)
        self.globals[key] = self.globals[ck]
        return self.globals[ck]

    # ---- casts
    def k_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        e = n['inner'][0]
        if ck == 'LValueToRValue':
            if 'volatile' in self.ctx and re.search(r'\bvolatile\b', e.get('type', {}).get('qualType', '')):
                return self.ctx['volatile'](self, self.lv(e))
            return self.rv(e)
        if ck in ('NoOp', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.ev(e)
        if ck in ('ConstructorConversion', 'UserDefinedConversion', 'Dependent'):
            return self.ev(e)
        if ck == 'ArrayToPointerDecay':
            l = self.lv(e)
            return Ptr(l, 0)
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived'):
            return self.ev(e)
        if ck == 'IntegralCast':
            return self.int_cast(self.rv(e), self.T(e), self.T(n))
        if ck == 'IntegralToBoolean':
            v = self.rv(e)
            if is_sym(v):
                return simp(v != 0) if not z3.is_bool(v) else v
            return v != 0
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            v = self.rv(e)
            return Not(L.is_null(self, v))
        if ck == 'NullToPointer':
            return NULL
        if ck == 'ToVoid':
            self.ev(e)
            return None
        if ck == 'BitCast':
            return L.bit_cast(self, self.rv(e), self.T(e), self.T(n))
        if ck == 'IntegralToFloating' or ck == 'FloatingCast' or ck == 'FloatingToIntegral':
            v = self.rv(e)
            return Opaque('float', ('cast', ck, v))
        raise ToolLimit('cast %s' % ck)

    k_CXXStaticCastExpr = k_CXXFunctionalCastExpr = k_CStyleCastExpr = k_CXXConstCastExpr = k_CXXReinterpretCastExpr = k_ImplicitCastExpr

    def int_cast(self, v, ft, tt):
        ft, tt = ft.strip(), tt.strip()
        if tt.kind == 'bool':
            return simp(v != 0) if is_sym(v) and not z3.is_bool(v) else (v if isinstance(v, bool) or is_sym(v) else v != 0)
        w = self.width(tt)
        if isinstance(v, bool):
            return 1 if v else 0
        if is_sym(v) and z3.is_bool(v):
            return simp(z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
        fw, fs = self.width(ft), self.signed(ft)
        if not is_sym(v):
            if fs:
                v = to_signed(v, fw)
            return v & tmask(w)
        if w == fw:
            return v
        if w < fw:
            return simp(z3.Extract(w - 1, 0, v))
        return simp(z3.SignExt(w - fw, v) if fs else z3.ZeroExt(w - fw, v))

    # ---- operators
    def arith(self, op, a, b, t, bt=None):
        """a op b in type t"""
        t = t.strip()
        w = self.width(t)
        sg = self.signed(t)
        p = self.p
        if op in ('<<', '>>'):
            bw = self.width(bt) if bt is not None else w
            c = (b < w) if not is_sym(b) else z3.ULT(b, z3.BitVecVal(w, b.size()))
            p.require(c, 'shift count below width', 'arith')
            if not is_sym(a) and not is_sym(b):
                if op == '<<':
                    return (a << b) & tmask(w)
                return ((to_signed(a, w) if sg else a) >> b) & tmask(w)
            if is_sym(b) and b.size() != w:
                b = z3.Extract(w - 1, 0, b) if b.size() > w else z3.ZeroExt(w - b.size(), b)
            x, y = bv(a, w), bv(b, w)
            r = x << y if op == '<<' else (x >> y if sg else z3.LShR(x, y))
            return simp(r)
        if isinstance(a, bool) or is_sym(a) and z3.is_bool(a):
            if op in ('&', '|', '^') and w == 1:
                f = {'&': And, '|': Or, '^': lambda x, y: Not(Eq(x, y))}[op]
                return f(a, b)
        if not is_sym(a) and not is_sym(b):
            x, y = (to_signed(a, w), to_signed(b, w)) if sg else (a, b)
            if op == '+':
                r = x + y
            elif op == '-':
                r = x - y
            elif op == '*':
                r = x * y
            elif op in ('/', '%'):
                p.require(y != 0, 'division by zero', 'arith')
                q = abs(x) // abs(y)
                q = -q if (x < 0) != (y < 0) else q
                r = q if op == '/' else x - q * y
            elif op == '&':
                r = x & y
            elif op == '|':
                r = x | y
            elif op == '^':
                r = x ^ y
            else:
                raise ToolLimit('operator %s' % op)
            if sg and op in '+-*/' and not (-(1 << (w - 1)) <= r < (1 << (w - 1))):
                p.require(False, 'signed overflow in %s' % op, 'arith')
            return r & tmask(w)
        x, y = bv(a, w), bv(b, w)
        if sg and op in '+-*':
            ux, uy = ubound(a), ubound(b)
            ok = False
            half = 1 << (w - 1)
            if op == '+' and ux + uy < half:
                ok = True
            if op == '-' and ux < half and uy < half:
                ok = True
            if op == '*' and ux * uy < half:
                ok = True
            if not ok:
                if op == '+':
                    c = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
                elif op == '-':
                    c = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
                else:
                    c = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
                p.require(c, 'signed overflow in %s' % op, 'arith')
        if op == '+':
            r = x + y
        elif op == '-':
            r = x - y
        elif op == '*':
            r = x * y
        elif op in ('/', '%'):
            p.require(y != 0, 'division by zero', 'arith')
            if sg:
                r = x / y if op == '/' else z3.SRem(x, y)
            elif not is_sym(b) and b and (b & (b - 1)) == 0:
                sh = b.bit_length() - 1
                r = z3.LShR(x, z3.BitVecVal(sh, w)) if op == '/' else x & z3.BitVecVal(b - 1, w)
            else:
                r = z3.UDiv(x, y) if op == '/' else z3.URem(x, y)
        elif op == '&':
            r = x & y
        elif op == '|':
            r = x | y
        elif op == '^':
            r = x ^ y
        else:
            raise ToolLimit('operator %s' % op)
        return simp(r)

    def compare(self, op, a, b, t):
        t = t.strip()
        if op == '==':
            return L.equal(self, a, b)
        if op == '!=':
            return Not(L.equal(self, a, b))
        if t.kind == 'ptr':
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                return self.compare(op, a.idx, b.idx, parse_type('unsigned long'))
            raise ToolLimit('pointer comparison')
        w, sg = self.width(t), self.signed(t)
        if not is_sym(a) and not is_sym(b):
            a, b = int(a), int(b)
            x, y = (to_signed(a, w), to_signed(b, w)) if sg else (a, b)
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        x, y = bv(a, w), bv(b, w)
        if sg and ubound(a) < (1 << (w - 1)) and ubound(b) < (1 << (w - 1)):
            sg = False
        if sg:
            return simp({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
        return simp({'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op](x, y))

    def k_BinaryOperator(self, n):
        op = n['opcode']
        l, r = n['inner']
        if op == '=':
            v = self.rv(r)
            d = self.lv(l)
            d.store(self.p, v)
            return d
        if op == ',':
            self.ev(l)
            return self.ev(r)
        if op in ('&&', '||'):
            a = self.cond(l)
            if isinstance(a, bool):
                if op == '&&':
                    return self.cond(r) if a else False
                return True if a else self.cond(r)
            ok, b = self.speculate(a if op == '&&' else Not(a), lambda: self.cond(r))
            if ok:
                return And(a, b) if op == '&&' else Or(a, b)
            if self.p.decide(a):
                return self.cond(r) if op == '&&' else True
            return False if op == '&&' else self.cond(r)
        a = self.rv(l)
        b = self.rv(r)
        lt = self.T(l).strip()
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(op, a, b, lt)
        if lt.kind == 'ptr' or isinstance(a, Ptr):
            if op in '+-' and isinstance(a, (Ptr, IterV)) and not isinstance(b, (Ptr, IterV)):
                b = self.int_cast(b, self.T(r), parse_type('long'))
                return type(a)(a.lv, add(a.idx, b) if op == '+' else sub(a.idx, b))
            if op == '-' and isinstance(b, (Ptr, IterV)):
                return sub(a.idx, b.idx)
            raise ToolLimit('pointer arithmetic %s' % op)
        if isinstance(b, Ptr) and op == '+':
            return Ptr(b.lv, add(b.idx, self.int_cast(a, lt, parse_type('long'))))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('float', ('op', op))
        return self.arith(op, a, b, self.T(n), self.T(r))

    def k_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        l, r = n['inner']
        b = self.rv(r)
        d = self.lv(l)
        a = d.load(self.p)
        lt = self.T(l).strip()
        if isinstance(a, Ptr):
            b = self.int_cast(b, self.T(r), parse_type('long'))
            d.store(self.p, Ptr(a.lv, add(a.idx, b) if op == '+' else sub(a.idx, b)))
            return d
        ct = n.get('computeLHSType')
        ct = parse_type(ct.get('desugaredQualType') or ct['qualType']) if ct else lt
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            d.store(self.p, Opaque('float', ('op', op)))
            return d
        if isinstance(a, LazyIte):
            a = force(a, self.width(lt))
        a2 = self.int_cast(a, lt, ct) if ct.kind != 'bool' else a
        rt = n.get('computeResultType')
        rt = parse_type(rt.get('desugaredQualType') or rt['qualType']) if rt else ct
        if lt.kind == 'bool' and op in ('|', '&'):
            a2 = self.int_cast(a, lt, ct)
        v = self.arith(op, a2, b, rt, self.T(r))
        v = self.int_cast(v, rt, lt)
        d.store(self.p, v)
        return d

    def k_UnaryOperator(self, n):
        op = n['opcode']
        e = n['inner'][0]
        p = self.p
        if op in ('++', '--'):
            d = self.lv(e)
            a = d.load(p)
            t = self.T(e).strip()
            if isinstance(a, (Ptr, IterV)):
                v = type(a)(a.lv, add(a.idx, 1) if op == '++' else sub(a.idx, 1))
            else:
                if isinstance(a, LazyIte):
                    a = force(a, self.width(t))
                w = self.width(t)
                if self.signed(t) and w >= 32:
                    v = self.arith('+' if op == '++' else '-', a, 1, t)
                else:
                    v = self.arith('+' if op == '++' else '-', a, 1, Type('int', 'u', width=w, signed=False))
            d.store(p, v)
            return a if n.get('isPostfix') else d
        if op == '&':
            m = e
            while m['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
                m = m['inner'][0]
            if m['kind'] == 'DeclRefExpr' and m['referencedDecl'].get('kind') == 'FieldDecl':
                return L.MemPtr(m['referencedDecl']['name'])
            return L.address_of(self, self.lv(e))
        if op == '*':
            return L.deref(self, self.rv(e))
        v = self.rv(e)
        if op == '!':
            if isinstance(v, int) and not isinstance(v, bool):
                return v == 0
            return Not(v)
        t = self.T(n).strip()
        w = self.width(t)
        if op == '-':
            if not is_sym(v):
                return (-v) & tmask(w)
            if self.signed(t):
                return self.arith('-', 0, v, t)
            return simp(-v)
        if op == '~':
            return (~v) & tmask(w) if not is_sym(v) else simp(~v)
        if op == '+':
            return v
        raise ToolLimit('unary %s' % op)

    def k_ConditionalOperator(self, n):
        c, a, b = n['inner']
        cv = self.cond(c)
        if isinstance(cv, bool):
            return self.ev(a if cv else b)
        t = self.T(n).strip()
        if self.is_scalar(t) and n.get('valueCategory') == 'prvalue':
            ok1, x = self.speculate(cv, lambda: self.rv(a))
            if ok1:
                ok2, y = self.speculate(Not(cv), lambda: self.rv(b))
                if ok2:
                    if t.kind == 'bool':
                        return Ite(cv, x, y)
                    return simp(Ite(cv, x, y, self.width(t)))
        return self.ev(a if self.p.decide(cv) else b)

    def k_ArraySubscriptExpr(self, n):
        a, i = n['inner']
        base = self.rv(a)
        idx = self.rv(i)
        if not isinstance(base, Ptr):
            raise ToolLimit('subscript of %r' % (base,))
        idx = self.int_cast(idx, self.T(i), parse_type('unsigned long'))
        j = add(base.idx, idx)
        self.p.require(ult(j, L.seqlen(self, base.lv)), 'array index in bounds')
        return LVElem(base.lv, j)

    # ---- merging and speculation
    def speculate(self, c, f):
        """evaluate f under the extra assumption c, without side effects on earlier storage"""
        p = self.p
        old = dict(p.mem)
        names, cellkeys, ndec, nobl, ng = dict(p.names), dict(p.cellkeys), len(p.dec), len(p.obls), len(p.apps)
        apps = {k: list(v) for k, v in p.apps.items()}
        facts = set(p.factset)
        p.spec += 1
        p.solver.push()
        p.solver.add(zb(c))
        p.guards.append(zb(c))
        log = []
        p.wlog.append(log)
        ok, v = False, None
        nfr = len(self.frames)
        pure = p.pure
        newf = []
        try:
            v = f()
            ok = all(cl not in old or cl.name == 'tmp' for cl, sub in log)
        except (SpecAbort, CannotMerge, PathEnd):
            ok = False
        except ToolLimit:
            ok = False
        except (CppThrow, Return, Break, Continue):
            ok = False
        finally:
            p.wlog.pop()
            p.guards.pop()
            p.spec -= 1
            newf = [x for x in getattr(p, '_keep', []) if x.get_id() in p.factset and x.get_id() not in facts]
            p.solver.pop()
            del self.frames[nfr:]
            del p.fnstack[self.fnstack_len(nfr):]
        if not ok:
            p.mem, p.names, p.cellkeys, p.apps = old, names, cellkeys, apps
            del p.obls[nobl:]
            p.factset = facts
            return False, None
        for x in newf:      # axiom instances are valid everywhere
            p.solver.add(x)
        return True, v

    def fnstack_len(self, nfr):
        return max(0, nfr - 0)

    def merge_if(self, c, a, b):
        """execute both branches and merge their effects on scalar storage; False if that is not possible"""
        p = self.p
        base = p.mem
        res = []
        state = (dict(p.names), dict(p.cellkeys), len(p.obls), {k: list(v) for k, v in p.apps.items()}, set(p.factset))
        wl = []
        for cc, st in ((c, a), (Not(c), b)):
            if st is None:
                res.append({})
                continue
            p.mem = dict(base)
            log = []
            p.wlog.append(log)
            p.spec += 1
            p.solver.push()
            p.solver.add(zb(cc))
            p.guards.append(zb(cc))
            nfr = len(self.frames)
            ok = True
            try:
                self.stmt(st)
            except (SpecAbort, CannotMerge, PathEnd, ToolLimit, CppThrow, Return, Break, Continue):
                ok = False
            finally:
                p.wlog.pop()
                p.guards.pop()
                p.spec -= 1
                p.solver.pop()
                del self.frames[nfr:]
                del p.fnstack[self.fnstack_len(nfr):]
            if ok:
                d = {cl: p.mem[cl] for cl, sub in log if cl in base}
                wl += [(cl, sub) for cl, sub in log if cl in base]
                res.append(d)
            if not ok:
                p.mem = base
                p.names, p.cellkeys, p.apps, p.factset = state[0], state[1], state[3], state[4]
                del p.obls[state[2]:]
                return False
        p.mem = dict(base)
        try:
            new = {}
            for cl in set(res[0]) | set(res[1]):
                x, y = res[0].get(cl, base[cl]), res[1].get(cl, base[cl])
                v = merge(c, x, y)
                if self.heavy(v, base[cl]):
                    raise CannotMerge('structured')
                new[cl] = v
        except CannotMerge:
            p.mem = base
            p.names, p.cellkeys, p.apps, p.factset = state[0], state[1], state[3], state[4]
            del p.obls[state[2]:]
            return False
        # facts introduced under the branches are valid axioms; re-add them
        for x in getattr(p, '_keep', []):
            if x.get_id() in p.factset and x.get_id() not in state[4]:
                p.solver.add(x)
        for cl, v in new.items():
            if isinstance(v, LazyIte):
                v = force(v, self.width(cl.type))
            p.mem[cl] = v
        for l in p.wlog:
            l += wl
        return True

    def heavy(self, v, old):
        if isinstance(v, (bool, int, z3.ExprRef, LazyIte)):
            return False
        if isinstance(v, Rec) and isinstance(old, Rec):
            return any(self.heavy(v.f[k], old.f.get(k)) for k in v.f if v.f[k] is not old.f.get(k))
        return v is not old

    MERGE_OK = {'CompoundStmt', 'BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator', 'ImplicitCastExpr', 'IntegerLiteral',
                'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'DeclRefExpr', 'MemberExpr', 'CXXThisExpr', 'ParenExpr',
                'CXXBoolLiteralExpr', 'NullStmt', 'IfStmt', 'ConditionalOperator', 'ExprWithCleanups', 'CharacterLiteral', 'ConstantExpr',
                'ArraySubscriptExpr'}

    def mergeable(self, n):
        r = n.get('_merge')
        if r is None:
            r = n['_merge'] = n.get('kind') in self.MERGE_OK and all(self.mergeable(c) for c in kids(n) if isinstance(c, dict) and c.get('kind'))
        return r

    # ---- members and calls
    def k_MemberExpr(self, n):
        e = n['inner'][0]
        if n.get('isArrow'):
            b = L.deref(self, self.rv(e))
        else:
            b = self.ev(e)
        if not isinstance(b, LV):
            b = self.p.newlv('tmp', b, self.T(e).strip())
        nm = n.get('name')
        if not nm:
            raise ToolLimit('anonymous member')
        rd = n.get('referencedMemberDecl')
        d = self.P.by_id.get(rd) if rd else None
        if d is not None and d.get('kind') == 'VarDecl':     # static data member
            return self.global_var({'id': d['id'], 'name': d['name'], 'kind': 'VarDecl'})
        v = None
        try:
            v = b.load(self.p)
        except ToolLimit:
            v = None
        if isinstance(v, Rec) and nm not in v.f:
            raise ToolLimit('no field %s in %s' % (nm, v.cls))
        f = LVField(b, nm)
        if isinstance(v, Rec):
            fv = v.f[nm]
            if isinstance(fv, RefV):       # reference member
                return fv.lv
        return f

    def k_CallExpr(self, n):
        cal = n['inner'][0]
        args = n['inner'][1:]
        m = L.strip_casts(cal)
        if m.get('kind') == 'MemberExpr':       # a static member function called through an object
            d = self.P.by_id.get(m.get('referencedMemberDecl'))
            if d is not None and d.get('kind') == 'CXXMethodDecl':
                self.ev(m['inner'][0])
                f = L.FnRef(d)
            elif 'opentelemetry' in (node_type_str(m['inner'][0]) or ''):
                h = self.ctx.get('externs', {}).get(m.get('name'))
                if h is not None:
                    return h(self, args, n)
                L.log_args(self, args)
                return Opaque('otel', 0)
            else:
                f = self.ev(cal)
        else:
            f = self.ev(cal)
        if isinstance(f, L.FnRef):
            d = f.decl
            fn = self.find_function(d)
            if fn is not None:
                return self.call_repo(fn, None, args)
            return L.call_function(self, d, args, n)
        if isinstance(f, LV):
            f = f.load(self.p)
        raise ToolLimit('call through %r' % (f,))

    def find_function(self, d):
        if d['kind'] == 'CXXMethodDecl':
            n = self.P.by_id.get(d['id'])
            if n is not None:
                if n in self.P.funcs.get(d['name'], []):
                    return n
                c = [f for f in self.P.funcs.get(d['name'], []) if f['_cls'] == n.get('_cls') and self.sig(f) == self.sig(n)]
                if c:
                    return c[0]
            # static method of a class outside the dumped namespace
            c = [f for f in self.P.funcs.get(d['name'], []) if f['_cls'] and f.get('storageClass') == 'static' or f['name'] == d['name'] and f['_cls'] in self.P.records and self._static(f)]
            c = [f for f in c if self.sig(f) == d.get('type', {}).get('qualType')]
            return c[0] if c else None
        n = self.P.by_id.get(d['id'])
        if n is not None and n.get('_tmpl') is not True and any(c.get('kind') == 'CompoundStmt' for c in kids(n)):
            return n
        if n is not None:
            if n.get('_tmpl') and any(c.get('kind') == 'CompoundStmt' for c in kids(n)):
                return n
            c = [f for f in self.P.funcs.get(d['name'], []) if f['_cls'] is None and self.sig(f) == self.sig(n)]
            return c[0] if c else None
        src = self.frames[-1].fn.get('_src') if self.frames else None       # a free function of the same file, dumped on its own
        c = [f for f in self.P.funcs.get(d['name'], []) if f['_cls'] is None and src and f.get('_src') == src and os.sep + 'app' + os.sep in src and self.sig(f) == d.get('type', {}).get('qualType')]
        return c[0] if c else None

    def _static(self, f):
        r = self.P.records.get(f['_cls'])
        for c in kids(r or {}):
            if c.get('name') == f['name'] and c.get('storageClass') == 'static':
                return True
        return False

    def sig(self, f):
        return f.get('type', {}).get('qualType')

    def qual(self, fn):
        return '%s::%s' % (fn['_cls'], fn['name']) if fn.get('_cls') else fn['name']

    def params(self, fn):
        return [c for c in kids(fn) if c.get('kind') == 'ParmVarDecl']

    def eval_args(self, fn, args):
        out = []
        ps = self.params(fn)
        for i, a in enumerate(args):
            pt = self.T(ps[i]) if i < len(ps) else None
            if pt is not None and pt.kind == 'ref':
                out.append(self.lv(a))
            else:
                out.append(self.rv(a))
        return out

    def call_repo(self, fn, this, args):
        vals = self.eval_args(fn, args)
        return self.call_values(fn, this, vals)

    def call_values(self, fn, this, vals):
        q = self.qual(fn)
        c = self.contracts.get(q)
        if c is not None and not (c is self.ctx.get('verifying') and self.ctx.get('verify_depth', 0) == 0):
            return c.apply(self, this, vals)
        return self.exec_function(fn, this, vals)

    def exec_function(self, fn, this, vals):
        q = self.qual(fn)
        if len(self.frames) > 60:
            raise ToolLimit('recursion too deep')
        body = [c for c in kids(fn) if c.get('kind') in ('CompoundStmt', 'CXXTryStmt')]
        if not body:
            raise ToolLimit('no body for %s' % q)
        fr = Frame(fn, q, this)
        for i, (pn, v) in enumerate(zip(self.params(fn), vals)):
            t = self.T(pn)
            if t.kind == 'ref':
                fr.vars[pn['id']] = v if isinstance(v, LV) else self.p.newlv(pn.get('name', 'p%d' % i), v, t.strip())
            else:
                if isinstance(v, LV):
                    v = v.load(self.p)
                fr.vars[pn['id']] = self.p.newlv('%s.%s' % (q, pn.get('name', 'p%d' % i)), v, t)
        if self.ctx.get('inlined') is not None:
            self.ctx['inlined'].add(q)
        self.frames.append(fr)
        self.p.fnstack.append(q)
        byval = []
        if self.ctx.get('raii'):
            byval = [(fr.vars[pn['id']], self.T(pn)) for pn in self.params(fn) if self.T(pn).kind != 'ref' and L.needs_destroy(self, self.T(pn))]
        try:
            self.stmt(body[0])
            r = None
        except Return as e:
            r = e.v
        finally:
            for lv, t in byval:
                L.destroy(self, lv, t)
            if self.frames and self.frames[-1] is fr:
                self.frames.pop()
            else:
                while fr in self.frames:
                    self.frames.pop()
            if self.p.fnstack:
                self.p.fnstack.pop()
        return r

    def find_method(self, cls, name, n=None, nargs=None, const=None):
        seen = set()
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in seen or c not in self.P.records:
                continue
            seen.add(c)
            fs = [f for f in self.P.funcs.get(name, []) if f['_cls'] == c]
            if nargs is not None:
                fs = [f for f in fs if len(self.params(f)) == nargs or any('init' in x for x in self.params(f)) or len(self.params(f)) >= nargs]
            if n is not None and len(fs) > 1:
                ex = [f for f in fs if f['id'] == n.get('referencedMemberDecl')]
                d = self.P.by_id.get(n.get('referencedMemberDecl'))
                if not ex and d is not None:
                    ex = [f for f in fs if self.sig(f) == self.sig(d)]
                if ex:
                    fs = ex
                else:
                    fs = [f for f in fs if len(self.params(f)) == nargs] or fs
            if fs:
                return fs[0]
            for b in self.P.records[c].get('bases', []):
                todo.append(parse_type(b['type'].get('desugaredQualType') or b['type']['qualType']).simple)
        return None

    def k_CXXMemberCallExpr(self, n):
        m = n['inner'][0]
        args = n['inner'][1:]
        while m['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            m = m['inner'][0]
        if m['kind'] != 'MemberExpr':
            raise ToolLimit('member call through %s' % m['kind'])
        oe = m['inner'][0]
        name = m.get('name')
        ot = self.T(oe).strip()
        if m.get('isArrow'):
            if ot.kind == 'ptr':
                ot = ot.to
            pv = self.rv(oe)
            obj = L.deref(self, pv)
        else:
            obj = self.ev(oe)
        if not isinstance(obj, LV):
            obj = self.p.newlv('tmp', obj, ot)
        return self.method(obj, ot, name, args, n, m)

    def dyn_class(self, obj, static):
        try:
            v = obj.load(self.p)
        except ToolLimit:
            return static
        if isinstance(v, Rec):
            return v.cls
        return static

    def method(self, obj, ot, name, args, n, m=None):
        cls = ot.simple
        q = '%s::%s' % (cls, name)
        if cls in self.P.records and ot.kind == 'class' and not ot.args:
            c = self.contracts.get(q)
            fn = self.find_method(cls, name, m, len(args))
            dc = self.dyn_class(obj, cls)
            if dc != cls and dc in self.P.records:
                f2 = self.find_method(dc, name, None, len(args))
                if f2 is not None:
                    fn, q = f2, self.qual(f2)
                    c = self.contracts.get(q)
            if fn is not None:
                return self.call_repo(fn, obj, args)
            if c is not None:
                vals = [self.ev(a) for a in args]
                return c.apply(self, obj, vals)
            if name.startswith('operator ') or name in ('operator=',):
                pass
            else:
                raise ToolLimit('no body and no contract for %s' % q)
        return L.method(self, obj, ot, name, args, n)

    def k_CXXOperatorCallExpr(self, n):
        cal = n['inner'][0]
        args = n['inner'][1:]
        a = L.fn_object(self.T(args[0]).strip()) if args else None
        if a is not None:
            return L.ranges_algo(self, a, args[1:], n)
        f = self.ev(cal)
        d = f.decl
        name = d['name']
        fn = None
        if d['kind'] == 'CXXMethodDecl':
            t = self.T(args[0]).strip()
            if t.kind == 'lambda' or name == 'operator()':
                return L.call_fn_value(self, self.ev(args[0]), args[1:], n)
            if t.simple in self.P.records and not t.args:
                fn = self.find_method(t.simple, name, None, len(args) - 1)
                if fn is None and name == 'operator=':
                    return L.assign(self, args)
                if fn is not None and (fn.get('isImplicit') or fn.get('explicitlyDefaulted')) and name == 'operator=':
                    return L.assign(self, args)
                if fn is not None:
                    obj = self.lv(args[0])
                    return self.call_repo(fn, obj, args[1:])
        else:
            fn = self.find_function(d)
            if fn is not None:
                return self.call_repo(fn, None, args)
        return L.operator(self, name, args, n)

    # ---- construction
    def k_InitListExpr(self, n):
        t = self.T(n).strip()
        ks = kids(n)
        if 'array_filler' in n:
            fill = n['array_filler']
            elems = [self.rv(c) for c in fill[1:]] if isinstance(fill, list) else []
            d = self.default(t.args[0])
            return Lit(elems + [d] * (t.n - len(elems)))
        if t.kind == 'array':
            return Lit([self.rv(c) for c in ks])
        if t.kind == 'class' and t.name == 'std::array':
            if not ks:
                return self.default(t)
            return self.rv(ks[0])
        if t.kind == 'class' and t.simple in self.P.records:
            fs = self.all_fields(t.simple)
            f = {}
            for fd, c in zip(fs, ks):
                v = self.rv(c) if self.T(fd).kind != 'ref' else RefV(self.lv(c))
                f[fd['name']] = v
            for fd in fs[len(ks):]:
                f[fd['name']] = self.default(self.T(fd))
            return Rec(t.simple, f)
        if self.is_scalar(t) or t.kind == 'ptr':
            return self.rv(ks[0]) if ks else self.default(t)
        return L.init_list(self, t, ks, n)

    def k_CXXConstructExpr(self, n):
        t = self.T(n).strip()
        args = kids(n)
        cs = t.simple
        if t.kind == 'lambda':
            return self.rv(args[0])
        if t.kind == 'class' and cs in self.P.records and not t.args:
            ct = n.get('ctorType', {}).get('qualType', '')
            return self.construct_record(cs, ct, args)
        return L.construct(self, t, args, n)

    k_CXXTemporaryObjectExpr = k_CXXConstructExpr

    def find_ctor(self, cls, ct, nargs):
        fs = [f for f in self.P.funcs.get(cls, []) if f['_cls'] == cls and f['kind'] == 'CXXConstructorDecl']
        ex = [f for f in fs if self.sig(f) == ct]
        if ex:
            return ex[0]
        if ct:
            base = ct.split(' noexcept')[0]
            ex = [f for f in fs if (self.sig(f) or '').split(' noexcept')[0] == base]
            if ex:
                return ex[0]
        ex = [f for f in fs if len(self.params(f)) == nargs]
        if ct is None and ex:
            return ex[0]
        return None

    def construct_record(self, cls, ct, args):
        """value of class cls constructed with argument expressions"""
        vals = None
        if ct is not None and len(args) == 1:
            at = self.T(args[0]).strip()
            base = ct.split(' noexcept')[0]
            is_copy = base in ('void (const %s &)' % cls, 'void (%s &&)' % cls, 'void (const ion::%s &)' % cls, 'void (ion::%s &&)' % cls)
            if is_copy:
                fn = self.find_ctor(cls, ct, 1)
                user = fn is not None and not fn.get('isImplicit') and not fn.get('explicitlyDefaulted')
                if not user:
                    src = self.ev(args[0])
                    if not isinstance(src, LV):
                        return src
                    if self.ctx.get('raii'):
                        return L.transfer(self, src, parse_type(cls), base.endswith('&&)'))
                    v = src.load(self.p)
                    if base.endswith('&&)'):
                        L.move_out(self, src, self.T(args[0]).strip())
                    return v
        fn = self.find_ctor(cls, ct, len(args))
        tmp = self.p.newlv('obj.' + cls, Rec(cls, {}), parse_type(cls))
        if fn is None:
            if args:
                raise ToolLimit('constructor %s %s' % (cls, ct))
            f = {}
            for fd in self.all_fields(cls):
                f[fd['name']] = self.field_default(fd)
            return Rec(cls, f)
        q = '%s::%s' % (cls, cls)
        c = self.contracts.get(q)
        vals = self.eval_args(fn, args)
        if c is not None and self.ctx.get('verifying') is not c:
            c.apply(self, tmp, vals)
            return tmp.load(self.p)
        self.run_ctor(fn, cls, tmp, vals)
        return tmp.load(self.p)

    def field_default(self, fd):
        init = [x for x in kids(fd) if x.get('kind', '').endswith(('Expr', 'Literal', 'Cleanups')) or x.get('kind') in ('CXXConstructExpr',)]
        if init:
            if self.T(fd).kind == 'ref':
                return RefV(self.lv(init[0]))
            return self.rv(init[0])
        return self.default(self.T(fd))

    def run_ctor(self, fn, cls, this, vals):
        fr = Frame(fn, '%s::%s' % (cls, cls), this)
        for i, (pn, v) in enumerate(zip(self.params(fn), vals)):
            t = self.T(pn)
            if t.kind == 'ref' and isinstance(v, LV):
                fr.vars[pn['id']] = v
            else:
                if isinstance(v, LV):
                    v = v.load(self.p)
                fr.vars[pn['id']] = self.p.newlv('%s.%s' % (cls, pn.get('name', 'p%d' % i)), v, t.strip())
        self.frames.append(fr)
        self.p.fnstack.append('%s::%s' % (cls, cls))
        if self.ctx.get('inlined') is not None:
            self.ctx['inlined'].add('%s::%s' % (cls, cls))
        try:
            done = set()
            for c in kids(fn):
                if c.get('kind') != 'CXXCtorInitializer':
                    continue
                if 'anyInit' in c:
                    nm = c['anyInit']['name']
                    fd = [x for x in self.all_fields(cls) if x['name'] == nm]
                    t = self.T(fd[0]) if fd else None
                    e = c['inner'][0]
                    if t is not None and t.kind == 'ref':
                        v = RefV(self.lv(e))
                    else:
                        v = self.rv(e)
                    r = this.load(self.p)
                    this.store(self.p, r.with_(nm, v))
                    done.add(nm)
                elif 'baseInit' in c:
                    e = c['inner'][0]
                    bt = self.T(e).strip()
                    if bt.simple in self.P.records:
                        b = self.rv(e)
                        r = this.load(self.p)
                        if isinstance(b, Rec):
                            for k, v in b.f.items():
                                r = r.with_(k, v)
                            this.store(self.p, r)
            r = this.load(self.p)
            for fd in self.all_fields(cls):
                if fd['name'] not in r.f:
                    if self.T(fd).kind == 'ref':
                        raise ToolLimit('uninitialised reference member')
                    tt = self.T(fd).strip()
                    # indeterminate scalar
                    v = self.symbolic(tt, 'uninit') if self.is_scalar(tt) else self.default(tt)
                    r = r.with_(fd['name'], v)
            this.store(self.p, r)
            body = [c for c in kids(fn) if c.get('kind') == 'CompoundStmt']
            if body:
                try:
                    self.stmt(body[0])
                except Return:
                    pass
                except CppThrow:
                    if self.ctx.get('raii'):        # the members constructed so far are destroyed
                        for fd in reversed(self.all_fields(cls)):
                            ft = self.T(fd)
                            if ft.kind != 'ref' and L.needs_destroy(self, ft):
                                L.destroy(self, LVField(this, fd['name']), ft)
                    raise
        finally:
            if fr in self.frames:
                while self.frames.pop() is not fr:
                    pass
            if self.p.fnstack:
                self.p.fnstack.pop()

    def k_LambdaExpr(self, n):
        rec = [c for c in kids(n) if c['kind'] == 'CXXRecordDecl'][0]
        fields = [c for c in kids(rec) if c['kind'] == 'FieldDecl']
        rest = [c for c in kids(n) if c['kind'] not in ('CXXRecordDecl',)]
        body = rest[-1] if rest and rest[-1]['kind'] == 'CompoundStmt' else None
        inits = rest[:-1] if body is not None else rest
        caps = {}
        this = None
        # variables referenced in the body that belong to the enclosing frame
        fr = self.frames[-1]
        for fd, e in zip(fields, inits):
            ft = self.T(fd)
            if e.get('kind') == 'CXXThisExpr' or (ft.kind == 'ptr' and e.get('kind') == 'CXXThisExpr'):
                this = fr.this
                continue
            src = e
            while src.get('kind') in ('ImplicitCastExpr', 'CXXConstructExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr') and kids(src):
                src = kids(src)[0]
            name_id = None
            if src.get('kind') == 'DeclRefExpr':
                name_id = src['referencedDecl']['id']
            if ft.kind == 'ref':
                v = self.lv(e)
            else:
                v = self.rv(e)
            caps[len(caps)] = (fd, name_id, v)
        if this is None:
            this = fr.this if any(True for _ in ()) else None
            if self.uses_this(body):
                this = fr.this
        f = self.frames[-1].fn if self.frames else None
        if f is not None and f.get('_src'):
            n['_src'] = f['_src']
        return Closure(n, caps, this)

    def uses_this(self, n):
        if n is None:
            return False
        if n.get('kind') == 'CXXThisExpr':
            return True
        if n.get('kind') == 'LambdaExpr':
            return any(self.uses_this(c) for c in kids(n)[1:])
        return any(self.uses_this(c) for c in kids(n))

    def call_closure(self, clo, argvals, types=None):
        """argvals: LVs or values"""
        n = clo.node
        rec = [c for c in kids(n) if c['kind'] == 'CXXRecordDecl'][0]
        op = None
        for c in kids(rec):
            if c.get('name') == 'operator()' and c['kind'] == 'CXXMethodDecl' and c.get('inner'):
                op = c
            if c.get('kind') == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                for s in kids(c):
                    if s['kind'] == 'CXXMethodDecl' and any(x.get('kind') == 'CompoundStmt' for x in kids(s)) and not self.dependent(s):
                        op = s
        if op is None:
            raise ToolLimit('lambda without a call operator')
        body = [c for c in kids(op) if c['kind'] == 'CompoundStmt']
        if not body:
            body = [c for c in kids(n) if c['kind'] == 'CompoundStmt']
        if n.get('_src'):
            op['_src'] = n['_src']
        fr = Frame(op, 'lambda', clo.this)
        for i, (fd, vid, v) in clo.caps.items():
            lv = v if isinstance(v, LV) else self.p.newlv('cap', v, self.T(fd).strip())
            if vid is not None:
                fr.vars[vid] = lv
        # init-captures are referenced through their own VarDecl: bind by name
        named = {}
        for i, (fd, vid, v) in clo.caps.items():
            named[i] = v if isinstance(v, LV) else fr.vars.get(vid) or self.p.newlv('cap', v, self.T(fd).strip())
        self.bind_init_captures(body[0], fr, clo, named)
        for pn, v in zip(self.params(op), argvals):
            t = self.T(pn)
            if t.kind == 'ref':
                fr.vars[pn['id']] = v if isinstance(v, LV) else self.p.newlv('arg', v, t.strip())
            else:
                if isinstance(v, LV):
                    v = v.load(self.p)
                fr.vars[pn['id']] = self.p.newlv('arg', v, t)
        self.frames.append(fr)
        self.p.fnstack.append('lambda')
        try:
            self.stmt(body[0])
            return None
        except Return as e:
            return e.v
        finally:
            while self.frames.pop() is not fr:
                pass
            if self.p.fnstack:
                self.p.fnstack.pop()

    def dependent(self, s):
        return any('auto' == (c.get('type', {}).get('qualType', '')) or 'auto:' in c.get('type', {}).get('qualType', '') for c in self.params(s))

    def bind_init_captures(self, body, fr, clo, named):
        """variables of the body not bound otherwise and not global: init-captures, in order of capture"""
        free = []
        decl = set()

        def walk(x):
            if x.get('kind') in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
                decl.add(x.get('id'))
            if x.get('kind') == 'DeclRefExpr':
                d = x['referencedDecl']
                if d['kind'] == 'VarDecl' and d['id'] not in fr.vars and d['id'] not in free:
                    free.append(d['id'])
            for c in kids(x):
                walk(c)
        walk(body)
        free = [i for i in free if i not in decl and i not in self.P.by_id]
        unb = [i for i, (fd, vid, v) in clo.caps.items() if vid is None or True]
        if not free:
            return
        # match by name and type with the captures
        for vid in free:
            nm = self._declname(body, vid)
            hits = [i for i in unb if clo.caps[i][0].get('_capname') == nm]
            if len(hits) == 1:
                fr.vars[vid] = named[hits[0]]
            else:
                ty = self._decltype(body, vid)
                cand = [i for i in unb if (clo.caps[i][0].get('type', {}).get('qualType') == ty)]
                if not cand and (nm in self.P.globals or nm in self.ctx.get('ext_globals', {})):     # a global of another dump, or of the library
                    continue
                if len(cand) == 1:
                    fr.vars[vid] = named[cand[0]]
                else:
                    raise ToolLimit('cannot bind lambda capture %s' % nm)

    def _find(self, body, vid):
        st = [body]
        while st:
            x = st.pop()
            if x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] == vid:
                return x
            st += kids(x)

    def _declname(self, body, vid):
        return self._find(body, vid)['referencedDecl']['name']

    def _decltype(self, body, vid):
        return self._find(body, vid)['referencedDecl']['type']['qualType']

    # ---- exceptions
    def k_CXXThrowExpr(self, n):
        if not kids(n):
            cur = self.ctx.get('current_exc')
            raise cur if cur else ToolLimit('rethrow')
        v = self.rv(n['inner'][0])
        t = self.T(n['inner'][0]).strip()
        raise CppThrow(t.name, v)

    def s_CXXTryStmt(self, n):
        body = n['inner'][0]
        nfr = len(self.frames)
        try:
            self.stmt(body)
            return
        except CppThrow as e:
            if self.p.spec:
                raise
            del self.frames[nfr:]
            exc = e
        for c in n['inner'][1:]:
            parts = kids(c)
            var = parts[0] if parts and parts[0].get('kind') == 'VarDecl' else None
            h = parts[-1]
            if var is None or L.catches(self.T(var).strip().name, exc.cls, exc, self.p):
                if var is not None:
                    self.frames[-1].vars[var['id']] = self.p.newlv('exc', Opaque('exception', exc.cls, exc.val), self.T(var).strip())
                self.ctx['current_exc'] = exc
                self.stmt(h)
                return
        raise exc

    # ---- statements
    def stmt(self, n):
        self.steps += 1
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        v = self.ev(n)
        if self.ctx.get('raii') and (isinstance(v, (Rec, UPtr, Opt)) or isinstance(v, Opaque) and v.kind == 'otel'):
            t = self.T(n).strip()
            if L.needs_destroy(self, t):        # a discarded result
                L.destroy(self, self.p.newlv('tmp', v, t), t)

    def k_EngineValue(self, n):
        return n['#value']

    def s_CompoundStmt(self, n):
        fr = self.frames[-1]
        mark = len(fr.scopes)
        try:
            for c in kids(n):
                self.stmt(c)
        except (Return, Break, Continue, CppThrow):
            self.unwind(fr, mark)
            raise
        self.unwind(fr, mark)

    def unwind(self, fr, mark):
        while len(fr.scopes) > mark:
            lv, t = fr.scopes.pop()
            L.destroy(self, lv, t)

    def s_NullStmt(self, n):
        pass

    def s_AttributedStmt(self, n):
        for c in kids(n):
            if 'Attr' not in c.get('kind', ''):
                self.stmt(c)

    def s_DeclStmt(self, n):
        for d in kids(n):
            if d['kind'] in ('VarDecl', 'DecompositionDecl'):
                self.var_decl(d)
            elif d['kind'] in ('TypeAliasDecl', 'TypedefDecl', 'NamespaceAliasDecl', 'StaticAssertDecl', 'UsingDecl', 'UsingDirectiveDecl', 'CXXRecordDecl', 'EnumDecl', 'UsingEnumDecl'):
                pass
            else:
                raise ToolLimit('declaration %s' % d['kind'])

    def var_decl(self, d):
        fr = self.frames[-1]
        t = self.T(d)
        nm = '%s.%s' % (fr.name, d.get('name', 'v'))
        init = [c for c in kids(d) if c.get('kind') not in ('BindingDecl',) and 'kind' in c and 'Attr' not in c['kind']]
        if d.get('storageClass') == 'static' or d.get('tls'):
            l = L.static_local(self, d, t, init)
            fr.vars[d['id']] = l
            return
        if not init:
            if self.is_scalar(t):
                v = self.symbolic(t, 'uninit')      # indeterminate
            elif t.kind == 'class' and t.name == 'std::array':
                v = self.symbolic(t, 'uninit')
            elif t.kind == 'array':
                v = L.uninit_array(self, t)
            elif t.kind == 'ptr':
                v = Opaque('indeterminate pointer', None)
            else:
                v = self.default(t)
            fr.vars[d['id']] = self.p.newlv(nm, v, t)
        elif t.kind == 'ref':
            l = self.lv(init[0])
            fr.vars[d['id']] = l
        else:
            v = self.rv(init[0])
            lv = self.p.newlv(nm, v, t)
            fr.vars[d['id']] = lv
            if L.needs_destroy(self, t):
                fr.scopes.append((lv, t))
        if d['kind'] == 'DecompositionDecl':
            base = fr.vars[d['id']]
            for i, b in enumerate([c for c in kids(d) if c['kind'] == 'BindingDecl']):
                fr.vars[b['id']] = L.binding(self, base, b, i)

    def s_ReturnStmt(self, n):
        if not kids(n):
            raise Return(None)
        e = n['inner'][0]
        fr = self.frames[-1]
        rt = None
        if fr.fn is not None:
            s = self.sig(fr.fn) or ''
            rt = fr.fn.get('_rett')
            if rt is None:
                i = s.find('(')
                # function type "R (args)"
                depth = 0
                for j, ch in enumerate(s):
                    if ch == '<':
                        depth += 1
                    elif ch == '>':
                        depth -= 1
                    elif ch == '(' and depth == 0 and j > 0:
                        i = j
                        break
                rt = fr.fn['_rett'] = s[:i].strip()
        if rt and rt.endswith('&'):
            raise Return(self.lv(e))
        raise Return(self.rv(e))

    def s_IfStmt(self, n):
        ks = list(kids(n))
        fr = self.frames[-1]
        mark = len(fr.scopes)
        if n.get('isConstexpr'):
            pass
        if n.get('hasInit'):
            self.stmt(ks.pop(0))
        if n.get('hasVar'):
            self.stmt(ks.pop(0))
        c = self.cond(ks[0])
        then = ks[1]
        els = ks[2] if len(ks) > 2 else None
        try:
            if not isinstance(c, bool):
                if self.mergeable(then) and (els is None or self.mergeable(els)):
                    if self.merge_if(c, then, els):
                        return
                c = self.p.decide(c)
            if c:
                self.stmt(then)
            elif els is not None:
                self.stmt(els)
        finally:
            import sys
            self.unwind(fr, mark)

    def s_SwitchStmt(self, n):
        ks = list(kids(n))
        if n.get('hasInit'):
            self.stmt(ks.pop(0))
        if n.get('hasVar'):
            self.stmt(ks.pop(0))
        v = self.rv(ks[0])
        body = ks[1]
        items = []
        default = None

        def flat(s):
            nonlocal default
            if s['kind'] == 'CaseStmt':
                cs = s['inner']
                val = self.rv(cs[0])
                items.append(('case', val))
                flat(cs[-1])
            elif s['kind'] == 'DefaultStmt':
                default = len(items)
                items.append(('default', None))
                flat(s['inner'][-1])
            else:
                items.append(('stmt', s))
        for s in kids(body):
            flat(s)
        start = None
        for i, (k, val) in enumerate(items):
            if k == 'case':
                c = Eq(v, val)
                if self.p.decide(c) if not isinstance(c, bool) else c:
                    start = i
                    break
        if start is None:
            start = default
        if start is None:
            return
        fr = self.frames[-1]
        mark = len(fr.scopes)
        try:
            for k, s in items[start:]:
                if k == 'stmt':
                    self.stmt(s)
        except Break:
            pass
        finally:
            self.unwind(fr, mark)

    def s_BreakStmt(self, n):
        raise Break()

    def s_ContinueStmt(self, n):
        raise Continue()

    # ---- loops
    def s_WhileStmt(self, n):
        ks = list(kids(n))
        body = ks[-1]

        def cond():
            if n.get('hasVar'):
                self.stmt(ks[0])
                return self.cond(ks[1])
            return self.cond(ks[0])
        self.loop(n, cond, lambda: self.stmt(body), None)

    def s_DoStmt(self, n):
        body, c = kids(n)
        self.loop(n, lambda: self.cond(c), lambda: self.stmt(body), None, do=True)

    def s_ForStmt(self, n):
        init, cvar, c, inc, body = (kids(n) + [{}] * 5)[:5]
        fr = self.frames[-1]
        mark = len(fr.scopes)
        if init.get('kind'):
            self.stmt(init)
        self.loop(n, (lambda: self.cond(c)) if c.get('kind') else (lambda: True), lambda: self.stmt(body),
                  (lambda: self.ev(inc)) if inc.get('kind') else None)
        self.unwind(fr, mark)

    def s_CXXForRangeStmt(self, n):
        ks = [c for c in kids(n)]
        # [init], range, begin, end, cond, inc, loopvar, body
        if len(ks) == 8:
            if ks[0].get('kind'):
                self.stmt(ks[0])
            ks = ks[1:]
        rng, beg, end, c, inc, var, body = ks
        self.stmt(rng)
        self.stmt(beg)
        self.stmt(end)

        def b():
            self.stmt(var)
            self.stmt(body)
        self.loop(n, lambda: self.cond(c), b, lambda: self.ev(inc), copies=lambda: self.copy_loop(beg, end, body))

    def copy_loop(self, beg, end, body):
        """a loop that does nothing but append to a sequence, over a sequence of unknown length"""
        from .fold import CopyLoop
        while body.get('kind') in ('CompoundStmt', 'ExprWithCleanups') and len(list(kids(body))) == 1:
            body = list(kids(body))[0]
        if body.get('kind') != 'CXXMemberCallExpr':
            return None
        m = list(kids(body))[0]
        if m.get('name') not in ('push_back', 'emplace_back'):
            return None
        its = []
        for d in (beg, end):
            vs = [x for x in kids(d) if x.get('kind') == 'VarDecl']
            v = self.frames[-1].vars.get(vs[0]['id']) if vs else None
            its.append(v.load(self.p) if isinstance(v, LV) else v)
        return CopyLoop.make(self, *its)

    def loop(self, n, cond, body, inc, do=False, copies=None):
        p = self.p
        fr = self.frames[-1]
        order = self.loop_order(fr)
        key = (fr.name, order.get(id(n), 0))
        rule = self.ctx['rule'](self, key, n) if self.ctx.get('rule') else None
        if rule is not None:
            r = rule(self, key, n) if callable(rule) and not hasattr(rule, 'head') else rule
            if r is not None:
                return self.cut(r, key, n, cond, body, inc, do)
        r = copies() if copies is not None else None
        if r is not None:
            return self.cut(r, key, n, cond, body, inc, do)
        symb = 0
        limit = self.ctx.get('unroll', 40)
        it = 0
        first = do
        while True:
            it += 1
            if it > 200000:
                raise ToolLimit('loop does not terminate concretely in %s' % fr.name)
            if not first:
                d0 = len(p.dec)
                c = cond()
                if not isinstance(c, bool):
                    c = p.decide(c)
                    symb += 1
                    if symb > limit:
                        raise ToolLimit('loop in %s needs a loop invariant' % fr.name)
                elif len(p.dec) > d0:
                    symb += 1
                    if symb > limit:
                        raise ToolLimit('loop in %s needs a loop invariant' % fr.name)
                if not c:
                    break
            first = False
            d1 = len(p.dec)
            try:
                body()
            except Break:
                break
            except Continue:
                pass
            if inc is not None:
                inc()
            if len(p.dec) > d1:
                symb += 1
                if symb > limit * 2:
                    raise ToolLimit('loop in %s needs a loop invariant' % fr.name)

    def loop_order(self, fr):
        if fr.fn is None:
            return {}
        o = fr.fn.get('_loops')
        if o is None:
            o = {}

            def walk(x):
                if x.get('kind') in ('WhileStmt', 'DoStmt', 'ForStmt', 'CXXForRangeStmt'):
                    o[id(x)] = len(o)
                if x.get('kind') == 'LambdaExpr':
                    return
                for c in kids(x):
                    walk(c)
            walk(fr.fn)
            fr.fn['_loops'] = o
        return o

    def cut(self, rule, key, n, cond, body, inc, do):
        """cut the loop at its head: prove the invariant on entry, take an arbitrary iteration, prove it again"""
        p = self.p
        if p.spec:
            raise SpecAbort()
        hs = p.ex.persist.setdefault(('havoc', key), set())
        pre = dict(p.mem)
        locs = []
        for c in list(pre):
            for (ck, sub) in hs:
                if c.key == ck:
                    locs.append((c, sub))
        # an iterator that was a local of a call that has returned (the same loop, entered before)
        live = {v.cell.key for f in self.frames for v in f.vars.values() if isinstance(v, LVCell)}
        gone = {c.key for c, sub in locs if not sub and isinstance(pre[c], (IterV, Ptr)) and c.key not in live}
        locs = [l for l in locs if l[0].key not in gone]
        # drop locations inside other havocked locations
        locs = [l for l in locs if not any(m is not l and m[0] is l[0] and len(m[1]) < len(l[1]) and l[1][:len(m[1])] == m[1] for m in locs)]
        locs.sort(key=lambda l: (str(l[0].key), l[1]))
        st = LoopState(self, key, locs, {})
        for lv, t, loc in st.items():
            st.entry[loc] = lv.load(p)
        if do:
            # first iteration is not guarded: treat it as entry with the condition already true
            pass
        rule.entry(st)
        for lv, t, loc in st.items():
            old = st.entry[loc]
            v = rule.havoc(st, lv, t, loc, old)
            lv.store(p, v)
        rule.head(st)
        log = []
        p.wlog.append(log)
        exited = False
        try:
            go = True
            if not do or rule.do_cond_at_head(st):
                c = cond()
                go = c if isinstance(c, bool) else p.decide(c)
            if not go:
                exited = True
            else:
                try:
                    body()
                except Break:
                    exited = True
                except Continue:
                    pass
                if not exited:
                    if do:
                        c = cond()
                        go = c if isinstance(c, bool) else p.decide(c)
                        if not go:
                            exited = True
                    if not exited and inc is not None:
                        inc()
        finally:
            p.wlog.pop()
        if exited:
            rule.exit(st)
            return
        new = set()
        for c, sub in log:
            if c not in pre:
                continue
            if c.key in gone:
                raise ToolLimit('a loop writes to a variable of a call that has returned')
            s = []
            for x in sub:
                if x in ('[]', '?'):
                    break
                s.append(x)
            s = tuple(s)
            if not any(c.key == ck and s[:len(cs)] == cs for ck, cs in hs):
                new.add((c.key, s))
        if new:
            hs |= new
            raise Restart()
        rule.back(st)
        raise PathEnd()


class RefV:
    """a reference member"""
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


def SymElemPtr(p, term, i, cls):
    return UPtrSym(term, i, cls)


class UPtrSym:
    """unique_ptr element of an opaque container; the object behind it is given by (term, index)"""
    __slots__ = ('term', 'i', 'cls')

    def __init__(self, term, i, cls):
        self.term, self.i, self.cls = term, i, cls

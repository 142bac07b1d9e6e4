"""Static files: path resolution (C16), what a static mapping answers (C17)."""
from vc.verify import *
from vc.fold import *
from vc import lib as L
from .router import S_, mk_static, txt

FR = 'FileReader'
SHT = 'StaticFileHandler'
STR = parse_type('std::string')

# the file system, as the documentation of std::filesystem has it; a path is its native string
ABS = UF('fs.absolute', Str, Str)
CANON = UF('fs.canonical', Str, Str)
WEAK = UF('fs.weakly_canonical', Str, Str)
NORMAL = UF('fs.no_dot_segments', Str, z3.BoolSort())
JOIN = UF('fs.join', Str, Str, Str)
ISABS = UF('fs.is_absolute', Str, z3.BoolSort())
EXISTS = UF('fs.exists', Str, z3.BoolSort())
ISDIR = UF('fs.is_directory', Str, z3.BoolSort())
NCOMP = UF('fs.components', Str, B64)
COMP = UF('fs.component', Str, B64, Str)


def term(p, v):
    v = S_(p, v) if not isinstance(v, Seq) else v
    if isinstance(v, Slice) and p.entails(And(Eq(v.off, 0), Eq(v.len, v.base.len))):
        v = v.base
    if not isinstance(v, Base):
        raise ToolLimit('a path that is not one of the function\'s: %r' % (v,))
    return v.t


def path_of(p, t):
    return Base(p, t)


def err(I, args, n, missing=False):
    """a call with n arguments besides an error code: fails by exception, or by setting it -> failed?"""
    p = I.p
    if p.choose(2) == 0:
        if len(args) > n:
            set_ec(I, args[n], 0)
        return False
    p.ghost['fserr'] = 'missing' if missing else 'error'
    if len(args) <= n:
        raise CppThrow('std::filesystem::filesystem_error')
    set_ec(I, args[n], 1)
    return True


def set_ec(I, a, v):
    lv = I.ev(a)
    if isinstance(lv, LV):
        lv.store(I.p, Rec('error_code', {'v': v}))


def x_absolute(I, args, node):
    p = I.p
    t = term(p, I.ev(args[0]))
    if err(I, args, 1):
        return EMPTY
    return path_of(p, ABS(t))


def x_weak(I, args, node):
    p = I.p
    t = term(p, I.ev(args[0]))
    if err(I, args, 1):
        return EMPTY
    return weak(p, t)


def x_canonical(I, args, node):
    p = I.p
    t = term(p, I.ev(args[0]))
    if not p.decide(EXISTS(t)):
        p.ghost['fserr'] = 'missing'
        if len(args) < 2:
            raise CppThrow('std::filesystem::filesystem_error')
        set_ec(I, args[1], 1)
        return EMPTY
    if err(I, args, 1):
        return EMPTY
    return canon(p, t)


def canon(p, t):
    """the resolution of something that exists: links followed, no dot segments"""
    c = CANON(t)
    p.fact(z3.Implies(EXISTS(t), And(CANON(c) == c, ISDIR(c) == ISDIR(t), EXISTS(c), NORMAL(c), ISABS(c))))
    return path_of(p, c)


def weak(p, t):
    """weakly_canonical: what exists of the path resolved, the rest appended, and only then dot segments removed as text:
    the resolution if the path exists, else in normal form, but it may name something unresolved.  In a path in normal form
    the missing component and all after it stay, so it still names nothing."""
    w = WEAK(t)
    c = canon(p, t).t
    p.fact(z3.Implies(EXISTS(t), w == c))
    p.fact(NORMAL(w))
    p.fact(z3.Implies(ISABS(t), ISABS(w)))
    p.fact(z3.Implies(And(NORMAL(t), Not(EXISTS(t))), Not(EXISTS(w))))
    return path_of(p, w)


def x_pred(f):
    def g(I, args, node):
        p = I.p
        t = term(p, I.ev(args[0]))
        p.fact(z3.Implies(ISDIR(t), EXISTS(t)))
        if err(I, args, 1):
            return False
        return f(t)
    return g


def o_join(I, args, node):
    p = I.p
    a, b = term(p, I.ev(args[0])), term(p, I.ev(args[1]))
    return path_of(p, join(p, a, b))


def join(p, a, b):
    j = JOIN(a, b)
    p.fact(z3.Implies(ISABS(b), j == b))        # an absolute right operand replaces the left one
    return j


def o_join_assign(I, args, node):
    lv = I.ev(args[0])
    lv.store(I.p, o_join(I, args, node))
    return lv


def o_eq(neg):
    def f(I, args, node):
        p = I.p
        vs = []
        for a in args:
            v = I.ev(a)
            v = v.load(p) if isinstance(v, LV) else v
            vs.append(v)
        if not all(isinstance(v, Base) and v.t.decl().eq(COMP) for v in vs):
            raise ToolLimit('comparison of whole paths')
        e = eq_formula(p, vs[0], vs[1])
        return Not(e) if neg else e
    return f


def comps(p, lv):
    """the components of a path, as a container"""
    t = term(p, lv)
    d = p.ghost.setdefault('comps', {})
    k = t.get_id()
    if k not in d:
        b = Base(p, t if False else COMPS(t), lambda p, x, i, t=t: path_of(p, COMP(t, bv(i, 64))))
        p.fact(b.len == NCOMP(t))
        p.fact(z3.ULE(NCOMP(t), z3.BitVecVal(1 << 40, 64)))
        d[k] = (t, p.newlv('components', b, parse_type('std::vector<std::filesystem::path>')))
    return d[k][1]


COMPS = UF('fs.comps', Str, Obj)


def m_begin(I, lv, args, node):
    return IterV(comps(I.p, lv), 0)


def m_end(I, lv, args, node):
    c = comps(I.p, lv)
    return IterV(c, c.load(I.p).len)


def m_isabs(I, lv, args, node):
    return ISABS(term(I.p, lv))


def m_isrel(I, lv, args, node):
    return Not(ISABS(term(I.p, lv)))


PATH = 'std::filesystem::path'
EC = {'std::error_code::operator bool': lambda I, lv, args, node: lv.load(I.p).f['v'] != 0,
      'std::error_code::message': lambda I, lv, args, node: I.p.bytes_('message'),
      'std::error_code::clear': lambda I, lv, args, node: lv.store(I.p, Rec('error_code', {'v': 0})),
      'std::error_code::value': lambda I, lv, args, node: lv.load(I.p).f['v']}
FS = dict(externs={'absolute': x_absolute, 'weakly_canonical': x_weak, 'canonical': x_canonical, 'exists': x_pred(EXISTS), 'is_directory': x_pred(ISDIR)},
          ext_methods={**EC, PATH + '::begin': m_begin, PATH + '::end': m_end, PATH + '::is_absolute': m_isabs, PATH + '::is_relative': m_isrel},
          ext_ops={(PATH, '/'): o_join, (PATH, '/='): o_join_assign, (PATH, '=='): o_eq(False), (PATH, '!='): o_eq(True)})


def differ(p, a, b):
    """component k of the two paths differs"""
    return lambda k: Not(eq_formula(p, path_of(p, COMP(a, bv(k, 64))), path_of(p, COMP(b, bv(k, 64)))))


class CompFold(SearchFold):
    """a loop that walks two paths component by component while they agree"""

    def entry(self, st):
        p = st.p
        ts = []
        for v in st.I.frames[-1].vars.values():
            x = v.load(p) if isinstance(v, LV) else None
            if isinstance(x, IterV):
                for t, lv in p.ghost.get('comps', {}).values():
                    if lv.key() == x.lv.key() and not any(t.eq(u) for u in ts):
                        ts.append(t)
        if len(ts) != 2:
            raise ToolLimit('a loop over paths that is not the comparison of two')
        n, m = NCOMP(ts[0]), NCOMP(ts[1])
        self.n = simp(z3.If(z3.ULT(n, m), n, m))
        self.pred = differ(p, *ts)
        SearchFold.entry(self, st)


def unit_sanitize():
    def h(I, p):
        base, req = p.bytes_('base_dir'), p.bytes_('requested_path')
        info = lambda m: None
        p.ghost['fserr'] = None
        try:
            r = I.exec_function(the_fn(I, FR, 'sanitize_path'), None, [p.newlv('base_dir', base, STR), p.newlv('requested_path', req, STR)])
        except CppThrow as e:
            p.prove(False, 'a file-system error is a refusal, not an exception (%s)' % e.cls, 'post')
            return
        r = r.load(p) if isinstance(r, LV) else r
        ab = ABS(base.t)
        p.fact(z3.Implies(ISDIR(ab), EXISTS(ab)))
        cb = canon(p, ab).t
        asked = join(p, cb, req.t)
        found = canon(p, asked).t
        k = p.freshbv('component', 64)
        if p.decide(r.has):
            if not isinstance(r.val, Base):
                p.prove(False, 'what is returned is a resolved path', 'post')
                return
            t = r.val.t
            canon(p, t)
            p.prove(ISDIR(ab), 'a base that is not an existing directory is refused', 'post')
            p.prove(z3.Implies(EXISTS(asked), t == found), 'what is there is returned as the path it resolves to', 'post')
            p.prove(NORMAL(t), 'the path returned has no dot segments', 'post')
            p.prove(z3.Implies(EXISTS(t), CANON(t) == t), 'the path returned leads through no link', 'post')
            nb, nf = NCOMP(cb), NCOMP(t)
            d = differ(p, cb, t)
            p.prove(ule(nb, nf), 'the path returned is not above the base directory', 'post')
            not_before(p, k, k)
            L.first_instance(I, k)
            p.prove(Not(And(ult(k, nb), d(k))), 'the path returned has every component of the base directory', 'post')
        elif p.ghost['fserr'] != 'error':
            # a refusal without a file-system error has a reason: where the path leads to, or, where there is nothing, its normal form
            nb = NCOMP(cb)
            ends = [found] if p.decide(EXISTS(asked)) else [t for t, _ in p.ghost.get('comps', {}).values() if t.decl().eq(WEAK)]
            why = [Not(ISDIR(ab))]
            for full in ends:
                d = differ(p, cb, full)
                why.append(ult(NCOMP(full), nb))
                for i in [p.ghost.get('i')] + [x[2] for x in p.ghost.get('firsts', [])]:
                    if i is not None:
                        why.append(And(ult(i, nb), d(i)))
            p.prove(Or(*why), 'nothing below the base directory is refused', 'post')
    return Unit('sanitize_path', FR + '::sanitize_path', h, rules={'*': lambda I, k, n: CompFold()}, ctx=FS)


# --- C17: what is answered ----------------------------------------------------------------------------------------
READABLE = UF('file.readable', Str, z3.BoolSort())
MIME = UF('file.mime', Str, Str)
CONTENT = UF('file.content', Str, Str)
STATOK = UF('stat.ok', Str, z3.BoolSort())
MODE = UF('stat.mode', Str, z3.BitVecSort(32))
ACCESS = UF('access.ok', Str, z3.BitVecSort(32), z3.BoolSort())
ISREG = UF('fs.is_regular_file', Str, z3.BoolSort())


def file_content(p, t):
    b = Base(p, CONTENT(t))
    p.fact(z3.ULE(b.len, z3.BitVecVal(1 << 40, 64)))
    return b


class Sanitize:
    """C16: refused, or a path"""
    name = FR + '::sanitize_path'

    def apply(self, I, this, vals):
        p = I.p
        r = Opt(p.freshbool('inside'), p.bytes_('safe_path'))
        p.ghost['calls'].append(('sanitize', S_(p, vals[0]), S_(p, vals[1]), r))
        return r


class IsReadable:
    name = FR + '::is_readable'

    def apply(self, I, this, vals):
        return READABLE(term(I.p, vals[0]))


class Mime:
    name = FR + '::get_mime_type'

    def apply(self, I, this, vals):
        return Base(I.p, MIME(term(I.p, vals[0])))


class ReadFile:
    """the file's octets, or nothing when it cannot be read"""
    name = FR + '::read_file'

    def apply(self, I, this, vals):
        p = I.p
        t = term(p, vals[0])
        r = Opt(p.freshbool('read'), file_content(p, t))
        p.ghost['calls'].append(('read', t, r.has))
        return r


class FileSize:
    name = FR + '::get_file_size'

    def apply(self, I, this, vals):
        p = I.p
        t = term(p, vals[0])
        r = Opt(p.freshbool('sized'), file_content(p, t).len)
        p.ghost['calls'].append(('size', t, r.has))
        return r


def headers_are(p, h, want, label):
    """the header list is exactly these names and values, in any order"""
    if not isinstance(h, Lit):
        raise ToolLimit('a header list of unknown length')
    p.prove(len(h.e) == len(want), label + ': exactly these headers', 'post')
    if len(h.e) != len(want):
        return
    left = list(h.e)
    for n, v in want:
        m = [x for x in left if p.entails(eq_formula(p, x.f['name'], txt(n)))]
        p.prove(len(m) == 1, '%s: %s' % (label, n), 'post')
        if m:
            prove_eq(p, m[0].f['value'], v, '%s: value of %s' % (label, n), 'post')
            left.remove(m[0])


def check_file_response(I, p, r, t, head, label):
    """the answer for the file at path t"""
    def bare(st):
        p.prove(Eq(r.f['status_code'], st), '%s is answered %d' % (label, st), 'post')
        prove_eq(p, r.f['body'], EMPTY, '%s: no body' % label, 'post')
        headers_are(p, r.f['headers'], [], label)
    G = p.ghost
    if not p.decide(READABLE(t)):
        label = 'what is not a readable regular file'
        return bare(404)
    mime = Base(p, MIME(t))
    h = p.decide(head) if not isinstance(head, bool) else head
    c = [x for x in G['calls'] if x[0] == ('size' if h else 'read')]
    ok = len(c) >= 1 and all(x[1].eq(t) or p.entails(x[1] == t) for x in c)
    p.prove(ok, 'the file asked for is the one read', 'post')
    if not ok:
        return
    if not p.decide(c[-1][2]):
        label = 'a file that cannot be read'
        return bare(500)
    p.prove(Eq(r.f['status_code'], 200), 'a readable file is answered 200', 'post')
    ty = ('content-type', mime)
    if h:
        prove_eq(p, r.f['body'], EMPTY, 'HEAD: no body', 'post')
        headers_are(p, r.f['headers'], [('content-length', L.decimal(I, file_content(p, t).len, parse_type('unsigned long'))), ty], 'HEAD')
    else:
        prove_eq(p, r.f['body'], file_content(p, t), 'GET: the file\'s octets', 'post')
        headers_are(p, r.f['headers'], [ty], 'GET')


FILES = [IsReadable(), Mime(), ReadFile(), FileSize()]


def unit_handle():
    def h(I, p):
        p.ghost['calls'] = []
        prefix, root, path = p.bytes_('prefix'), p.bytes_('root'), p.bytes_('path')
        s = mk_static(I, p, prefix, root)
        b0 = dict(s.load(p).f)
        p.assume(ule(path.len, 1 << 40))
        p.assume(ule(prefix.len, path.len))
        p.assume(eq_formula(p, slice_(p, path, 0, prefix.len), prefix))       # it is called for paths the mapping matches
        head = p.freshbool('is_head')
        try:
            r = I.exec_function(the_fn(I, SHT, 'handle'), s, [p.newlv('path', path, STR), head])
        except CppThrow as e:
            p.prove(False, 'a request for a file throws nothing (%s)' % e.cls, 'post')
            return
        r = r.load(p) if isinstance(r, LV) else r
        for n in b0:
            p.prove(val_same(s.load(p).f[n], b0[n]), 'answering changes nothing', 'frame')
        c = [x for x in p.ghost['calls'] if x[0] == 'sanitize']
        p.prove(len(c) == 1, 'the path is resolved exactly once', 'post')
        if len(c) != 1:
            return
        _, base, rel, o = c[0]
        prove_eq(p, base, root, 'paths are resolved below the mapping\'s directory', 'post')
        # what is asked for: the rest of the path up to a query, without its leading slash
        rest = slice_(p, path, prefix.len, sub(path.len, prefix.len))
        q = L.first_index(I, 0, rest.len, lambda k: eq_formula(p, rest.at(p, k), 0x3f))
        for _, _, k, _ in p.ghost['firsts']:
            L.first_instance(I, k)
        bare = slice_(p, rest, 0, q)
        if p.decide(Or(Eq(bare.len, 0), And(Eq(bare.len, 1), eq_formula(p, bare.at(p, 0), 0x2f)))):
            want = txt('index.html')
        elif p.decide(eq_formula(p, bare.at(p, 0), 0x2f)):
            want = slice_(p, bare, 1, sub(bare.len, 1))
        else:
            want = bare
        prove_eq(p, rel, want, 'the file is the path after the prefix, without query and leading slash', 'post')
        if not p.decide(o.has):
            p.prove(Eq(r.f['status_code'], 403), 'a path outside the directory is answered 403', 'post')
            prove_eq(p, r.f['body'], EMPTY, 'a refusal has no body', 'post')
            headers_are(p, r.f['headers'], [], 'a refusal')
            p.prove(len(p.ghost['calls']) == 1, 'a refused path is not opened', 'post')
            return
        check_file_response(I, p, r, term(p, o.val), head, 'a file')
    return Unit('handle', SHT + '::handle', h, contracts=FILES + [Sanitize()], ctx=FS)


def unit_file_response():
    def h(I, p):
        p.ghost['calls'] = []
        path = p.bytes_('path')
        head = p.freshbool('head_request')
        r = I.exec_function(the_fn(I, SHT, 'file_response'), None, [p.newlv('path', path, STR), head])
        r = r.load(p) if isinstance(r, LV) else r
        check_file_response(I, p, r, path.t, head, 'a file')
    return Unit('file_response', SHT + '::file_response', h, contracts=FILES, ctx=FS)


MIMES = {'.html': 'text/html; charset=utf-8', '.htm': 'text/html; charset=utf-8', '.css': 'text/css; charset=utf-8', '.js': 'application/javascript; charset=utf-8', '.json': 'application/json',
         '.xml': 'application/xml', '.png': 'image/png', '.jpg': 'image/jpeg', '.jpeg': 'image/jpeg', '.gif': 'image/gif', '.svg': 'image/svg+xml', '.ico': 'image/x-icon',
         '.txt': 'text/plain; charset=utf-8', '.pdf': 'application/pdf', '.zip': 'application/zip', '.woff': 'font/woff', '.woff2': 'font/woff2', '.ttf': 'font/ttf', '.webp': 'image/webp'}


def unit_mime(case):
    def h(I, p):
        path = p.bytes_('path')
        p.assume(ule(path.len, 1 << 40))
        if case is None:
            # no extension of the table: not the end of the path after its last dot
            for e in MIMES:
                p.assume(Not(ends_in(p, path, e)))
        else:
            p.assume(ends_in(p, path, case))
            p.ghost['instances'] = list(range(len(case)))
        r = I.exec_function(the_fn(I, FR, 'get_mime_type'), None, [p.newlv('path', path, STR)])
        r = r.load(p) if isinstance(r, LV) else r
        prove_eq(p, S_(p, r), txt(MIMES[case] if case else 'application/octet-stream'), 'the type is the one of the extension', 'post')
    return Unit('get_mime_type[%s]' % (case or 'other'), FR + '::get_mime_type', h, ctx=dict(unroll=100))


def ends_in(p, s, e):
    n = len(e)
    return And(ule(n, s.len), *[Eq(bv(s.at(p, simp(bv(s.len, 64) - n + i)), 8), ord(e[i])) for i in range(n)])


def x_stat(I, args, node):
    p = I.p
    t = term(p, cpath(p, I.ev(args[0])))
    o = I.rv(args[1])
    if p.decide(STATOK(t)):
        o.lv.store(p, Rec('stat', {'st_mode': MODE(t), 'st_size': file_content(p, t).len}))
        return 0
    return (1 << 32) - 1


def cpath(p, v):
    if isinstance(v, LV):
        v = v.load(p)
    if isinstance(v, Ptr):
        p.require(v.idx is None or Eq(v.idx, 0), 'a path is given from its first octet')
        v = v.lv.load(p)
    return v


def x_access(I, args, node):
    p = I.p
    t = term(p, cpath(p, I.ev(args[0])))
    return Ite(ACCESS(t, bv(I.rv(args[1]), 32)), 0, (1 << 32) - 1, 32)


def x_isreg(I, args, node):
    p = I.p
    t = term(p, I.ev(args[0]))
    reg(p, t)
    if err(I, args, 1):
        return False
    return ISREG(t)


def reg(p, t):
    p.fact(ISREG(t) == z3.And(STATOK(t), (MODE(t) & 0o170000) == 0o100000))
    p.fact(z3.Implies(ISREG(t), EXISTS(t)))


def unit_is_readable():
    def h(I, p):
        path = p.bytes_('path')
        t = path.t
        reg(p, t)
        p.ghost['fserr'] = None
        try:
            r = I.exec_function(the_fn(I, FR, 'is_readable'), None, [p.newlv('path', path, STR)])
        except CppThrow as e:
            p.prove(False, 'nothing is thrown (%s)' % e.cls, 'post')
            return
        want = And(STATOK(t), Eq(simp(MODE(t) & 0o170000), 0o100000), ACCESS(t, bv(4, 32)))
        p.prove(Implies(r, want), 'only a regular file that can be read is readable', 'post')
        if p.ghost['fserr'] is None:
            p.prove(Implies(want, r), 'every regular file that can be read is readable', 'post')
    return Unit('is_readable', FR + '::is_readable', h, ctx=dict(FS, externs=dict(FS['externs'], stat=x_stat, access=x_access, is_regular_file=x_isreg)))


def x_file_size(I, args, node):
    p = I.p
    t = term(p, I.ev(args[0]))
    if err(I, args, 1):
        return (1 << 64) - 1
    return file_content(p, t).len


def unit_file_size():
    def h(I, p):
        path = p.bytes_('path')
        t = path.t
        reg(p, t)
        p.ghost['fserr'] = None
        try:
            r = I.exec_function(the_fn(I, FR, 'get_file_size'), None, [p.newlv('path', path, STR)])
        except CppThrow as e:
            p.prove(False, 'nothing is thrown (%s)' % e.cls, 'post')
            return
        r = r.load(p) if isinstance(r, LV) else r
        if p.decide(r.has):
            p.prove(ISREG(t), 'only a regular file has a size', 'post')
            p.prove(Eq(r.val, file_content(p, t).len), 'the size is the number of octets', 'post')
        elif p.ghost['fserr'] is None:
            p.prove(Not(ISREG(t)), 'every regular file has a size', 'post')
    return Unit('get_file_size', FR + '::get_file_size', h, ctx=dict(FS, externs=dict(FS['externs'], stat=x_stat, is_regular_file=x_isreg, file_size=x_file_size)))


# --- a stream on a file: opened or not, a position, failed or not
def c_ifstream(I, t, args, node):
    p = I.p
    real = [a for a in args if not L.default_arg(a)]
    if not real:
        return Rec('ifstream', {'t': None, 'open': False, 'pos': 0, 'fail': False, 'got': 0})
    return opened(I, real)


def opened(I, real):
    p = I.p
    v = I.ev(real[0])
    t = term(p, cpath(p, v))
    mode = I.rv(real[1]) if len(real) > 1 else 8
    if is_sym(mode):
        raise ToolLimit('mode of a stream')
    ok = p.choose(2) == 0
    if not ok:
        p.ghost['fserr'] = 'error'
    return Rec('ifstream', {'t': t, 'open': ok, 'pos': file_content(p, t).len if mode & 2 else 0, 'fail': not ok, 'got': 0})


def stream(I, lv):
    v = lv.load(I.p)
    if not isinstance(v, Rec) or v.cls != 'ifstream':
        raise ToolLimit('a stream from elsewhere')
    return v


def m_tellg(I, lv, args, node):
    v = stream(I, lv)
    if v.f['fail']:
        return (1 << 64) - 1
    if I.p.choose(2):
        I.p.ghost['fserr'] = 'error'
        return (1 << 64) - 1
    return v.f['pos']


def m_seekg(I, lv, args, node):
    p = I.p
    v = stream(I, lv)
    o = I.int_cast(I.rv(args[0]), I.T(args[0]), L.I64)
    if len(args) > 1:
        w = I.rv(args[1])
        if is_sym(w):
            raise ToolLimit('seek direction')
        o = o if w == 0 else add(v.f['pos'], o) if w == 1 else add(file_content(p, v.f['t']).len, o)
    if not v.f['fail']:
        if p.choose(2):
            p.ghost['fserr'] = 'error'
            lv.store(p, v.with_('fail', True))
        else:
            lv.store(p, v.with_('pos', o))
    return lv


def m_read(I, lv, args, node):
    p = I.p
    v = stream(I, lv)
    out, n = I.rv(args[0]), bv(I.rv(args[1]), 64)
    p.require(Not(Eq(z3.Extract(63, 63, n), z3.BitVecVal(1, 1))) if is_sym(n) else n < 1 << 63, 'a read count is not negative')
    if v.f['fail']:
        lv.store(p, v.with_('got', 0))
        return lv
    c = file_content(p, v.f['t'])
    if not p.decide(And(ule(v.f['pos'], c.len), ule(n, sub(c.len, v.f['pos'])))) or p.choose(2):
        p.ghost['fserr'] = 'error'
        L.write_out(I, Base(p, p.fresh('partial', Str)), out) if False else None
        lv.store(p, v.with_('fail', True))
        return lv
    if not (isinstance(out, Ptr) and out.idx is None):
        L.write_out(I, slice_(p, c, v.f['pos'], n), out)
    lv.store(p, v.with_('pos', add(v.f['pos'], n)).with_('got', n))
    return lv


def stream_methods():
    d = {}
    for s in ('std::basic_ifstream', 'std::basic_istream', 'std::basic_ios', 'std::ifstream'):
        d[s + '::is_open'] = lambda I, lv, a, n: stream(I, lv).f['open']
        d[s + '::tellg'] = m_tellg
        d[s + '::seekg'] = m_seekg
        d[s + '::read'] = m_read
        d[s + '::gcount'] = lambda I, lv, a, n: stream(I, lv).f['got']
        for g in ('good', 'operator bool'):
            d[s + '::' + g] = lambda I, lv, a, n: not stream(I, lv).f['fail']
        for g in ('fail', 'bad', 'operator!'):
            d[s + '::' + g] = lambda I, lv, a, n: stream(I, lv).f['fail']
        d[s + '::close'] = lambda I, lv, a, n: None
    for t in ('std::fpos',):
        d[t + '::operator long'] = lambda I, lv, a, n: lv.load(I.p)
    return d


def o_not(I, args, node):
    lv = I.ev(args[0])
    return stream(I, lv).f['fail']


STREAM = dict(FS, ext_ctors={'std::basic_ifstream': c_ifstream, 'std::ifstream': c_ifstream},
              ext_methods={**FS['ext_methods'], **stream_methods()},
              ext_globals={'binary': 4, 'ate': 2, 'in': 8, 'beg': 0, 'cur': 1, 'end': 2},
              ext_ops={**FS['ext_ops'], **{(s, '!'): o_not for s in ('std::basic_ios', 'std::basic_istream', 'std::basic_ifstream', 'std::ifstream')}})


def unit_read_file():
    def h(I, p):
        path = p.bytes_('path')
        p.ghost['fserr'] = None
        try:
            r = I.exec_function(the_fn(I, FR, 'read_file'), None, [p.newlv('path', path, STR)])
        except CppThrow as e:
            p.prove(False, 'nothing is thrown (%s)' % e.cls, 'post')
            return
        r = r.load(p) if isinstance(r, LV) else r
        if p.decide(r.has):
            prove_eq(p, r.val, file_content(p, path.t), 'exactly the file\'s octets are returned', 'post')
        else:
            p.prove(p.ghost['fserr'] is not None, 'a file that can be read is read', 'post')
    return Unit('read_file', FR + '::read_file', h, ctx=STREAM)


def units_c17():
    return [unit_handle(), unit_file_response(), unit_is_readable(), unit_file_size(), unit_read_file()] + [unit_mime(e) for e in list(MIMES) + [None]]


def units_c16():
    return [unit_sanitize(), unit_handle()]

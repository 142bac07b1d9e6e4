"""Front end: clang's typed AST of /repo's current sources, on every run.

Nothing is copied or rewritten by hand: clang++-19 parses the real translation units and
dumps every declaration whose qualified name matches a filter; declarations that do not come
from /repo are dropped.  What the extraction drops is listed in DROPPED.
"""
import hashlib, json, os, re, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('ION_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
CLANG = 'clang++-19'
DROPPED = [
    'bodies of declarations outside /repo (standard library, spdlog, OpenSSL, libc): replaced by the models in vc/lib.py',
    'opentelemetry and CLI11 headers absent from this sandbox: declarations from /verif/stubs',
    'effects of log calls (their arguments are still evaluated and checked)',
]
OUTSIDE_NS = ['ByteReader', 'SystemClock', 'Args', 'StatusPage', 'ServerStats', 'ProcessControl', 'TestRoutes', 'SignalHandler', 'TraceIdFlag', 'Telemetry']


def version_include():
    d = os.path.join(CACHE, 'gen')
    os.makedirs(d, exist_ok=True)
    src = open(os.path.join(REPO, 'lib', 'version.h.in')).read()
    out = src.replace('@ION_BUILD_VERSION@', 'verif')
    p = os.path.join(d, 'version.h')
    if not os.path.exists(p) or open(p).read() != out:
        tmp = p + '.%d.%d' % (os.getpid(), threading.get_ident())
        open(tmp, 'w').write(out)
        os.replace(tmp, p)
    return d


def cxxflags():
    return ['-std=gnu++23', '-DFMT_SHARED', '-DSPDLOG_COMPILED_LIB', '-DSPDLOG_FMT_EXTERNAL', '-DSPDLOG_SHARED_LIB',
            '-I' + VERIF + '/stubs', '-I' + REPO + '/lib', '-I' + version_include(), '-I' + REPO + '/app']


def sources(dirs=('lib',)):
    out = []
    for d in dirs:
        if d.endswith('.cpp'):
            if os.path.exists(os.path.join(REPO, d)):
                out.append(os.path.join(REPO, d))
            continue
        for root, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            out += [os.path.join(root, f) for f in sorted(fs) if f.endswith('.cpp')]
    return out


def tree_hash():
    h = hashlib.sha256(open(__file__, 'rb').read())
    for base in ('lib', 'app'):
        for root, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.cpp', '.h', '.in')):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h.hexdigest()[:24]


class FrontendError(Exception):
    pass


def _docs(s):
    d = json.JSONDecoder()
    i, n = 0, len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            return
        if s[i] != '{':
            j = s.find('\n', i)
            if j < 0:
                return
            i = j + 1
            continue
        o, i = d.raw_decode(s, i)
        yield o


def _dump(src, flt):
    key = hashlib.sha256(('%s|%s|%s' % (tree_hash(), src, flt)).encode()).hexdigest()[:32]
    path = os.path.join(CACHE, 'ast', key + '.json')
    if os.path.exists(path):
        try:
            return json.load(open(path))
        except ValueError:
            pass
    p = subprocess.run([CLANG] + cxxflags() + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang',
                       '-ast-dump-filter=' + flt] + (['-x', 'c++'] if src.endswith('.h') else []) + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise FrontendError('clang failed on %s:\n%s' % (src, p.stderr[-3000:]))
    docs = []
    for o in _docs(p.stdout):
        f = o.get('loc', {}).get('file') or o.get('loc', {}).get('expansionLoc', {}).get('file') or ''
        if f.startswith(REPO) or f.startswith(CACHE + '/gen'):
            _attach_text(o)
            docs.append(o)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.%d' % os.getpid()
    json.dump(docs, open(tmp, 'w'))
    os.replace(tmp, path)
    return docs


_TEXT = {}


def _attach_text(doc):
    """template arguments of span member calls are not in the JSON dump: keep the source text of those calls"""
    cur = [None]

    def loc(l):
        for k in ('spellingLoc', 'expansionLoc'):
            if k in l:
                loc(l[k])
        if 'file' in l:
            cur[0] = l['file']

    def walk(n):
        begin_file = None
        if 'loc' in n:
            loc(n['loc'])
        r = n.get('range')
        if r:
            loc(r.get('begin', {}))
            begin_file = cur[0]
            loc(r.get('end', {}))
        if n.get('kind') == 'CXXMemberCallExpr' and n.get('inner') and n['inner'][0].get('name') in ('subspan', 'first', 'last') and \
                len(n['inner']) == 1 and begin_file and 'offset' in r['begin'] and 'offset' in r['end']:
            t = _text(begin_file)
            n['_text'] = t[r['begin']['offset']:r['end']['offset'] + r['end'].get('tokLen', 1)].decode('utf-8', 'replace')
        if n.get('kind') == 'LambdaExpr' and begin_file and 'offset' in r.get('begin', {}):
            _capture_names(n, begin_file, r['begin']['offset'])
        for c in n.get('inner', []):
            if isinstance(c, dict):
                walk(c)
    walk(doc)


def _text(name):
    t = _TEXT.get(name)
    if t is None:
        try:
            t = _TEXT[name] = open(name, 'rb').read()
        except OSError:
            t = b''
    return t


def _capture_names(n, name, off):
    """the names of a lambda's captures, from its source text (the JSON dump has none)"""
    t = _text(name)[off:off + 2000].decode('utf-8', 'replace')
    if not t.startswith('['):
        return
    depth, items, cur, inq = 0, [], '', None
    for k, ch in enumerate(t):
        if inq:
            cur += ch
            if ch == inq and t[k - 1] != '\\':
                inq = None
            continue
        if ch in '"\'':
            inq = ch
        if ch in '[({':
            depth += 1
            if depth == 1:
                continue
        elif ch in '])}':
            depth -= 1
            if depth == 0:
                break
        if ch == ',' and depth == 1:
            items.append(cur)
            cur = ''
        else:
            cur += ch
    if depth:
        return
    items.append(cur)
    names = []
    for x in items:
        x = x.split('=')[0].strip() if '=' in x and x.strip() != '=' else x.strip()
        if x in ('=', '&', ''):
            continue
        names.append(x.lstrip('&*. ').strip())
    rec = [c for c in n.get('inner', []) if c.get('kind') == 'CXXRecordDecl']
    fields = [c for c in rec[0].get('inner', []) if c.get('kind') == 'FieldDecl'] if rec else []
    if len(names) <= len(fields):
        for fd, x in zip(fields, names):
            fd['_capname'] = x


def prune_cache(keep=400):
    d = os.path.join(CACHE, 'ast')
    try:
        fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
        for f in fs[:-keep]:
            os.unlink(f)
    except OSError:
        pass


def global_enums(srcs):
    """(header, name) of enumerations and constants declared outside every namespace"""
    out = []
    for d in sorted({os.path.dirname(s) for s in srcs}):
        for f in sorted(os.listdir(d)):
            if f.endswith('.h'):
                t = open(os.path.join(d, f)).read()
                if not re.search(r'\bnamespace\s+\w+', t):
                    out += [(os.path.join(d, f), m) for m in re.findall(r'\benum\s+(?:class\s+|struct\s+)?(\w+)', t)]
                    out += [(os.path.join(d, f), m) for m in re.findall(r'^(?:static\s+|inline\s+)*constexpr\s+[^=;({]*?(\w+)\s*[={]', t, re.M)]
    return out


class Program:
    """""All declarations of /repo needed by a check, linked by qualified name."""

    def __init__(self, srcs, filters=None):
        self.funcs = {}     # qualified name -> list of FunctionDecl nodes with body (deduplicated by signature)
        self.records = {}   # simple class name -> node
        self.enums = {}     # simple enum name -> {'width','signed','consts'}
        self.globals = {}   # simple var name -> node with initialiser
        self.enumconst = {} # id -> (enum, value)
        self.files = set()
        self.by_id = {}
        jobs = []
        for s in srcs:
            text = open(s).read()
            fl = ['ion::']
            for o in OUTSIDE_NS:
                if filters is None or o in filters:
                    hit = os.path.basename(s)
                    if o == 'ByteReader':
                        if hit == 'byte_reader.cpp':
                            fl.append('ByteReader')
                    elif o + '::' in text:
                        fl.append(o)
            if os.sep + 'app' + os.sep in s:       # functions of the program itself
                fl += sorted(set(re.findall(r'^(?:static |inline )*[\w:<>*&, ]+?[\s*&](\w+)\([^;{}]*\)\s*(?:noexcept\s*)?\{', text, re.M)) - {'if', 'for', 'while', 'switch', 'catch'})
            jobs += [(s, f) for f in fl]
        jobs += global_enums(srcs)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: _dump(*j), jobs))
        for (s, f), docs in zip(jobs, res):
            pre = os.path.basename(s) + ':' + f + ':'
            for d in docs:
                self._add(d, [], pre, s)
        for t in list(self.records.values()):
            pass
        prune_cache()

    def _ids(self, n, pre):
        # make node ids unique across dumps
        st = [n]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                for k, v in x.items():
                    if k in ('id', 'previousDecl', 'parentDeclContextId', 'referencedMemberDecl', 'targetLabelDeclId') and isinstance(v, str):
                        x[k] = pre + v
                    elif isinstance(v, (dict, list)):
                        st.append(v)
            elif isinstance(x, list):
                st.extend(x)

    def _add(self, n, scope, pre, src):
        self._ids(n, pre)
        pc = n.get('parentDeclContextId')
        if pc and pc in self.by_id and self.by_id[pc].get('kind') == 'CXXRecordDecl':
            scope = [self.by_id[pc]['name']]
        self._visit(n, scope, src)

    def _visit(self, n, scope, src):
        k = n.get('kind')
        name = n.get('name')
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            self.by_id[n['id']] = n
            n['_src'] = src
            n['_cls'] = scope[-1] if scope else None
            if any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', [])):
                self.funcs.setdefault(name, [])
                self.funcs[name].append(n)
            else:
                self.by_id.setdefault(n['id'], n)
            return
        if k == 'FunctionTemplateDecl':
            for c in n.get('inner', []):
                if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
                    c['_src'] = src
                    c['_cls'] = scope[-1] if scope else None
                    c['_tmpl'] = True
                    self.by_id[c['id']] = c
            return
        if k == 'CXXRecordDecl':
            self.by_id[n['id']] = n
            if n.get('completeDefinition'):
                old = self.records.get(name)
                self.records[name] = n
                n['_src'] = src
                for c in n.get('inner', []):
                    self._visit(c, scope + [name], src)
            return
        if k == 'EnumDecl':
            self._enum(n)
            return
        if k == 'VarDecl':
            self.by_id[n['id']] = n
            n['_src'] = src
            n['_scope'] = list(scope)
            if 'init' in n or any('kind' in c for c in n.get('inner', [])):
                self.globals.setdefault(name, []).append(n)
            return
        if k in ('NamespaceDecl', 'LinkageSpecDecl'):
            for c in n.get('inner', []):
                self._visit(c, scope, src)

    def source_text(self, n):
        return n.get('_text')

    def const_expr(self, s):
        s = s.strip()
        if re.match(r'^\d+[uUlLzZ]*$', s):
            return int(re.match(r'^\d+', s).group(0))
        parts = [x for x in s.split('::')]
        for g in self.globals.get(parts[-1], []):
            if len(parts) == 1 or not g.get('_scope') or g['_scope'][-1] == parts[-2]:
                for e in g.get('inner', []):
                    v = _const(e)
                    if v is not None:
                        return int(v)
        return None

    def _enum(self, n):
        w, sg = 32, True
        ft = n.get('fixedUnderlyingType')
        if ft:
            from .types import parse_type, node_type_str
            t = parse_type(ft.get('desugaredQualType', ft['qualType']))
            w, sg = t.width, t.signed
        consts, v = {}, -1
        for c in n.get('inner', []):
            if c.get('kind') == 'EnumConstantDecl':
                val = None
                for e in c.get('inner', []):
                    val = _const(e)
                v = int(val) if val is not None else v + 1
                consts[c['name']] = v
                self.enumconst[c['id']] = v
        if consts or n.get('name') not in self.enums:
            self.enums[n.get('name')] = {'width': w, 'signed': sg, 'consts': consts}


def _const(e):
    if e.get('kind') == 'ConstantExpr' and 'value' in e:
        return e['value']
    if 'value' in e:
        return e['value']
    for c in e.get('inner', []):
        r = _const(c)
        if r is not None:
            return r
    return None

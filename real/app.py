"""Routing, static files, access log and status page on the compiled code."""
import os, re, shutil, tempfile
from vc import build as B
from vc.frontend import REPO
from .conn import KINDS


def driver(cwd=None):
    return B.Driver(B.build('app', B.all_lib() + [os.path.join(REPO, 'app', x) for x in ('server_stats.cpp', 'status_page.cpp')], link=['-Wl,--wrap=_ZNSt6chrono3_V212steady_clock3nowEv']), cwd=cwd)


def hx(s):
    s = s if isinstance(s, bytes) else s.encode('utf-8', 'surrogateescape')
    return s.hex() or '-'


def batch(rc, d, part, cases):
    """cases: (key, what, cmd, check(got) -> (ok, expected))"""
    cases = list(cases)
    try:
        got = d.batch([c[2] for c in cases])
    except B.Crash as e:
        i = next((c for c in cases if c[2] == e.cmd), cases[0])
        rc.violation(part, i[1], 'an answer', 'abnormal end: ' + e.err, [e.cmd], 'app')
        return False
    for c, g in zip(cases, got):
        ok, exp = c[3](g)
        rc.case(part, c[0], ok, c[1], exp, g, [c[2]], 'app')
    return True


# --- C15 ---------------------------------------------------------------------------------------------------------
def c15(rc):
    rc.rules.append('seeded routers (0-8 routes, 0-3 static mappings, 0-4 middleware, in any order, requests in between) over paths and methods that are equal, prefixes of each other, empty or differ in case; '
                    'the strings used for the lookup are overwritten and freed before the handler runs; distinct: by configuration and request')
    tmp = tempfile.mkdtemp(prefix='ionverif')
    d = driver()
    try:
        dirs = []
        for i in range(4):
            p = os.path.join(tmp, 'd%d' % i)
            os.mkdir(p)
            for n in ('index.html', 'f'):
                open(os.path.join(p, n), 'wb').write(b'x' * (10 + i))
            dirs.append(p)
        rng = rc.rng
        paths = ['/', '/a', '/a/b', '/A', '', '/ab', '/a/', '/s', '/s/f', '/sf', '/s/', '/s?q', '/s/f?q=/a', '*', '/a?x', '/a\0', '/' + 'p' * 300]
        meths = ['GET', 'HEAD', 'POST', 'get', '', 'GETT', 'PUT', 'OPTIONS']
        prefixes = ['/s', '/', '/s/', '/a', '', '/sf']
        cases = []
        fixed = [
            [('R', '/a', 'GET'), ('Q', '/a', 'GET'), ('Q', '/a', 'HEAD'), ('Q', '/a', 'POST'), ('Q', '/b', 'GET')],
            [('R', '/a', 'GET'), ('R', '/a', 'GET'), ('R', '/a', 'POST'), ('R', '/b', 'GET'), ('Q', '/a', 'GET'), ('Q', '/a', 'POST'), ('Q', '/b', 'GET'), ('Q', '/b', 'POST')],
            [('M',), ('M',), ('M',), ('Q', '/x', 'GET'), ('R', '/x', 'GET'), ('Q', '/x', 'GET'), ('M',), ('Q', '/x', 'GET'), ('S', '/', 0), ('Q', '/f', 'GET'), ('Q', '/f', 'HEAD'), ('Q', '/f', 'POST')],
            [('S', '/s', 1), ('R', '/s/f', 'GET'), ('Q', '/s/f', 'GET'), ('Q', '/s/f', 'HEAD'), ('Q', '/s/f', 'PUT')],
        ]
        for n in range(rc.scale(400)):
            ops = []
            if n < len(fixed):
                ops = fixed[n]
            else:
                few_p = rng.sample(paths, rng.randint(1, 6))
                few_m = rng.sample(meths, rng.randint(1, 4))
                k = [0, 0, 0]
                for _ in range(rng.randint(1, 22)):
                    w = rng.random()
                    if w < 0.3 and k[0] < 8:
                        k[0] += 1
                        ops.append(('R', rng.choice(few_p), rng.choice(few_m)))
                    elif w < 0.4 and k[1] < 3:
                        ops.append(('S', rng.choice(prefixes), k[1]))
                        k[1] += 1
                    elif w < 0.5 and k[2] < 4:
                        k[2] += 1
                        ops.append(('M',))
                    else:
                        ops.append(('Q', rng.choice(few_p if rng.random() < 0.8 else paths), rng.choice(few_m if rng.random() < 0.8 else meths)))
            exp = []
            routes, statics, mws = [], [], 0
            toks = []
            for o in ops:
                if o[0] == 'R':
                    toks.append('R:%s:%s' % (hx(o[1]), hx(o[2])))
                    routes.append((o[1], o[2]))
                elif o[0] == 'S':
                    toks.append('S:%s:%s' % (hx(o[1]), hx(dirs[o[2]])))
                    statics.append((o[1], o[2]))
                elif o[0] == 'M':
                    toks.append('M')
                    mws += 1
                else:
                    toks.append('Q:%s:%s' % (hx(o[1]), hx(o[2])))
                    pre = ''.join(' m%d' % i for i in range(mws))
                    post = ''.join(' /m%d' % i for i in reversed(range(mws)))
                    r = next((i for i, x in enumerate(routes) if x == (o[1], o[2])), None)
                    if r is not None:
                        exp.append([re.escape('%s r%d(%s,%s,1)%s -> %d -' % (pre, r, hx(o[1]), hx(o[2]), post, 200 + r))])
                        continue
                    alt = []
                    if o[2] in ('GET', 'HEAD'):
                        for pf, dn in statics:
                            if o[1].startswith(pf):
                                alt.append(re.escape('%s%s -> ' % (pre, post)) + static_answer(o[1][len(pf):], dn, o[2] == 'HEAD'))
                    exp.append(alt or [re.escape('%s%s -> 404 -' % (pre, post))])

            def check(g, exp=exp):
                got = g.split('|')[1:]
                if not exp:
                    return got == [''], ''
                return len(got) == len(exp) and all(any(re.fullmatch(a, x) for a in e) for e, x in zip(exp, got)), ' | '.join('/'.join(e) for e in exp)
            cases.append((tuple(toks), 'router %s' % (ops,), 'route ' + ' '.join(toks), check))
        batch(rc, d, 'routing', cases)
    finally:
        d.close()
        shutil.rmtree(tmp)


def static_answer(rest, dn, head):
    rest = rest.split('?')[0]
    if rest in ('', '/'):
        rest = '/index.html'
    if rest.startswith('/'):
        rest = rest[1:]
    if rest not in ('index.html', 'f'):
        return '(404|403) -'
    mime = 'text/html; charset=utf-8' if rest == 'index.html' else 'application/octet-stream'
    n = 10 + dn
    if head:
        return re.escape('200 - %s:%s %s:%s' % (hx('content-length'), hx(str(n)), hx('content-type'), hx(mime)))
    return re.escape('200 %s %s:%s' % ((b'x' * n).hex(), hx('content-type'), hx(mime)))


# --- C16 ---------------------------------------------------------------------------------------------------------
def tree():
    """a scratch directory with a base, a sibling whose name it starts, links in and out, and a directory outside"""
    tmp = os.path.realpath(tempfile.mkdtemp(prefix='ionverif'))
    os.chmod(tmp, 0o755)
    p = lambda *a: os.path.join(tmp, *a)
    for d in ('base/d/e', 'base2', 'outside/sub', 'bas', 'base/..d', 'base/ d'):
        os.makedirs(p(d))
    for f in ('base/index.html', 'base/f', 'base/d/g', 'base/d/e/h.css', 'base2/s', 'outside/secret', 'outside/sub/f', 'plain', 'secret', 'base/..d/f', 'base/...', 'base/ d/f', 'bas/f', 'base/d/index.html'):
        open(p(f), 'w').write('contents of ' + f)
    for n, t in (('out', '../outside'), ('sec', '../outside/secret'), ('in', 'd'), ('self', 'self'), ('dang', '../outside/none'), ('up', '..'), ('abs', p('base', 'd')),
                 ('absout', p('outside')), ('d/out', '../../outside'), ('chain', 'out'), ('d/back', '..'), ('dot', '.'), ('sib', '../base2'), ('dangin', 'none')):
        os.symlink(t, p('base', n))
    os.symlink('base', p('lbase'))
    return tmp


def within(x, base):
    return x == base or x.startswith(base.rstrip('/') + '/')


COMPONENTS = ['', '.', '..', '..', 'd', 'e', 'f', 'g', 'in', 'out', 'sec', 'self', 'dang', 'up', 'abs', 'absout', 'chain', 'back', 'dot', 'sib', 'dangin', 'missing', 'missing', 'base', 'base2', 'outside', 'secret', 'sub', '...', '..d', ' d',
              'index.html', 's', 'plain', 'nothing', '..%2f', '%2e%2e', '..\\..\\secret', '~', '..\0', 'f\0x', 'n' * 300, 'caf\u00e9']


def requests(rng, tmp, n):
    fixed = ['', '/', '.', '..', '../', '../base2/s', '../base2', '../basex', '../bas/f', tmp + '/outside/secret', tmp + '/base/f', tmp + '/base2/s', tmp + '/base', tmp, '//', '//f', 'out/secret', 'sec', 'chain/sub/f', 'd/out/secret',
             'missing/../out/secret', 'missing/../sec', 'missing/../../outside/secret', 'missing/../../base/f', 'missing/../absout/secret', 'd/missing/../out/secret', 'missing/x/../../chain/secret', 'missing/./../sec', 'f/../../outside/secret',
             'f/..', 'f/', 'd/', 'd/e/', 'up/outside/secret', 'up/base/f', 'd/back/f', 'd/back/../outside/secret', 'self', 'self/f', 'dang', 'dang/..', 'dang/../out/secret', 'dangin/../sec', 'dot/dot/dot/f', 'in/../f', 'in/../../outside/secret',
             'sib/s', '/'.join(['n' * 255] * 20), 'n' * 5000, '/'.join(['..'] * 200) + tmp + '/outside/secret', '/'.join(['dot'] * 60) + '/f', 'out/../base/f', 'out/../../x', '../lbase/f', '\0', 'f\0', '..\0/secret', 'out\0', 'missing/..\0/../out/secret']
    yield from fixed
    for _ in range(n):
        k = rng.randint(1, 7)
        s = '/'.join(rng.choice(COMPONENTS) for _ in range(k))
        r = rng.random()
        if r < 0.1:
            s = tmp + '/' + s
        elif r < 0.15:
            s = '/' + s
        elif r < 0.2:
            s = '//' + s
        yield s


def c16(rc):
    rc.rules.append('bases (plain, trailing slash, dot segments, symbolic link, relative, empty, missing, regular file, self-referring link) x requests built from names, dot segments, links in, out and broken, absolute paths, sibling prefixes, '
                    'over-long names and NUL octets, in a scratch directory; oracle: os.path.realpath and the kernel\'s own resolution; distinct: by base and request')
    tmp = tree()
    d = None
    try:
        base = os.path.join(tmp, 'base')
        d = driver(cwd=tmp)
        bases = [base, base + '/', base + '/.', base + '/../base', os.path.join(tmp, 'lbase'), 'base', './base//', '.', tmp + '/base/up/base', '', os.path.join(tmp, 'none'), os.path.join(tmp, 'plain'), os.path.join(base, 'self'),
                 os.path.join(base, 'dang'), '/' + 'n' * 300, os.path.join(tmp, 'none', '..', 'base')]
        cases = []
        for bi, b in enumerate(bases):
            isdir = os.path.isdir(os.path.join(tmp, b)) if b else False
            real = os.path.realpath(os.path.join(tmp, b)) if isdir else None
            for r in requests(rc.rng, tmp, rc.scale(500 if bi == 0 else 60)):
                cases.append(((b, r), 'base %r request %r' % (b[:80], r[:200]), 'sanitize %s %s' % (hx(b), hx(r)), lambda g, b=b, r=r, isdir=isdir, real=real: resolved(tmp, b, r, isdir, real, g)))
        batch(rc, d, 'resolution', cases)
        # what a mapping answers with comes from inside
        cases = []
        real = os.path.realpath(base)
        inside = set()
        for dp, _, fs in os.walk(base):
            for f in fs:
                x = os.path.join(dp, f)
                if os.path.isfile(x) and within(os.path.realpath(x), real):
                    inside.add(open(x, 'rb').read().hex())
        for pf in ('/s', '/', ''):
            for r in requests(rc.rng, tmp, rc.scale(150)):
                for head in (0, 1):
                    path = pf + ('/' if rc.rng.random() < 0.7 else '') + r

                    def check(g, head=head):
                        a = g.split(' ')
                        if a[0] == '200':
                            return head == 1 or a[1] in inside, 'a file of the base directory, or 403/404'
                        return a[0] in ('403', '404') and a[1] == '-', '403 or 404'
                    cases.append(((pf, path, head), 'mapping %r of base, %s %r' % (pf, 'HEAD' if head else 'GET', path[:200]), 'static %s %s %d %s' % (hx(pf), hx(base), head, hx(path)), check))
        batch(rc, d, 'served', cases)
    finally:
        if d:
            d.close()
        shutil.rmtree(tmp)


def resolved(tmp, b, r, isdir, real, g):
    if not isdir:
        return g == 'refused', 'refused: the base is not a directory'
    got = bytes.fromhex(g[5:].replace('-', '')).decode('utf-8', 'surrogateescape') if g.startswith('path ') else None
    cut = lambda s: s.split('\0')[0]
    if got is not None:
        x = cut(got)
        if not os.path.isabs(x):
            return False, 'an absolute path'
        if os.path.lexists(x) and os.path.exists(x) and not within(os.path.realpath(x), real):
            return False, 'refused: %r is outside' % os.path.realpath(x)
        if not within(os.path.normpath(x), real):
            return False, 'refused: outside'
    if '\0' in r:
        return True, 'anything that stays inside'
    t = os.path.join(real, r)
    try:
        there = os.path.exists(t)
    except OSError:
        there = False
    if there:
        w = os.path.realpath(t)
        if within(w, real):
            return got is not None and os.path.normpath(got) == w, 'path %s' % w
        return got is None, 'refused: %s is outside' % w
    parts = r.split('/')
    if '..' not in parts and not r.startswith('/') and all(len(x) < 255 for x in parts) and len(r) < 2000 and not any(os.path.islink(os.path.join(real, *parts[:i + 1])) for i in range(len(parts))):
        w = os.path.realpath(t)
        return got is not None and os.path.normpath(got) == w, 'path %s (nothing there, inside)' % w
    return True, 'refused, or a path inside'


# --- C17 ---------------------------------------------------------------------------------------------------------
MIMES = {'.html': 'text/html; charset=utf-8', '.htm': 'text/html; charset=utf-8', '.css': 'text/css; charset=utf-8', '.js': 'application/javascript; charset=utf-8', '.json': 'application/json',
         '.xml': 'application/xml', '.png': 'image/png', '.jpg': 'image/jpeg', '.jpeg': 'image/jpeg', '.gif': 'image/gif', '.svg': 'image/svg+xml', '.ico': 'image/x-icon',
         '.txt': 'text/plain; charset=utf-8', '.pdf': 'application/pdf', '.zip': 'application/zip', '.woff': 'font/woff', '.woff2': 'font/woff2', '.ttf': 'font/ttf', '.webp': 'image/webp'}


def mime(path):
    i = path.rfind('.')
    return MIMES.get(path[i:] if i >= 0 else '', 'application/octet-stream')


def c17(rc):
    rc.rules.append('every extension of the table, near misses (case, suffixes, several dots, dots in directory names), sizes 0 to 3 MB, directories, sockets, pipes, links and unreadable files (driver as an unprivileged user), '
                    'prefixes, queries, GET and HEAD; distinct: by request')
    tmp = os.path.realpath(tempfile.mkdtemp(prefix='ionverif'))
    os.chmod(tmp, 0o755)
    d = None
    try:
        rng = rc.rng
        root = os.path.join(tmp, 'root.css')
        os.makedirs(root + '/dir.html/x')
        os.chmod(root, 0o755)
        names = ['a' + e for e in MIMES] + ['a' + e + 'x' for e in MIMES] + ['A' + e.upper() for e in MIMES] + list(MIMES) + ['plain', 'a.b.html', 'a.html.b', 'a.', '.a', 'a..js', 'dir.html/f', 'dir.html/x/y.png', 'index.html', 'dir.html/index.html', 'q?x', 'a b.txt',
                 'caf\u00e9.css', 'a.tar.zip', 'x.json5', 'html', 'index.htm', 'index', '%41.html']
        sizes = [0, 1, 2, 255, 256, 4095, 4096, 4097, 8191, 8192, 8193, 65536, 100000, 3000000]
        content = {}
        for i, n in enumerate(names):
            c = rng.randbytes(sizes[i % len(sizes)] if i < len(sizes) else rng.randint(0, 600))
            if rng.random() < 0.2:
                c = c.replace(b'x', b'\r\n') + b'\0\xff\r\n'
            content[n] = c
            open(os.path.join(root, n), 'wb').write(c)
        os.mkfifo(os.path.join(root, 'pipe.html'))
        for n, m in (('secret.html', 0), ('wonly.html', 0o222)):
            open(os.path.join(root, n), 'wb').write(b'secret')
            os.chmod(os.path.join(root, n), m)
        os.mkdir(os.path.join(root, 'closed'), 0o755)
        open(os.path.join(root, 'closed', 'f'), 'w').write('secret')
        os.chmod(os.path.join(root, 'closed'), 0)
        os.symlink('a.html', os.path.join(root, 'link.css'))
        os.symlink('dir.html', os.path.join(root, 'ldir.css'))
        os.symlink('nothing', os.path.join(root, 'dang.css'))
        unpriv = False
        d = driver(cwd=tmp)
        if os.getuid() == 0:
            unpriv = d.ask('setuid 65534') == 'ok'
        else:
            unpriv = True
        if not unpriv:
            rc.limit('unreadable files not exercised: no unprivileged user')
        # names -> (status, content, type)
        table = {n: (200, c, mime(n)) for n, c in content.items()}
        table['link.css'] = (200, content['a.html'], mime('a.html'))
        table['ldir.css/f'] = (200, content['dir.html/f'], mime('/dir.html/f'))
        for n in ('pipe.html', 'dir.html', 'dir.html/', 'dir.html/x', 'closed', 'none', 'none.html', 'a.html/b', 'dang.css', 'dir.html/x/', '.', 'ldir.css'):
            table[n] = (404, None, None)
        if unpriv:
            for n in ('secret.html', 'wonly.html'):
                table[n] = (404, None, None)
            table['closed/f'] = (None, None, None)       # the directory may not even be searched: refused either way
        table['../x'] = (403, None, None)
        cases = []

        def add(pf, path, head, want, nofd=False):
            st, c, t = want

            def check(g):
                if st is None:
                    return g in ('403 -', '404 -'), '403 or 404'
                if st != 200:
                    return g == '%d -' % st, '%d -' % st
                if head:
                    w = {'200 - %s:%s %s:%s' % (hx('content-length'), hx(str(len(c))), hx('content-type'), hx(t)), '200 - %s:%s %s:%s' % (hx('content-type'), hx(t), hx('content-length'), hx(str(len(c))))}
                    return g in w, min(w)
                w = {'200 %s %s:%s' % (c.hex() or '-', hx('content-type'), hx(t))}
                a = g.split(' ')
                cl = '%s:%s' % (hx('content-length'), hx(str(len(c))))
                return ' '.join(x for x in a if x != cl) in w, min(w)[:300]
            if nofd and st == 200 and not head:
                cases.append(((pf, path, 'nofd'), 'mapping %r, GET %r while no descriptor is left' % (pf, path), 'static-nofd %s %s 0 %s' % (hx(pf), hx(root), hx(path)), lambda g: (g in ('500 -', '404 -'), '500 -')))
            cases.append(((pf, path, head), 'mapping %r, %s %r' % (pf, 'HEAD' if head else 'GET', path), 'static %s %s %d %s' % (hx(pf), hx(root), head, hx(path)), check))
        for n, w in table.items():
            for head in (0, 1):
                if '?' in n:
                    add('/s', '/s/' + n, head, (404, None, None))
                    continue
                add('/s', '/s/' + n, head, w, n in ('plain', 'index.html', 'a.json'))
                pf = rng.choice(['/', '', '/long/prefix', '/s?', '/a.b', '/dir.html'])
                if not (pf == '' and n.startswith('/')):
                    add(pf, pf + rng.choice(['/', '']) + n + rng.choice(['', '?', '?a=b', '?/../../x', '?a?b', '?.html', '?#x']), head, w)
        for n in ('//a.html', '///a.html', '//etc/passwd', '//'):
            for head in (0, 1):
                add('/s', '/s' + n, head, (403, None, None))
        try:
            with open(os.path.join(root, 'huge.zip'), 'wb') as fh:
                fh.truncate(5 * 2 ** 30 + 7)         # sparse
            huge = 'static %s %s 1 %s' % (hx('/s'), hx(root), hx('/s/huge.zip'))
            cases.append(('huge', 'HEAD of a file of 5 GiB', huge, lambda g: (hx('content-length') + ':' + hx(str(5 * 2 ** 30 + 7)) in g.split(' '), 'content-length 5368709127')))
        except OSError as e:
            rc.limit('no file above 4 GiB: %s' % e)
        idx = table['index.html']
        for head in (0, 1):
            for pf in ('/s', '/', '', '/s/'):
                for rest in ('', '/', '?', '/?', '?a', '/?a/b', '/index.html', 'index.html'):
                    add(pf, pf + rest, head, idx)
        batch(rc, d, 'answers', cases)
        cases = []
        for e, t in MIMES.items():
            for x in (e, 'a' + e, '/x.y/a' + e, 'a.png' + e, '/a' + e + e):
                cases.append((x, 'type of %r' % x, 'mime ' + hx(x), lambda g, t=t: (g == hx(t), hx(t))))
            for x in (e[1:], e + 'x', e + '/', e + '/a', e + ' ', e.upper(), e[:-1] if e[:-1] not in MIMES else e + '.', e + '.', e + '.bak', 'a' + e + '?', e + '\0'):
                cases.append((x, 'type of %r' % x, 'mime ' + hx(x), lambda g, x=x: (g == hx(mime(x)), hx(mime(x)))))
        for x in ('', '.', '/', 'a', 'a.', 'a/b', '.a/b'):
            cases.append((x, 'type of %r' % x, 'mime ' + hx(x), lambda g, x=x: (g == hx(mime(x)), hx(mime(x)))))
        batch(rc, d, 'types', cases)
        cases = []
        for n, w in table.items():
            if '..' in n or w[0] is None or n == 'q?x':
                continue
            f = os.path.join(root, n)
            if w[0] == 200:
                e = 'readable size %d content %s' % (len(w[1]), w[1].hex() or '-')
                cases.append((n, 'file %r' % n, 'file ' + hx(f), lambda g, e=e: (g == e, e[:300])))
            elif n not in ('pipe.html',):
                cases.append((n, 'file %r' % n, 'file ' + hx(f), lambda g: (g.startswith('unreadable '), 'unreadable')))
        batch(rc, d, 'files', cases)
    finally:
        if d:
            d.close()
        os.chmod(os.path.join(tmp, 'root.css', 'closed'), 0o755) if os.path.exists(os.path.join(tmp, 'root.css', 'closed')) else None
        shutil.rmtree(tmp)


# --- C20 ---------------------------------------------------------------------------------------------------------
def esc(b):
    o = bytearray()
    for c in b:
        if c in b'"\\':
            o += b'\\' + bytes([c])
        elif c < 0x20 or c == 0x7f:
            o += b'\\x%02x' % c
        else:
            o.append(c)
    return bytes(o)


LOGLINE = re.compile(rb'(\S+) - - (\[\d\d/[A-Z][a-z][a-z]/\d{4}:\d\d:\d\d:\d\d [+-]\d{4}\]) "((?:[^"\\]|\\.)*)" (\d+) (\d+) "((?:[^"\\]|\\.)*)" "((?:[^"\\]|\\.)*)"', re.S)


def log_line(hs, status, size, ip):
    """the entry, with the time stamp as None"""
    f = lambda n: next((esc(v) for k, v in hs if k == n), b'-')
    return (ip or b'-', b'%s %s HTTP/2' % (f(b':method'), f(b':path')), b'%d' % status, b'%d' % size, f(b'referer'), f(b'user-agent'))


def same_line(g, want):
    m = LOGLINE.fullmatch(g)
    if not m or any(c < 0x20 or c == 0x7f for c in g):
        return False
    return (m.group(1), m.group(3), m.group(4), m.group(5), m.group(6), m.group(7)) == want


ODD = [b'', b'-', b'"', b'\\', b'\n', b'\r\n', b'a"b', b'\\"', b'\\\\"', b'x\\', b'"\n127.0.0.1 - - [x] "GET / HTTP/2" 200 0 "-" "-', b'\0', b'\x7f', b'\x1b[2J', b'\t', b'{}', b'{0} %s %n', b'\xff\xfe', 'caf\u00e9'.encode(), b'a b', b'x' * 5000, bytes(range(256))]


def c20(rc):
    from real import conn as K
    rc.rules.append('header values over every octet, quotes, backslashes, line ends, format placeholders, long values; headers absent, repeated, in any order and case; statuses and sizes up to the type\'s range; read back from the log file of a real spdlog logger; '
                    'and whole connections (several requests, 400, 404, 500, streams refused) whose log lines are counted; logging on and off; distinct: by request')
    rng = rc.rng
    tmp = os.path.realpath(tempfile.mkdtemp(prefix='ionverif'))
    d = driver(cwd=tmp)
    try:
        path = os.path.join(tmp, 'access.log')
        names = [b':method', b':path', b'user-agent', b'referer']
        cases = []
        for n in names:
            for v in ODD + [bytes([c]) for c in range(256)]:
                cases.append(([(n, v)], 200, 0, b'1.2.3.4'))
        base = [(b':method', b'GET'), (b':path', b'/a?b=c'), (b'user-agent', b'curl/8'), (b'referer', b'http://x/')]
        for st in (0, 1, 100, 200, 404, 999, 65535):
            for sz in (0, 1, 9, 10, 4294967295, 4294967296, 2 ** 64 - 1):
                cases.append((base, st, sz, b'1.2.3.4'))
        for ip in (b'', b'::1', b'fe80::1', b'255.255.255.255'):
            cases.append((base, 200, 5, ip))
            cases.append(([], 200, 5, ip))
        for _ in range(rc.scale(300)):
            hs = []
            for _ in range(rng.randint(0, 9)):
                n = rng.choice(names + names + [b'User-Agent', b'Referer', b'referrer', b'x', b'', b'cookie', b'method', b':authority', b'user-agent ', b'x-user-agent'])
                v = rng.choice(ODD) if rng.random() < 0.5 else bytes(rng.randrange(256) for _ in range(rng.randint(0, 12)))
                hs.append((n, v))
            cases.append((hs, rng.randrange(65536), rng.randrange(1 << rng.randint(1, 40)), rng.choice([b'', b'10.0.0.1', b'::1'])))
        d.ask('logto ' + hx(path))
        cmds = ['log %d %d %s %s' % (st, sz, hx(ip), ' '.join('%s:%s' % (hx(n), hx(v)) for n, v in hs)) for hs, st, sz, ip in cases]
        try:
            got = d.batch(cmds)
        except B.Crash as e:
            rc.violation('line', 'logging', 'an answer', 'abnormal end: ' + e.err, [e.cmd], 'app')
            return
        lines = open(path, 'rb').read().split(b'\n')
        rc.case('lines', 'count', len(lines) == len(cases) + 1 and lines[-1] == b'', '%d requests' % len(cases), '%d lines' % len(cases), '%d lines' % (len(lines) - 1), cmds[:50], 'app')
        for i, (hs, st, sz, ip) in enumerate(cases):
            want = log_line(hs, st, sz, ip)
            g = lines[i] if i < len(lines) else b''
            rc.case('line', (tuple(hs), st, sz, ip), got[i] == 'ok' and same_line(g, want), 'request %r status %d size %d from %r' % (hs, st, sz, ip), repr(want), repr(g) if got[i] == 'ok' else got[i], ['logto ' + hx(path), cmds[i]], 'app')
        d.ask('logto -')
        d.batch(cmds[:20])
        rc.case('off', 'off', open(path, 'rb').read().count(b'\n') == len(lines) - 1, 'logging off', 'no line', 'lines', cmds[:20], 'app')
    finally:
        d.close()
        shutil.rmtree(tmp)
    # through a connection
    d = K.driver()
    try:
        for k in range(rc.scale(60)):
            streams, want, sid = [], [], 1
            on = k % 5 != 4
            for _ in range(rng.randint(1, 5)):
                m = rng.choice([b'GET', b'GET', b'POST', b'"', b'G\nT'])
                p_ = rng.choice([b'/', b'/', b'/empty', b'/throw', b'/nope', b'/x"y', b'/big'])
                ex = [(n, rng.choice(ODD)[:4000]) for n in rng.sample([b'user-agent', b'referer', b'x'], rng.randint(0, 3))]
                hs = [(b':method', m), (b':path', p_)] + ex
                if rng.random() < 0.15:
                    hs.insert(2, (b':path', b'/other'))
                if rng.random() < 0.1:
                    del hs[rng.randrange(2)]
                if rng.random() < 0.2:
                    rng.shuffle(hs)
                first = lambda n: next((v for a, v in hs if a == n), None)
                mm, pp = first(b':method'), first(b':path')
                st, sz = (400, 0) if mm is None or pp is None else (200, 5) if (mm, pp) == (b'GET', b'/') else (204, 0) if (mm, pp) == (b'GET', b'/empty') else (500, 0) if (mm, pp) == (b'GET', b'/throw') else (200, 40000) if (mm, pp) == (b'GET', b'/big') else (404, 0)
                streams.append(K.frame(1, 5, sid, K.blk(*hs)))
                if rng.random() < 0.2:
                    streams.append(K.frame(rng.choice([8, 11]), 0, 0, bytes(4)))
                want.append(log_line(hs, st, sz, b'9.8.7.6'))
                sid += 2
            cmds = ['reset', 'accesslog %d' % on, 'lines', 'route %s %s 200 #5' % (hx(b'GET'), hx(b'/')), 'route %s %s 204 -' % (hx(b'GET'), hx(b'/empty')), 'route %s %s 200 throw' % (hx(b'GET'), hx(b'/throw')),
                    'route %s %s 200 #40000' % (hx(b'GET'), hx(b'/big')), 'new 1 9.8.7.6', 'rx 1 ' + (K.PREFACE + b''.join(streams)).hex()] + ['proc 1'] * 4 + ['lines']
            try:
                g = d.batch(cmds)
            except B.Crash as e:
                rc.violation('connection', 'requests', 'an answer', 'abnormal end: ' + e.err, cmds, 'conn')
                return
            got = [bytes.fromhex(x) for x in g[-1].split(' ')[1:]]
            ok = len(got) == (len(want) if on else 0) and all(same_line(a, b) for a, b in zip(got, want))
            rc.case('connection', k, ok, '%d requests, logging %s' % (len(want), 'on' if on else 'off'), repr(want if on else []), repr(got), cmds, 'conn')
    finally:
        d.close()


# --- C25 ---------------------------------------------------------------------------------------------------------
def duration(n):
    d, h, m, s = n // 86400, n // 3600 % 24, n // 60 % 60, n % 60
    return ''.join('%d%s ' % x for i, x in enumerate(((d, 'd'), (h, 'h'), (m, 'm'))) if any((d, h, m)[:i + 1])) + '%ds' % s


def c25(rc):
    rc.rules.append('durations at and around every unit boundary, its multiples, powers of two and seeded values; seeded histories of 0-20 requests over status codes 0-65535 and throwing handlers; '
                    'pages with seeded uptimes and counts; distinct: by duration, history and page')
    d = driver()
    try:
        rng = rc.rng
        ns = set(range(0, 200)) | {2 ** k + e for k in range(64) for e in (-1, 0, 1)} | {2 ** 64 - 1}
        for u in (60, 3600, 86400, 86400 * 10, 86400 * 365):
            for k in (1, 2, 3, 9, 10, 23, 24, 25, 59, 60, 61, 99, 100):
                ns |= {u * k + e for e in (-3600, -61, -60, -1, 0, 1, 59, 60, 61, 3599, 3600)}
        ns |= {rng.randrange(1 << rng.randint(1, 64)) for _ in range(rc.scale(2000))}
        cases = []
        for n in sorted(x for x in ns if 0 <= x < 1 << 64):
            w = duration(n)
            cases.append((n, '%d seconds' % n, 'duration %d' % n, lambda g, w=w: (g == hx(w), repr(w))))
        if not batch(rc, d, 'duration', cases):
            return
        cases = []
        for k in range(rc.scale(300)):
            pool = rng.sample([200, 204, 301, 304, 400, 404, 500, 503, 0, 65535, 256, 712], rng.randint(1, 4)) + rng.sample(KINDS, 3)
            hist = [] if k == 0 else [rng.choice(pool) for _ in range(rng.randint(1, 20))]
            cnt = {}
            for x in hist:
                c = x if isinstance(x, int) else 500
                cnt[c] = cnt.get(c, 0) + 1
            hist = [(x, rng.choice([0, 1, 999, 1000, 1001, 1999, 10 ** 6, 10 ** 9, rng.randrange(1 << rng.randint(1, 40))])) for x in hist]
            took = sum(n // 1000 for x, n in hist if isinstance(x, int))
            both = {took, took + sum(n // 1000 for x, n in hist if not isinstance(x, int))}       # a handler that throws need not be timed
            w = 'same total %d us:%s' % (len(hist), '/'.join(map(str, sorted(both)))) + ''.join(' %d=%d' % x for x in sorted(cnt.items()))

            def hcheck(g, w=w, both=both):
                gs, ws = g.split(), w.split()
                return sorted(gs[4:]) == sorted(ws[4:]) and gs[:3] == ws[:3] and gs[3] in ['us:%d' % b for b in both], w
            cases.append((tuple(hist), 'a history of %s' % hist, 'stats ' + ' '.join('%s@%d' % h for h in hist), hcheck))
        if not batch(rc, d, 'history', cases):
            return
        cases = []
        for k in range(rc.scale(120)):
            up = rng.choice([0, 5, 59, 60, 3599, 3600, 86399, 86400, 90061, rng.randrange(1 << rng.randint(1, 30))])
            codes = {rng.choice([200, 204, 404, 500, 65535, 0, rng.randrange(65536)]): rng.choice([1, 9, 10, 2 ** 32, 2 ** 64 - 1, rng.randrange(1 << rng.randint(1, 64))]) for _ in range(rng.randint(0, 6) if k else 0)}
            total = rng.choice([1, 2, 10, 2 ** 32, 2 ** 63, rng.randrange(1, 1 << rng.randint(1, 63))])
            us = rng.choice([0, 1, 10, 1500, 2 ** 31, 2 ** 32 + 7, rng.randrange(1 << rng.randint(1, 62)), min(total * rng.randrange(1, 100000), 2 ** 62)])

            def check(g, up=up, codes=codes, total=total, us=us):
                exp = 'uptime %s, %d requests, average latency %.2fms, codes %s' % (duration(up), total, us / total / 1000, sorted(codes.items()))
                m = re.match(r'(\d+)', g)
                hexes = [x for x in re.split(r'[ :=]', g) if len(x) > 400]
                if len(hexes) != 1 or not g.split()[0].endswith('200'):
                    return False, exp
                t = bytes.fromhex(hexes[0]).decode()
                t = re.sub(r'(?s)<style.*?</style>', ' ', t)
                t = re.sub(r'<[^>]*>', ' ', t).split()
                d_ = duration(up).split()
                late = [duration(up + e).split() for e in (0, 1)]       # a slow machine may be a second late
                i, j = t.index('Uptime') + 1, t.index('Requests') + 1
                ok = t[i:j - 1] in late and t[j] == str(total)
                lat = t[t.index('Latency') + 1]
                ok = ok and bool(re.fullmatch(r'\d+\.\d\dms', lat)) and abs(float(lat[:-2]) - us / total / 1000) <= 0.0051 + us / total / 1000 * 1e-9
                k = t.index('Codes') + 1
                e = t.index('powered')
                got = t[k:e]
                if codes:
                    ok = ok and len(got) == 2 * len(codes) and {got[2 * x]: got[2 * x + 1] for x in range(len(codes))} == {str(a): str(b) for a, b in codes.items()}
                return ok, exp
            cases.append(((up, total, tuple(sorted(codes.items()))), 'the page %d s after the start' % up, 'page %d %d %d %s' % (up * 1000 + 200, total, us, ' '.join('%d=%d' % x for x in codes.items())), check))
        batch(rc, d, 'page', cases)
    finally:
        d.close()

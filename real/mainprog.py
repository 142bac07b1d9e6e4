"""the whole program with Http2Server::start replaced by a probe (drivers/mainprog.cpp): every option (C30)"""
import itertools, os, re, shutil, subprocess, tempfile
from vc import build as B

APP = ('main', 'args', 'signal_handler', 'proc_ctrl', 'server_stats', 'status_page', 'test_routes', 'trace_id_flag')
WRAP = ('socket', 'prctl', '_ZN3ion11Http2Server5startEt')


def exe():
    return B.build('mainprog', B.all_lib() + [os.path.join(B.REPO, 'app', n + '.cpp') for n in APP], link=['-Wl,--wrap=%s' % w for w in WRAP])


def hx(s):
    s = s if isinstance(s, bytes) else s.encode()
    return s.hex() or '-'


class Run:
    def __init__(self, x, cwd, args, reqs=(), **env):
        self.args, self.reqs, self.env = args, reqs, env
        e = dict(B.ENV, OTEL_SDK_DISABLED='true', ION_REQUESTS=' '.join('%s %s' % (hx(m), hx(p)) for m, p in reqs))
        for k in ('ION_TLS_CERT_PATH', 'ION_TLS_KEY_PATH'):
            e.pop(k, None)
        e.update(env)
        try:
            p = subprocess.run([x] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            self.rc, self.raw = p.returncode, p.stdout.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired as t:
            self.rc, self.raw = 'no end', (t.stdout or b'').decode('utf-8', 'replace')
        self.answers, self.start, self.lines = [], None, []
        for l in self.raw.split('\n'):
            w = l.split()
            if w[:2] == ['@@', 'answer']:
                h = [tuple(bytes.fromhex(y.replace('-', '')) for y in z.split('=')) for z in w[6:]]
                self.answers.append((w[4], bytes.fromhex(w[5].replace('-', '')), h))
            elif w[:2] == ['@@', 'start']:
                self.start = dict(port=int(w[2]), privs=int(w[4]), level=int(w[6]), again=int(w[8]))
            elif w[:1] == ['@@']:
                self.lines.append(' '.join(w[1:]))

    def cmds(self):
        return ['%s ion-server %s' % (' '.join('%s=%s' % kv for kv in sorted(self.env.items())), ' '.join(self.args))] + ['%s %s' % (m, p) for m, p in self.reqs]


LEVELS = dict(trace=0, debug=1, info=2, warn=3, error=4, critical=5, off=6)
TESTS = ('/_tests/ok', '/_tests/no_content', '/_tests/no_new_privs', '/_tests/medium_body', '/_tests/large_body')


def c30(rc):
    rc.rules.append('app/main.cpp with Http2Server::start replaced by a probe: every combination of --under-test, --status-page, --static, --custom-404-file-path and --access-log, with requests over routes, methods and files; ports; log levels; refused options; failures and signals; distinct: by that combination')
    tmp = tempfile.mkdtemp(prefix='ionverif')
    try:
        _c30(rc, exe(), tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _c30(rc, x, tmp):
    www = os.path.join(tmp, 'www')
    os.mkdir(www)
    files = {'index.html': b'<p>index</p>', 'a.txt': b'text\n', 'b.css': b'p{}', 'empty.js': b''}
    for n, b in files.items():
        open(os.path.join(www, n), 'wb').write(b)
    page = b'<h1>not here</h1>\x00\xff'
    open(os.path.join(tmp, '404.html'), 'wb').write(page)
    types = {'index.html': b'text/html', 'a.txt': b'text/plain', 'b.css': b'text/css', 'empty.js': b'javascript'}
    reqs = [(m, p) for m in ('GET', 'HEAD', 'POST') for p in ('/', '/nope', '/s/a.txt', '/s/', '/s/missing', '/s/b.css?x=1', '/_ion/status', '/_tests/ok', '/_tests/nope')] + [('GET', t) for t in TESTS] + [('GET', '/s/empty.js'), ('GET', '/sx'), ('GET', '/S/a.txt')]
    codes = (200, 204, 206, 301, 304, 400, 403, 405, 410, 429, 500, 503, 504, 404)
    reqs += [('GET', '/probe/%d' % c) for c in codes]
    log = os.path.join(tmp, 'access.log')
    ok = True

    def expect(test, page_, static, p404, m, p):
        """(status, body or None: not compared, headers or None) as documented"""
        def notfound():
            if not p404:
                return '404', b'', None
            return '404', (b'' if m == 'HEAD' else page), None
        if test and m == 'GET' and p in TESTS:
            k = TESTS.index(p)
            return ('200', b'', None) if k in (0, 2) else ('204', b'', None) if k == 1 else ('200', b'A' * ((128 if k == 3 else 2048) * 1024), None)
        if p.startswith('/probe/') and m == 'GET':
            return ('404', page, None) if p404 and p.endswith('404') else (p[7:], b'own', None)
        if page_ and m == 'GET' and p == '/_ion/status':
            return '200', None, None
        if static and m in ('GET', 'HEAD') and p.startswith('/s'):
            r = p[2:].lstrip('/').split('?')[0] or 'index.html'
            if r in files:
                return '200', (b'' if m == 'HEAD' else files[r]), types[r]
            return notfound()
        return notfound()
    for test, pg, static, p404, al in itertools.product((0, 1), repeat=5):
        if not ok:
            break
        a = ['--cleartext'] + ['--under-test'] * test + ['--status-page'] * pg + (['--static', '/s', www] if static else []) + \
            (['--custom-404-file-path', os.path.join(tmp, '404.html')] if p404 else []) + (['--access-log', log] if al else [])
        if os.path.exists(log):
            os.unlink(log)
        r = Run(x, tmp, a, reqs, **(dict(ION_LOG=log) if al else {}))
        during = [bytes.fromhex(l.split()[1].replace('-', '')) for l in r.lines if l.startswith('logged')]
        r.lines = [l for l in r.lines if not l.startswith('logged')]
        nm = 'options %s' % ' '.join(a[1:])
        good = r.rc == 0 and r.start == dict(port=8443, privs=1, level=2, again=0) and r.lines == ['end'] and len(r.answers) == len(reqs)
        ok = rc.case('options', (test, pg, static, p404, al), good, nm, 'serves on port 8443 once, privileges given up, level info, ends with 0', 'exit %s %s %s' % (r.rc, r.start, r.raw[-600:]), r.cmds(), 'mainprog') is not False and good
        for (m, p), got in zip(reqs, r.answers):
            st, body, ct = expect(test, pg, static, p404, m, p)
            h = dict(got[2])
            g = got[0] == st and (body is None or got[1] == body)
            if ct is not None:
                g = g and ct in h.get(b'content-type', b'')
            if m == 'HEAD' and p404 and st == '404':
                g = g and h.get(b'content-length') == b'%d' % len(page)
            if p404 and st == '404':
                g = g and h.get(b'content-type', b'').startswith(b'text/html')
            rc.case('answers', (test, pg, static, p404, al, m, p), g, '%s: %s %s' % (nm, m, p), 'status %s, body %r' % (st, None if body is None else body[:60]), '%s %r %r' % (got[0], got[1][:60], got[2]), r.cmds(), 'mainprog')
            ok = ok and g
        there = open(log).read() if os.path.exists(log) else None
        g = (there is not None and during == [there.encode()] and there.count('\n') == 1 and there.startswith('192.0.2.1 ') and '"GET /logged' in there) if al else there is None
        rc.case('access log', (test, pg, static, p404, al), g, nm + ': the access log', 'one entry, written at once, nothing before it' if al else 'no file', repr(there), r.cmds(), 'mainprog')
        ok = ok and g
    for port in (1, 80, 443, 8080, 65535):
        for form in (['-p', str(port)], ['--port', str(port)], ['--port=%d' % port]):
            r = Run(x, tmp, ['--cleartext'] + form)
            rc.case('port', tuple(form), r.rc == 0 and r.start and r.start['port'] == port, 'port %d' % port, 'served on port %d' % port, 'exit %s %s' % (r.rc, r.start), r.cmds(), 'mainprog')
    for l, n in LEVELS.items():
        for form in (l, l.upper()):
            r = Run(x, tmp, ['--cleartext', '-l', form])
            good = r.rc == 0 and r.start and r.start['level'] == n if form == l else r.rc == 0 and r.start is not None or r.rc != 0 and r.start is None
            rc.case('level', form, good, 'log level ' + form, 'level %d' % n, 'exit %s %s' % (r.rc, r.start), r.cmds(), 'mainprog')
    # 404 pages that are not readable, not there, a directory
    for what in ('missing.html', 'www'):
        r = Run(x, tmp, ['--cleartext', '--custom-404-file-path', os.path.join(tmp, what)], [('GET', '/nope')])
        rc.case('page', what, r.rc == 0 and [a[:2] for a in r.answers] == [('404', b'')], 'a 404 page that cannot be read (%s)' % what, 'status 404 without a body', '%s %r' % (r.rc, r.answers), r.cmds(), 'mainprog')
    for f in ('l', 'x y', '-'):
        r = Run(x, tmp, ['--cleartext', '--access-log=' + f], ION_LOG=f)
        rc.case('access log', f, r.rc == 0 and os.path.exists(os.path.join(tmp, f)) and r.lines[0].startswith('logged 3139322e'), 'the access log %r' % f, 'one entry in that file', 'exit %s %s' % (r.rc, r.lines), r.cmds(), 'mainprog')
    for l in LEVELS:
        r = Run(x, tmp, ['--cleartext', '--log-level', l, '--access-log=lv' + l], ION_LOG='lv' + l)
        rc.case('access log', 'level ' + l, r.rc == 0 and r.lines and r.lines[0].startswith('logged 3139322e'), 'the access log with log level ' + l, 'one entry, written at once', 'exit %s %s' % (r.rc, r.lines), r.cmds(), 'mainprog')
    # an access log that cannot be opened does not stop the server
    r = Run(x, tmp, ['--cleartext', '--access-log', os.path.join(tmp, 'www', 'a.txt', 'log')])
    rc.case('access log', 'unusable', r.rc == 0 and r.start is not None, 'an access log that cannot be opened', 'the server serves', 'exit %s %s' % (r.rc, r.start), r.cmds(), 'mainprog')
    # refused options, help, version
    for a in (['--port', '0'], ['--port', '65536'], ['--port', 'x'], ['--port', '-1'], ['--log-level', 'loud'], ['--static', '/x'], ['--nonsense'], ['extra']):
        r = Run(x, tmp, ['--cleartext'] + a)
        rc.case('refused', tuple(a), r.rc not in (0, 99, 'no end') and r.start is None, 'refused options %s' % a, 'another exit status than 0, nothing served', 'exit %s %s' % (r.rc, r.start), r.cmds(), 'mainprog')
    for a in (['--help'], ['-h'], ['--version'], ['-v']):
        r = Run(x, tmp, a)
        rc.case('help', tuple(a), r.rc == 0 and r.start is None and r.raw.strip(), ' '.join(a), 'text, exit status 0, nothing served', 'exit %s %s' % (r.rc, r.start), r.cmds(), 'mainprog')
    # TLS without certificate, failures while serving
    r = Run(x, tmp, [])
    rc.case('failure', 'no certificate', r.rc not in (0, 99, 'no end') and r.rc > 0 and r.start is None, 'no certificate and no --cleartext', 'another exit status than 0, nothing served', 'exit %s %s' % (r.rc, r.start), r.cmds(), 'mainprog')
    for k in ('throw', 'throw:logic', 'throw:range', 'throw:system', 'throw:fs', 'throw:alloc', 'throw:call', 'throw:exception', 'throw:own'):
      for more in ([], ['--under-test'], ['--status-page'], ['--under-test', '--status-page', '--log-level', 'off']):
        r = Run(x, tmp, ['--cleartext'] + more, ION_THROWS=k)
        rc.case('failure', (k, tuple(more)), r.rc not in (0, 99, 'no end') and r.rc > 0 and r.start is not None, 'the server fails', 'another exit status than 0', 'exit %s %s' % (r.rc, r.start), r.cmds(), 'mainprog')
    r = Run(x, tmp, ['--cleartext', '--under-test'], [('GET', '/_tests/no_new_privs')], ION_PRCTL_FAILS='1')
    rc.case('failure', 'prctl', r.rc == 0 and [a[0] for a in r.answers] == ['500'], 'the system refuses no_new_privs', 'the test route says so', 'exit %s %s' % (r.rc, r.answers), r.cmds(), 'mainprog')
    for sig in (2, 15, 13):
        r = Run(x, tmp, ['--cleartext'], ION_SIGNAL=str(sig))
        rc.case('signal', sig, r.rc == 0 and r.lines == ['end'], 'signal %d while serving' % sig, 'the process goes on and ends with 0', 'exit %s %s' % (r.rc, r.lines), r.cmds(), 'mainprog')
    # telemetry is on unless disabled
    for v, on in ((None, 1), ('false', 1), ('true', 0)):
        e = {} if v is None else dict(OTEL_SDK_DISABLED=v)
        r = Run(x, tmp, ['--cleartext'], **dict(e, **({'OTEL_SDK_DISABLED': ''} if v is None else {})))
        rc.case('telemetry', v, r.rc == 0 and r.lines == ['telemetry'] * on + ['end'], 'OTEL_SDK_DISABLED=%s' % v, 'telemetry %s' % ('on' if on else 'off'), 'exit %s %s' % (r.rc, r.lines), r.cmds(), 'mainprog')

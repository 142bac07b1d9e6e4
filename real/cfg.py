"""Configuration on the compiled code: real CLI11, real OpenSSL, certificates in a scratch directory."""
import os, shutil, tempfile
from vc import build as B
from vc.frontend import REPO


def driver():
    return B.Driver(B.build('cfg', B.all_lib() + [os.path.join(REPO, 'app/args.cpp')]))


def hx(s):
    s = s if isinstance(s, bytes) else s.encode()
    return s.hex() or '-'


def c24(rc):
    rc.rules.append('every combination of cleartext and certificate/key (unset, missing, empty, directory, garbage, certificate, key, foreign key) against the real OpenSSL; command lines over all options and the environment; distinct: by combination')
    d = driver()
    tmp = tempfile.mkdtemp(prefix='ionverif')
    try:
        p = lambda n: os.path.join(tmp, n)
        cmds = []

        def ask(c):
            cmds.append(c)
            return d.ask(c)
        for n in 'ab':
            ask('pair %s %s' % (hx(p(n + '.crt')), hx(p(n + '.key'))))
        open(p('empty'), 'w').close()
        open(p('garbage'), 'wb').write(os.urandom(0) + b'-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n')
        os.mkdir(p('dir'))
        files = [None, 'missing', 'empty', 'garbage', 'dir', 'a.crt', 'a.key', 'b.crt', 'b.key', '']
        for clear in (0, 1):
            for c in files:
                for k in files:
                    t = lambda x: 'unset' if x is None else '-' if x == '' else hx(p(x))
                    a = ask('server %d %s %s' % (clear, t(c), t(k)))
                    good = (c, k) in (('a.crt', 'a.key'), ('b.crt', 'b.key'))
                    exp = 'made listening 0 tcp tcp' if clear else 'made listening 0 tls tls' if good else 'threw listening 0'
                    rc.case('server', (clear, c, k), a == exp, 'server: cleartext=%d certificate=%s key=%s' % (clear, c, k), exp, a, cmds[:2] + [cmds[-1]], 'cfg')
        # command line
        rng = rc.rng
        vals = ['x', '/tmp/a b', 'café', '-', '=', '/a=b', '1', 'cert.pem']
        cases = []
        for _ in range(rc.scale(300)):
            o = dict(clear=0, cert=None, key=None, port=8443, static=[], log='', p404='', test=0, page=0, level='info')
            av, env = [], [None, None]
            for i, n in enumerate(('cert', 'key')):
                if rng.random() < 0.3:
                    env[i] = rng.choice(vals)
                    o[n] = env[i]
            ch = []
            if rng.random() < 0.5:
                ch.append((['--cleartext'], dict(clear=1)))
            if rng.random() < 0.5:
                v = rng.choice(vals[:3] + vals[5:])
                ch.append((rng.choice([['--tls-cert-path', v], ['--tls-cert-path=' + v]]), dict(cert=v)))
            if rng.random() < 0.5:
                v = rng.choice(vals[:3] + vals[5:])
                ch.append((rng.choice([['--tls-key-path', v], ['--tls-key-path=' + v]]), dict(key=v)))
            if rng.random() < 0.4:
                v = rng.choice([1, 80, 8443, 65535])
                ch.append((rng.choice([['-p', str(v)], ['--port', str(v)]]), dict(port=v)))
            if rng.random() < 0.4:
                ch.append(([rng.choice(['-s', '--static']), '/u', 'dir'], dict(static=['/u', 'dir'])))
            if rng.random() < 0.3:
                ch.append((['--access-log', 'x.log'], dict(log='x.log')))
            if rng.random() < 0.3:
                ch.append((['--custom-404-file-path', '404.html'], dict(p404='404.html')))
            if rng.random() < 0.3:
                ch.append((['--under-test'], dict(test=1)))
            if rng.random() < 0.3:
                ch.append((['--status-page'], dict(page=1)))
            rng.shuffle(ch)
            for a, e in ch:
                av += a
                o.update(e)
            cases.append((env, av, o))
        for env, av, o in cases:
            a = ask('args %s %s %s' % (hx(env[0]) if env[0] else '-', hx(env[1]) if env[1] else '-', ' '.join(hx(x) for x in av)))
            st = lambda v: 'unset' if v is None else 'set:' + hx(v)
            exp = 'ok %d %s %s port %d static%s log %s 404 %s test %d page %d level %s' % (
                o['clear'], st(o['cert']), st(o['key']), o['port'], ''.join(' ' + hx(x) for x in o['static']), hx(o['log']), hx(o['p404']), o['test'], o['page'], o['level'])
            rc.case('args', (tuple(env), tuple(av)), a.rstrip() == exp, 'command line %s, environment %s' % (av, env), exp, a, [cmds[-1]], 'cfg')
    finally:
        d.close()
        shutil.rmtree(tmp)

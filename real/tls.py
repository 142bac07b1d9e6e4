"""TLS on the compiled code and the real OpenSSL: protocol offers, context and object lifetimes, the key log."""
import os, shutil, subprocess, tempfile
from vc import build as B


def hx(s):
    s = s if isinstance(s, bytes) else s.encode()
    return s.hex() or '-'


def plist(ps):
    return b''.join(bytes([len(x)]) + x for x in ps)


def c31(rc):
    rc.rules.append('handshakes of the real OpenSSL over a socket pair, TLS 1.2 and 1.3: lists of offered protocols (empty, h2 first, last, missing, repeated, near-misses, long, many); every refusal of a step of set-up; key log unset, new, existing, unopenable; distinct: by offer, version, refusal and file')
    tmp = tempfile.mkdtemp(prefix='ionverif')
    d = B.Driver(B.build('tls', B.all_lib(), link=('-ldl',)), cwd=tmp)
    try:
        _c31(rc, d, tmp)
    except B.Crash as e:
        rc.violation('crash', 'abnormal end (status %s)' % e.rc, 'an answer', e.err, d.log[-400:], 'tls')
    finally:
        d.close()
        shutil.rmtree(tmp)


def offers(rc):
    h2, h1, h10, c = b'h2', b'http/1.1', b'http/1.0', b'h2c'
    out = [[], [h2], [h1], [h2, h1], [h1, h2], [h1, h10], [h1, h10, h2], [c], [c, h2], [b'h'], [b'2'], [b'h2 '], [b'H2'], [b'2h'], [b'h3'], [b'h2', b'h2'], [b'hq'], [b'\0\0'], [b'h\0'],
           [b'x' * 255], [b'x' * 255, h2], [b'h2' * 100], [b'h2-14', b'h2-16', h2], [bytes([2])], [bytes([2]) + b'h2'], [b'spdy/3.1', h1], [bytes([i]) for i in range(1, 120)],
           [bytes([i, j]) for i in (1, 104, 255) for j in (50, 51)], [b'\x02h2' * 50], [b'x' * 200] * 40 + [h2], [b'x' * 200] * 40]
    r = rc.rng
    for _ in range(rc.scale(40)):
        out.append([bytes(r.choice(b'h2c/.1\x02\x03') for _ in range(r.randint(1, 4))) for _ in range(r.randint(1, 5))])
    return out


def _c31(rc, d, tmp):
    p = lambda n: os.path.join(tmp, n)
    log = []

    def ask(c):
        log.append(c)
        return d.ask(c)
    for n in 'ab':
        subprocess.run(['openssl', 'req', '-x509', '-newkey', 'ec', '-pkeyopt', 'ec_paramgen_curve:prime256v1', '-nodes', '-subj', '/CN=t', '-days', '2', '-keyout', p(n + '.key'), '-out', p(n + '.crt')],
                       check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    open(p('garbage'), 'w').write('-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n')
    good = 'files %s %s' % (hx(p('a.crt')), hx(p('a.key')))

    def case(part, key, what, cmds, exp, ok=None):
        log.clear()
        a = ''
        for c in cmds:
            a = ask(c).rstrip()
        rc.case(part, key, (a == exp) if ok is None else ok(a), what, exp, a, list(log), 'tls')
        return a
    case('context', 'good', 'a context of a certificate and its key', ['env unset', 'fail -', good, 'context'], 'made made 1 0 kept 1 0 twice 0')
    case('context', 'drop', 'the context goes', ['drop'], 'gone made 1 0 kept 0 0 twice 0')
    files = [None, 'a.crt', 'b.crt', 'a.key', 'b.key', 'garbage']
    for c in files:
        for k in files:
            if (c, k) in (('a.crt', 'a.key'), ('b.crt', 'b.key')):
                continue
            case('context', (c, k), 'a context of certificate %s and key %s' % (c, k), ['files %s %s' % (hx(p(c or 'missing')), hx(p(k or 'missing'))), 'context', 'drop'], 'refused and everything released',
                 lambda a: ' kept 0 0 twice 0' in a)
    for f in ('SSL_CTX_new', 'SSL_CTX_check_private_key'):
        case('context', f, '%s fails' % f, [good, 'fail ' + f, 'context'], 'threw, and everything released', lambda a: a.startswith('threw ') and ' kept 0 0 twice 0' in a)
        case('context', f + ' drop', '%s fails' % f, ['drop', 'fail -'], 'ok')
    case('context', 'again', 'a context again', [good, 'context'], 'made made 1 0 kept 1 0 twice 0')
    # what the server selects
    for o in offers(rc):
        for v in (2, 3):
            r = case('offer', (v, tuple(o)), 'a client of TLS 1.%d offers %s' % (v, o), ['conn %d %s 1' % (v, hx(plist(o)))],
                     'handshake done, h2 on both sides, octets both ways' if b'h2' in o else 'h2 or nothing',
                     lambda a: (a.startswith('client 1 6832 server 1 6832 got 505249202a20485454502f322e30 sent 6 616e73776572 ') if b'h2' in o else
                                a.startswith('client 1 - server 1 - got 505249202a20485454502f322e30 sent 6 616e73776572 ') if not o else a.split()[5] == '6832') and a.endswith(' kept 1 0 twice 0'))
    # connections that cannot be set up
    for f in ('SSL_new', 'SSL_set_fd'):
        case('refused', f, '%s fails' % f, ['fail ' + f, 'conn 3 %s 1' % hx(plist([b'h2']))], 'threw, the context kept and the TLS object released', lambda a: a.startswith('threw ') and a.endswith(' kept 1 0 twice 0'))
    case('refused', 'after', 'the next connection', ['fail -', 'conn 3 %s 1' % hx(plist([b'h2']))], 'a connection', lambda a: a.startswith('client 1 6832 server 1 6832 got ') and a.endswith(' kept 1 0 twice 0'))
    for n, k, what in ((0, 1, 'to another'), (1, 2, 'to itself'), (2, 1, 'to a transport moved from'), (3, 0, 'from a transport moved from')):
        case('assign', n, 'a transport assigned %s' % what, ['assign %d' % n], 'every TLS object released once', lambda a, k=k: ' kept 1 %d twice 0 after' % k in a and a.endswith(' kept 1 0 twice 0'))
    # the key log
    before = set(os.listdir(tmp))
    ask('conn 3 %s 1' % hx(plist([b'h2'])))
    rc.case('keylog', 'unset', set(os.listdir(tmp)) == before, 'without SSLKEYLOGFILE', 'no file is made', sorted(set(os.listdir(tmp)) - before), [good, 'env unset', 'context', 'conn 3 026832 1'], 'tls')
    for v in (2, 3):
        want = b''
        n = 'keys %d.log' % v
        if v == 3:
            want = b'old line\n' * 2000
            open(p(n), 'wb').write(want)
        for i in range(3):
            cmds = [good, 'env ' + hx(p(n)), 'context', 'conn %d %s 1' % (v, hx(plist([b'h2'])))]
            for c in cmds:
                ask(c)
            ls = [bytes.fromhex(x) for x in d.ask('lines').split()[1:]]
            got = open(p(n), 'rb').read() if os.path.exists(p(n)) else b''
            new = got[len(want):]
            ok = got.startswith(want) and sorted(new.split(b'\n')) == sorted(ls + [b'']) and len(ls) > 0
            rc.case('keylog', (v, i), ok, 'TLS 1.%d, connection %d, SSLKEYLOGFILE set' % (v, i), b'\n'.join(ls).decode('latin-1')[:300] + ' appended', new.decode('latin-1')[:300], cmds, 'tls')
            want = got
    for size in (0, 1, 100, 1000, 4095, 4096, 4097, 8192, 65536, 1 << 20):
        n = 'old %d.log' % size
        old = (b'x' * 63 + b'\n') * (size // 64) + b'y' * (size % 64)
        open(p(n), 'wb').write(old)
        cmds = ['env ' + hx(p(n)), 'conn 3 %s 1' % hx(plist([b'h2']))]
        for c in cmds:
            ask(c)
        ls = [bytes.fromhex(x) for x in d.ask('lines').split()[1:]]
        got = open(p(n), 'rb').read()
        rc.case('keylog', ('size', size), got.startswith(old) and sorted(got[size:].split(b'\n')) == sorted(ls + [b'']), 'a key log of %d octets' % size, 'the lines appended', '%d octets' % len(got), [good, 'context'] + cmds, 'tls')
    for n in ('nodir/x.log', '.'):
        case('keylog', n, 'SSLKEYLOGFILE cannot be opened', ['env ' + hx(p(n)), 'conn 3 %s 1' % hx(plist([b'h2']))], 'a connection', lambda a: a.startswith('client 1 6832 server 1 6832 got '))
    case('keylog', 'off', 'SSLKEYLOGFILE unset again', ['env unset', 'conn 3 %s 1' % hx(plist([b'h2']))], 'a connection', lambda a: a.startswith('client 1 6832 server 1 6832 got '))
    case('context', 'end', 'the context goes', ['drop'], 'everything released once', lambda a: a.endswith(' kept 0 0 twice 0'))

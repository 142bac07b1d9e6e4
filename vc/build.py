"""Builds the replay drivers from /repo's current sources (sanitized), and runs them."""
import threading, hashlib, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from .frontend import cxxflags, REPO, VERIF, CACHE, CLANG

SAN = ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-UNDEBUG', '-w']
PLAIN = ['-O1', '-g1', '-w', '-UNDEBUG']
LIBS = ['-lspdlog', '-lfmt', '-lssl', '-lcrypto', '-lpthread']


class BuildError(Exception):
    pass


def headers_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'lib'), os.path.join(REPO, 'app'), os.path.join(VERIF, 'stubs'), os.path.join(VERIF, 'drivers')):
        for root, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.hpp', '.in')):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b'\0' + open(p, 'rb').read())
    return h.hexdigest()


def obj(src, flags, hh):
    key = hashlib.sha256((hh + src + ' '.join(flags)).encode() + open(src, 'rb').read()).hexdigest()[:32]
    out = os.path.join(CACHE, 'obj', key + '.o')
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d.tmp.o' % os.getpid()
    p = subprocess.run([CLANG] + cxxflags() + flags + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('%s:\n%s' % (src, p.stdout[-4000:]))
    os.replace(tmp, out)
    return out


def lib_sources(names):
    """names: paths relative to /repo"""
    return [os.path.join(REPO, n) for n in names]


def all_lib():
    out = []
    for root, ds, fs in os.walk(os.path.join(REPO, 'lib')):
        ds.sort()
        out += [os.path.join(root, f) for f in sorted(fs) if f.endswith('.cpp')]
    return out


def build(name, srcs, san=True, extra=(), link=()):
    """driver executable from /verif/drivers/<name>.cpp and repository sources"""
    flags = (SAN if san else PLAIN) + list(extra)
    hh = headers_hash()
    drv = os.path.join(VERIF, 'drivers', name + '.cpp')
    fl = flags + ['-I', os.path.join(VERIF, 'drivers')]
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: obj(s, fl, hh), [drv] + list(srcs)))
    key = hashlib.sha256(('|'.join(objs) + ' '.join(flags) + ' '.join(link)).encode()).hexdigest()[:32]
    out = os.path.join(CACHE, 'bin', name + '-' + key)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d.tmp' % os.getpid()
    p = subprocess.run([CLANG] + flags + objs + ['-o', tmp] + list(link) + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('link %s:\n%s' % (name, p.stdout[-4000:]))
    os.replace(tmp, out)
    prune()
    return out


def prune(keep_obj=600, keep_bin=60):
    for d, k in (('obj', keep_obj), ('bin', keep_bin)):
        dd = os.path.join(CACHE, d)
        try:
            fs = sorted((os.path.join(dd, f) for f in os.listdir(dd)), key=os.path.getmtime)
            for f in fs[:-k]:
                os.unlink(f)
        except OSError:
            pass


ENV = dict(os.environ, ASAN_OPTIONS='abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=99')


class Crash(Exception):
    def __init__(self, cmd, rc, err):
        super().__init__('driver ended with %s on: %s' % (rc, cmd[:400]))
        self.cmd, self.rc, self.err = cmd, rc, err


HANG = 90


class Driver:
    """line-at-a-time conversation with a driver; commands are batched"""

    def __init__(self, exe, args=(), cwd=None, env=None):
        self.exe, self.args = exe, list(args)
        self.errf = tempfile.TemporaryFile()
        self.p = subprocess.Popen([exe] + self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, cwd=cwd, env=env or ENV)
        self.log = []

    def line(self):
        """the next line of output; a driver that gives none for a minute and a half is ended (and so reported)"""
        t = threading.Timer(HANG, self.p.kill)
        t.daemon = True
        t.start()
        try:
            return self.p.stdout.readline()
        finally:
            t.cancel()

    def ask(self, cmd):
        self.log.append(cmd)
        try:
            self.p.stdin.write(cmd.encode() + b'\n')
            self.p.stdin.flush()
            l = self.line()
        except BrokenPipeError:
            l = b''
        if not l.endswith(b'\n'):
            self.crash(cmd)
        return l.decode('latin-1').rstrip('\n')

    def batch(self, cmds):
        """many commands, answers in order"""
        out = []
        data = ('\n'.join(cmds) + '\n').encode()

        def feed():
            try:
                self.p.stdin.write(data)
                self.p.stdin.flush()
            except (BrokenPipeError, ValueError):
                pass
        t = threading.Thread(target=feed)
        t.start()
        for c in cmds:
            l = self.line()
            if not l.endswith(b'\n'):
                t.join()
                self.crash(c)
            out.append(l.decode('latin-1').rstrip('\n'))
        t.join()
        return out

    def crash(self, cmd):
        self.p.kill()
        rc = self.p.wait()
        self.errf.seek(0)
        err = self.errf.read().decode('latin-1')
        raise Crash(cmd, rc, err[-6000:] or ('no answer' if rc == -9 else ''))

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.errf.seek(0)
        return self.errf.read().decode('latin-1')

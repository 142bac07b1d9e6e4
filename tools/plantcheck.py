#!/usr/bin/env python3
"""plantcheck.py ID...: per planted bug - original lines changed, repository's tests, demonstration on both trees, the check"""
import json, os, re, shutil, subprocess, sys
BASE = '4e78547'
W = '/tmp/plb'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def original(diff):
    """removed lines that the pinned commit already had"""
    n = 0
    f = None
    for l in open(diff):
        if l.startswith('--- '):
            f = re.sub('^a/', '', l[4:].strip())
            bl = sh('git -C /repo blame -s HEAD -- ' + f).stdout.splitlines()
        elif l.startswith('@@'):
            k = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-'):
            n += bl[k - 1].startswith('^')
            k += 1
        elif l.startswith(' '):
            k += 1
    return n


def tests(d):
    s = open('/opt/vp/build.sh').read().replace('/repo', d)
    open(W + '.build.sh', 'w').write(s)
    r = sh('bash %s.build.sh' % W)
    if r.returncode:
        return 'BUILD FAILED ' + r.stdout[-500:]
    r = sh('%s/_build/test/unit/unit-test' % d, cwd=d)
    return '' if 'All tests passed' in r.stdout else 'REPO TESTS: ' + r.stdout[-600:]


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir('/verif/seeded'))
    if not os.path.isdir(W):
        shutil.copytree('/repo', W, symlinks=True, ignore=shutil.ignore_patterns('_build'))
    for i in ids:
        S = '/verif/seeded/' + i
        prop = json.load(open(S + '/meta.json'))['property']
        sh('git checkout -q -- .', cwd=W)
        a = b = None
        if '--check' not in sys.argv:
            a = sh('bash %s/demo.sh' % S, cwd=W)
        r = sh('git apply %s/patch.diff' % S, cwd=W)
        if r.returncode:
            print('BAD', i, 'does not apply', r.stdout)
            continue
        t = ''
        if '--check' not in sys.argv:
            t = tests(W) if '--notests' not in sys.argv else ''
            b = sh('bash %s/demo.sh' % S, cwd=W)
        o = original(S + '/patch.diff')
        c = None
        if '--demo' not in sys.argv:
            c = sh('timeout 900 python3-vt -m vc.check %s %s' % (prop, ' '.join(x for x in sys.argv if x in ('--noproof', '--noreal'))), cwd='/verif', env=dict(os.environ, ION_REPO=W))
            v = 'caught' if c.returncode == 1 and 'VIOLATION property=' + prop in c.stdout else 'MISSED'
            if 'no-failing-input-found' in c.stdout:
                v = 'nfif'
        else:
            v = '-'
        print('%-7s %-26s %s original-lines=%d demo clean=%s patched=%s %s' % (v, i, prop, o, a and a.returncode, b and b.returncode, t))
        if a and a.returncode:
            print('   clean: ' + a.stdout[-600:])
        if b and not b.returncode:
            print('   patched: ' + b.stdout[-300:])
        if c:
            print('\n'.join('      ' + x[:260] for x in c.stdout.splitlines()[:6]))
        sys.stdout.flush()
    sh('git checkout -q -- .', cwd=W)


main()

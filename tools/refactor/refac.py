"""refac.py [-j N] [-o] [id...]: behaviour-preserving edits of the code; the checks must stay quiet on each.

Each edit is applied to a copy of /repo's lib and app, and the named checks run from a copy of /verif against it.
-o: only print the names of the edits."""
import importlib, os, shutil, subprocess, sys, threading, queue, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ALL = []


def R(id_, checks, *edits):
    """edits: (file, old, new)"""
    ALL.append((id_, checks.replace(',', ' ').split(), edits))


def load():
    import r_hpack, r_conn, r_net, r_app, r_prog, r_more  # noqa


def prepare(slot, edits):
    d = '/tmp/rf/%d.%d' % (os.getpid(), slot)
    repo = d + '/repo'
    shutil.rmtree(repo, ignore_errors=True)
    os.makedirs(repo)
    for x in ('lib', 'app'):
        subprocess.check_call(['cp', '-a', '/repo/' + x, repo + '/' + x])
    for f, old, new in edits:
        p = repo + '/' + f
        s = open(p).read()
        if s.count(old) != 1:
            return 'edit of %s matches %d times: %r' % (f, s.count(old), old[:80])
        open(p, 'w').write(s.replace(old, new))
    v = d + '/verif'
    subprocess.check_call(['rsync', '-a', '--delete', '--exclude', '.git', '--exclude', 'seeded', '--exclude', '.cache', '--exclude', 'evidence', '/verif/', v + '/'])
    return None


def main():
    load()
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    jobs = 3
    for a in sys.argv[1:]:
        if a.startswith('-j'):
            jobs = int(a[2:])
    todo = [x for x in ALL if not args or any(x[0] == a or x[0].startswith(a.rstrip('*')) and a.endswith('*') for a in args)]
    if '-o' in sys.argv:
        for x in todo:
            print(x[0], x[1])
        return
    q = queue.Queue()
    for x in todo:
        q.put(x)
    lock = threading.Lock()

    def work(slot):
        while True:
            try:
                id_, checks, edits = q.get_nowait()
            except queue.Empty:
                return
            err = prepare(slot, edits)
            if err:
                with lock:
                    print('BAD  %s %s' % (id_, err), flush=True)
                continue
            d = '/tmp/rf/%d.%d' % (os.getpid(), slot)
            srcs = [f for f, _, _ in edits if f.endswith('.cpp')]
            for c in checks:
                t = time.time()
                try:
                    p = subprocess.run(['python3-vt', '-m', 'vc.check', c] + [a for a in sys.argv if a == '--noreal'], cwd=d + '/verif', env=dict(os.environ, ION_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick'),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                    rc, out = p.returncode, p.stdout
                except subprocess.TimeoutExpired:
                    rc, out = 124, 'timeout'
                tag = 'ok   ' if rc == 0 else ('NFIF ' if 'no-failing-input-found' in out else 'ALARM') if rc == 1 else 'ERR%d ' % rc
                if rc == 0 and (' 0 not decided' not in out or 'limits:' in out):
                    tag = 'okL  '
                with lock:
                    print('%s %-28s %s %.0fs' % (tag, id_, c, time.time() - t), flush=True)
                    if tag != 'ok   ':
                        print('\n'.join('        ' + l[:420] for l in out.splitlines()[:14]), flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == '__main__':
    sys.modules['refac'] = sys.modules['__main__']
    main()

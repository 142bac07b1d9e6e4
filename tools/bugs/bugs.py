"""bugs.py [-jN] [id...]: behaviour-changing edits, one property each; the check must report a violation."""
import os, queue, re, shutil, subprocess, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'refactor'))
import refac
ALL = []


def B(id_, prop, *edits):
    ALL.append((id_, prop, edits))


def load():
    sys.modules['bugs'] = sys.modules[__name__]
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import b_one  # noqa


def main():
    load()
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    jobs = 3
    for a in sys.argv[1:]:
        if a.startswith('-j'):
            jobs = int(a[2:])
    flags = [a for a in sys.argv[1:] if a in ('--noproof', '--noreal')]
    q = queue.Queue()
    for x in ALL:
        if not args or x[0] in args or x[1] in args:
            q.put(x)
    lock = threading.Lock()

    def work(slot):
        while True:
            try:
                id_, prop, edits = q.get_nowait()
            except queue.Empty:
                return
            err = refac.prepare(slot, edits)
            d = '/tmp/rf/%d.%d' % (os.getpid(), slot)
            t = time.time()
            if err:
                v, out = 'BAD', err
            else:
                r = subprocess.run(['timeout', '900', 'python3-vt', '-m', 'vc.check', prop] + flags, cwd=d + '/verif', env=dict(os.environ, ION_REPO=d + '/repo'),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                out = r.stdout
                v = 'caught' if r.returncode == 1 and 'VIOLATION property=' + prop in out else 'MISSED'
                if 'no-failing-input-found' in out:
                    v = 'nfif'
                elif v == 'caught' and not re.search(r'[1-9]\d* failed', out) and not flags:
                    v = 'caught(real only)'
            with lock:
                print('%-18s %-26s %s %ds' % (v, id_, prop, time.time() - t), flush=True)
                if not v.startswith('caught') or v != 'caught':
                    print('\n'.join('        ' + x[:250] for x in out.strip().splitlines()[-6:]), flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    shutil.rmtree('/tmp/rf/%d.0' % os.getpid(), ignore_errors=True)


if __name__ == '__main__':
    main()

#!/usr/bin/env python3
"""mutate.py [-jN] [-sSEED] [-nCOUNT] [FILE...]: small textual mutants of /repo's sources, one after another, against the
checks of the properties the file serves.  Survivors are printed with the line: they are either equivalent or a gap."""
import os, random, re, shutil, subprocess, sys, threading, queue, time
REPO, VERIF = '/repo', '/verif'
FILES = {
    'lib/hpack/bit_reader.h': 'C03', 'lib/hpack/bit_writer.h': 'C04', 'lib/hpack/byte_reader.cpp': 'C01 C06', 'lib/hpack/dynamic_table.cpp': 'C05',
    'lib/hpack/header_block_decoder.cpp': 'C06 C04', 'lib/hpack/header_block_encoder.cpp': 'C07 C04', 'lib/hpack/header_field.h': 'C06 C07',
    'lib/hpack/huffman_tree.cpp': 'C03', 'lib/hpack/int_decoder.cpp': 'C01', 'lib/hpack/int_encoder.cpp': 'C02', 'lib/hpack/header_static_table.h': 'C06 C07',
    'lib/hpack/huffman_codes.h': 'C03 C04',
    'lib/http2_conn.cpp': 'C09 C10 C11 C12 C13 C14 C19 C20', 'lib/http2_frame_reader.cpp': 'C08 C09', 'lib/http2_frames.h': 'C08 C09', 'lib/http2_frame_reader.h': 'C08 C09',
    'lib/http2_server.cpp': 'C18 C19 C24 C26', 'lib/pollers/epoll_poller.cpp': 'C22', 'lib/pollers/poll_poller.cpp': 'C22', 'lib/pollers/poller.h': 'C22',
    'lib/router.cpp': 'C15', 'lib/file_reader.cpp': 'C16 C17', 'lib/static_file_handler.cpp': 'C17 C16', 'lib/socket_fd.cpp': 'C23 C29', 'lib/tcp_listener.cpp': 'C29 C23',
    'lib/transports/tcp_transport.cpp': 'C21 C23', 'lib/transports/tls_context.cpp': 'C24 C31', 'lib/transports/tls_transport.cpp': 'C21 C23 C31',
    'lib/access_log.cpp': 'C20', 'lib/server_config.cpp': 'C24', 'app/args.cpp': 'C24 C30', 'app/main.cpp': 'C30', 'app/proc_ctrl.cpp': 'C30', 'app/test_routes.cpp': 'C30', 'app/trace_id_flag.cpp': 'C28', 'app/server_stats.cpp': 'C25', 'app/status_page.cpp': 'C25', 'app/signal_handler.cpp': 'C26',
}
SWAP = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<\-=])<(?![<=])', '<='), (r'(?<![>\-=])>(?![>=])', '>='), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
        (r' \+ ', ' - '), (r' - ', ' + '), (r'\+=', '-='), (r'-=', '+='), (r'<<', '>>'), (r' & ', ' | '), (r' \| ', ' & '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
        (r'!(?=[\w(])', ''), (r'\bstd::min\b', 'std::max'), (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'), (r'\+\+', '--'),
        (r'\.begin\(\)', '.end()'), (r'\bif \((?!auto|const|std::error)', 'if (!'), (r'std::string::npos|std::string_view::npos', '0'), (r'\bfront\(\)', 'back()'), (r'\bback\(\)', 'front()')]


def mutants(f):
    out = []
    lines = open(os.path.join(REPO, f)).read().split('\n')
    for n, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(('//', '#', '*', '/*', 'using ', 'namespace', '}')) or 'spdlog::' in s or 'static_assert' in s:
            continue
        cand = set()
        for pat, rep in SWAP:
            if rep in ('<=', '>=') and ('template' in s or re.search(r'(std::\w+|static_cast|reinterpret_cast|unique|vector|optional|span|expected)<', s)) and not re.search(r'[\w)\]] [<>] ', s):
                continue
            for m in re.finditer(pat, l):
                if rep in ('<=', '>=') and not (l[m.start() - 1:m.start()] == ' ' and l[m.end():m.end() + 1] == ' '):
                    continue
                cand.add(l[:m.start()] + rep + l[m.end():])
        for m in re.finditer(r'(?<![\w.:"])(0x[0-9a-fA-F]+|\d+)(?![\w."])', l):
            v = int(m.group(1), 0)
            for w in {v + 1, v - 1 if v else v + 1}:
                cand.add(l[:m.start()] + (hex(w) if m.group(1).startswith('0x') else str(w)) + l[m.end():])
        if s.endswith(';') and not s.startswith(('return', 'auto ', 'const ', 'static ', 'break', 'continue', 'throw')) and re.match(r'^[\w.\->:*()\[\]]+( [-+|&]?= |\(|\+\+|--)', s) and s.count('(') == s.count(')'):
            cand.add(re.sub(r'\S.*', ';', l, count=1))
        m = re.search(r'std::unexpected\((\w+)::(\w+)\)|unexpected\{(\w+)::(\w+)\}', l)
        if m and s.startswith('return'):
            pass
        for c in cand:
            if c != l:
                out.append((f, n, l, c))
    return out


def main():
    jobs, seed, count, files = 3, 1, 200, []
    for a in sys.argv[1:]:
        if a.startswith('-j'): jobs = int(a[2:])
        elif a.startswith('-s'): seed = int(a[2:])
        elif a.startswith('-n'): count = int(a[2:])
        else: files.append(a)
    rng = random.Random(seed)
    todo = []
    per = {f: mutants(f) for f in (files or FILES)}
    total = sum(map(len, per.values()))
    for f, ms in per.items():
        rng.shuffle(ms)
        big = 'codes' in f or 'static_table' in f
        k = min(len(ms), 4 if big else max(3, round(count * len(ms) / total)))
        todo += ms[:k]
    rng.shuffle(todo)
    print(len(todo), 'of', total, 'mutants', flush=True)
    q = queue.Queue()
    for t in todo: q.put(t)
    lock = threading.Lock()

    def work(slot):
        d = '/tmp/mu/%d' % slot
        repo, v = d + '/repo', d + '/verif'
        shutil.rmtree(repo, ignore_errors=True)
        os.makedirs(repo)
        for x in ('lib', 'app'):
            subprocess.check_call(['cp', '-a', '/repo/' + x, repo + '/' + x])
        subprocess.check_call(['rsync', '-a', '--delete', '--exclude', '.git', '--exclude', 'seeded', '--exclude', 'evidence', VERIF + '/', v + '/'])
        while True:
            try:
                f, n, old, new = q.get_nowait()
            except queue.Empty:
                return
            p = os.path.join(repo, f)
            src = open(os.path.join(REPO, f)).read().split('\n')
            src[n] = new
            open(p, 'w').write('\n'.join(src))
            units = [p] if f.endswith('.cpp') else [repo + '/lib/http2_conn.cpp', repo + '/lib/hpack/huffman_tree.cpp']
            res, why = None, []
            for u in units:
                inc = ['-DFMT_SHARED', '-DSPDLOG_COMPILED_LIB', '-DSPDLOG_FMT_EXTERNAL', '-DSPDLOG_SHARED_LIB', '-I/verif/.cache/gen', '-I' + repo + '/lib', '-I' + repo + '/app', '-I/verif/stubs']
                if subprocess.run(['g++', '-std=gnu++23', '-fsyntax-only', '-w'] + inc + [u], capture_output=True).returncode:
                    res = 'nc'
            t0 = time.time()
            if not res:
                for c in FILES[f].split():
                    env = dict(os.environ, ION_REPO=repo, VERIF_TIER='quick', VERIF_SEED='1')
                    try:
                        r = subprocess.run(['timeout', '600', 'python3-vt', '-m', 'vc.check', c], cwd=v, env=env, capture_output=True, text=True)
                    except Exception as e:
                        why.append('%s %r' % (c, e)); continue
                    if r.returncode == 1 and 'VIOLATION property=' + c in r.stdout:
                        res = 'nfif' if 'no-failing-input-found' in r.stdout and 'failing input [' not in r.stdout else 'killed'
                        why.append(c)
                        break
                    why.append('%s=%d' % (c, r.returncode) + (' limit' if ' limit ' in r.stdout or 'not decided' in r.stdout and ' 0 not decided' not in r.stdout else ''))
            open(p, 'w').write(open(os.path.join(REPO, f)).read())
            with lock:
                print('%-8s %s:%d [%s] %ds\n      - %s\n      + %s' % (res or 'SURVIVED', f, n + 1, ' '.join(why), time.time() - t0, old.strip(), new.strip()), flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(jobs)]
    for t in ts: t.start()
    for t in ts: t.join()


main()

#!/usr/bin/env python3
"""writes /verif/seeded/<id>/ from the definitions in this directory (d_*.py); plants.py [id ...]"""
import glob, json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(H))
PLANTS = {}
HPACK = ['lib/hpack/' + f for f in 'byte_reader dynamic_table header_block_decoder header_block_encoder huffman_tree int_decoder int_encoder'.split()]
CONN = HPACK + ['lib/' + f for f in 'access_log file_reader http2_conn http2_frame_reader router static_file_handler system_clock'.split()]


def plant(id, prop, edits, srcs, demo, needs, breaks, extra='', run='"$T/demo"', pre=''):
    assert id not in PLANTS, id
    PLANTS[id] = dict(prop=prop, edits=edits, srcs=srcs, demo=demo, needs=needs, breaks=breaks, extra=extra, run=run, pre=pre)


SH = '''#!/bin/bash
# exits 0 when the behaviour is as the property says, 1 otherwise
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cat > "$T/version.h" <<'EOF'
#pragma once
#include <string_view>
namespace ion {
inline constexpr std::string_view BUILD_VERSION = "demo";
inline constexpr std::string_view SERVER_HEADER = "ion";
}
EOF
if [ ! -e /usr/include/CLI/ExtraValidators.hpp ]; then
    mkdir "$T/CLI"; echo '#include <CLI/CLI.hpp>' > "$T/CLI/ExtraValidators.hpp"
fi
i=0
for f in %(srcs)s "$D/demo.cpp"; do
    i=$((i+1))
    clang++-19 -std=gnu++23 -O1 -w -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB %(extra)s \\
        -I"$D/stubs" -I"$D" -I"$T" -Ilib -Iapp -c "$f" -o "$T/$i.o" &
done
wait
clang++-19 %(extra)s "$T"/*.o -o "$T/demo" -lspdlog -lfmt -lssl -lcrypto -lpthread || exit 2
%(pre)s
timeout 120 %(run)s
[ $? -eq 0 ] && exit 0
exit 1
'''


def write(i):
    p = PLANTS[i]
    d = os.path.join(V, 'seeded', i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp()
    diff = ''
    files = []
    for e in p['edits']:
        if e[0] not in files:
            files.append(e[0])
    for f in files:
        s = open('/repo/' + f).read()
        o = s
        for e in p['edits']:
            if e[0] == f:
                assert s.count(e[1]) == 1, (i, s.count(e[1]), e[1])
                s = s.replace(e[1], e[2])
        for side, txt in (('a', o), ('b', s)):
            os.makedirs(os.path.dirname('%s/%s/%s' % (t, side, f)), exist_ok=True)
            open('%s/%s/%s' % (t, side, f), 'w').write(txt)
    r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=t, stdout=subprocess.PIPE, text=True)
    diff = r.stdout
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    shutil.rmtree(t)
    open(d + '/demo.cpp', 'w').write(p['demo'])
    open(d + '/demo.sh', 'w').write(SH % dict(srcs=' '.join(x + '.cpp' for x in p['srcs']), extra=p['extra'], run=p['run'], pre=p['pre']))
    os.chmod(d + '/demo.sh', 0o755)
    for h in ('conn_demo.h', 'net_demo.h', 'tls_demo.h'):
        if h in p['demo']:
            shutil.copy(H + '/' + h, d)
    if any('http2_' in s or 'status_page' in s or 'trace_id' in s for s in p['srcs']):
        shutil.copytree(V + '/stubs', d + '/stubs')
    json.dump(dict(property=p['prop'], needs=p['needs'], what_it_breaks=p['breaks']), open(d + '/meta.json', 'w'), indent=1)


if __name__ == '__main__':
    sys.path.insert(0, H)
    sys.modules['plants'] = sys.modules['__main__']
    for f in sorted(glob.glob(H + '/d_*.py')):
        __import__(os.path.basename(f)[:-3])
    for i in sys.argv[1:] or PLANTS:
        write(i)
        print('wrote', i)

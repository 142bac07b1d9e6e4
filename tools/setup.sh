#!/bin/bash
# Offline: warms the caches (AST of /repo, replay drivers).  Every check can rebuild them itself.
cd "$(dirname "$0")/.." || exit 1
mkdir -p .cache evidence
timeout 900 python3-vt - <<'P'
import sys
sys.path.insert(0, '.')
from vc.frontend import Program, sources
try:
    Program(sources(('lib',)))
except Exception as e:
    print('front end:', e)
try:
    from real import hpack
    hpack.driver().close()
except Exception as e:
    print('driver:', e)
P
exit 0

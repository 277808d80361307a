#!/bin/sh
# Warm-up: the build directory is a cache, every check can rebuild it.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
python3 - <<'P'
import sys
sys.path.insert(0, 'lib')
import vt
vt.build('default', ('drv', 'cli'))
P

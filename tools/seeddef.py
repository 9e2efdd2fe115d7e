import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed
DEMO = '''#!/bin/bash
# Builds a small program from /repo's sources (cwd) and runs it: exit 0 when the property holds.
set -e
D="$(cd "$(dirname "$0")" && pwd)"
W=$(mktemp -d /tmp/demoXXXXXX)
trap 'rm -rf "$W"' EXIT
for f in %s src/util/common/{buffer,hash,hashmap,logging}.cpp src/util/serialization/*.cpp 3rdparty/crypto/{sha256,siphash}.cpp "$D/demo.cpp"; do
  g++ -std=c++20 -O0 -w -fno-exceptions -fno-rtti -ffunction-sections -pthread -D_NO_EXCEPTION %s -I"$D" -Isrc -I3rdparty -I3rdparty/crypto -c "$f" -o "$W/$(echo "$f" | tr '/' '_').o" &
done
wait
g++ -pthread -Wl,--gc-sections -o "$W/demo" "$W"/*.o %s
cd "$W"
timeout 120 ./demo
'''


def define(id, prop, edits, needs, breaks, srcs, demo, flags='', libs='', extra=None):
    seed.new(id, edits, {'property': prop, 'needs': needs, 'what_it_breaks': breaks})
    d = os.path.join(seed.S, id)
    open(d + '/demo.sh', 'w').write(DEMO % (srcs, flags, libs))
    open(d + '/demo.cpp', 'w').write(demo)
    for n, c in (extra or {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        open(os.path.join(d, n), 'w').write(c)

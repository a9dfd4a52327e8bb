"""helper to write seeded/<id>/ folders (development aid): edits are (file, old, new[, nth])"""
import os, json, difflib, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
R=$PWD
g++ -std=gnu++17 -g -w -DBIN_WRITE_PLUGIN -I"$R/include" -I/usr/include/libxml2 "$D/demo.cpp" "$R"/_build/build/default/libbinary_xml_static.a -lxml2 -o "$T/demo" || exit 2
cd "$T" && timeout 60 ./demo >"$T/out" 2>"$T/err"
rc=$?
tail -n 5 "$T/out" "$T/err"
exit $rc
'''


def seed(id, prop, needs, breaks, edits, cpp=None, sh=None, extra=None):
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    by = {}
    for e in edits: by.setdefault(e[0], []).append(e)
    patch = ''
    for f, es in by.items():
        o = open('/repo/' + f, encoding='utf-8', errors='surrogateescape').read(); s = o
        for e in es:
            n = s.count(e[1])
            if len(e) > 3:
                assert n > e[3], (id, f, n, e[1])
                i = -1
                for _ in range(e[3] + 1): i = s.index(e[1], i + 1)
            else:
                assert n == 1, (id, f, n, e[1])
                i = s.index(e[1])
            s = s[:i] + e[2] + s[i + len(e[1]):]
        patch += ''.join(x if x.endswith('\n') else x + '\n\\ No newline at end of file\n' for x in
                         difflib.unified_diff(o.splitlines(True), s.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w', encoding='utf-8', errors='surrogateescape').write(patch)
    if cpp is not None: open(d + '/demo.cpp', 'w').write(cpp)
    open(d + '/demo.sh', 'w').write(sh or BUILD); os.chmod(d + '/demo.sh', 0o755)
    for n, t in (extra or {}).items(): open(d + '/' + n, 'w').write(t)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)

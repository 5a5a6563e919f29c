#!/usr/bin/env python3
"""development aid: tools/mkseed.py ID PROPERTY FILE <<< python spec  -> writes seeded/ID (patch.diff, demo.sh, demo.cpp, meta.json)"""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
DEMO = '''#!/bin/bash
# run in the repository root after the build
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -O2 -fpic -w -fopenmp -msse4 -maes -mpclmul -mrdseed -march=native -I"$PWD" -I/usr/local/openssl/include "$D/demo.cpp" -o "$W/demo" /usr/local/openssl/lib64/libcrypto.a /usr/local/openssl/lib64/libssl.a -ldl -lpthread || exit 9
cd "$W" && timeout 240 ./demo
'''
def make(id, prop, edits, needs, breaks, demo, sh=DEMO):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(); subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
    for f, a, b in edits:
        p = w + "/r/" + f; s = open(p, newline="").read()
        assert a in s, (id, f, a)
        s = s.replace(a, b); open(p, "w", newline="").write(s)
    df = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(df); open(d + "/demo.sh", "w").write(sh); open(d + "/demo.cpp", "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w); print(id, len(df))

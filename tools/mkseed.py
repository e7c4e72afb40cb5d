#!/usr/bin/env python3
"""Generates seeded/<id>/ from tools/seeds.py (development aid)."""
import difflib, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[1:]
ASM = '''#!/bin/sh
# assembles one input and compares the bytes with the expected ones
y=$PWD/_build/yasm
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cat > "$t/in.asm" <<'EOF'
%s
EOF
ulimit -f 20000     # a run-away output stops early
timeout -s KILL 60 "$y" %s -o "$t/out" "$t/in.asm" > "$t/log" 2>&1 || { cat "$t/log"; exit 1; }
cat "$t/log"
got=$(od -An -v -tx1 "$t/out" | tr -d ' \\n')
want=$(echo "%s" | tr -d ' \\n')
[ "$got" = "$want" ] || { echo "got $got want $want"; exit 1; }
'''
CDEMO = '''#!/bin/sh
# a small program against the built library
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -w -I. -I_build -o "$t/demo" "$d/demo.c" _build/libyasm.a || exit 2
cd "$t" && timeout 60 ./demo
'''
def S(id, prop, edits, needs, breaks, asm=None, want=None, args="-f bin", c=None, sh=None):
    if only and id not in only: return
    d = os.path.join(ROOT, "seeded", id); os.makedirs(d, exist_ok=True)
    out = ""
    files = {}
    for f, old, new in edits:
        src = files.get(f) or open("/repo/" + f).read()
        assert src.count(old) == 1, (id, f, src.count(old), old)
        files[f] = src.replace(old, new)
    for f, new in files.items():
        a = open("/repo/" + f).read().splitlines(True); b = new.splitlines(True)
        out += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(a, b, "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    if asm is not None:
        open(d + "/demo.sh", "w").write(ASM % (asm.strip("\n"), args, want))
    elif c is not None:
        open(d + "/demo.sh", "w").write(CDEMO); open(d + "/demo.c", "w").write(c)
    else:
        open(d + "/demo.sh", "w").write(sh)
    print("wrote", id)
exec(open(os.path.join(ROOT, "tools", "seeds.py")).read())

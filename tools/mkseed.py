#!/usr/bin/env python3
"""Developer helper: write /verif/seeded/<id>/ from an edit and a C demo."""
import json, os, subprocess, tempfile, shutil
SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = """#!/bin/bash
# exit 0 when the library behaves, nonzero otherwise; cwd is /repo, built
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
inc="-I_build/libipt/include -I_build/sideband/include -Iinclude -Iinclude/posix -Ilibipt/internal/include -Ilibipt/internal/include/posix -Isideband/include -Isideband/internal/include -Ipevent/include"
def="-D_GNU_SOURCE -DFEATURE_THREADS -DFEATURE_ELF -DFEATURE_SIDEBAND -DFEATURE_PEVENT -DPT_VERSION_MAJOR=2 -DPT_VERSION_MINOR=2 -DPT_VERSION_PATCH=0 -DPT_VERSION_BUILD=0 -DPT_VERSION_EXT=\\"devel\\""
%s
cd "$t" && timeout 120 "$t/demo"
"""
SRC = 'gcc -g -O1 -w %s $def $inc -o "$t/demo" "$d/demo.c" %s -pthread || exit 2'
LIB = SRC % ("", "libipt/src/*.c libipt/src/posix/*.c")
ASAN = SRC % ("-fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=alignment",
              "libipt/src/*.c libipt/src/posix/*.c")
SB = SRC % ("", "libipt/src/*.c libipt/src/posix/*.c sideband/src/*.c pevent/src/*.c")


def seed(sid, prop, edits, needs, breaks, demo, build=LIB, script=None):
    """edits: [(file, old, new)]"""
    d = os.path.join(SEED, sid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        files = sorted({f for f, _, _ in edits})
        subprocess.check_call(["git", "init", "-q", w])
        for f in files:
            os.makedirs(os.path.dirname(os.path.join(w, f)), exist_ok=True)
            shutil.copy("/repo/" + f, os.path.join(w, f))
        subprocess.check_call(["git", "-C", w, "add", "."])
        subprocess.check_call(["git", "-C", w, "-c", "user.name=x", "-c", "user.email=x@x", "commit", "-qm", "x"])
        for f, o, n in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(o) == 1, "%s: %s: %d matches of %r" % (sid, f, s.count(o), o)
            open(p, "w").write(s.replace(o, n))
        diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if script is None:
        open(os.path.join(d, "demo.c"), "w").write(demo)
        script = DEMO % build
    open(os.path.join(d, "demo.sh"), "w").write(script)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)

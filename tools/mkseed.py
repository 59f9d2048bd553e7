#!/usr/bin/env python3
"""writes /verif/seeded/<id>/ from a seed description: mkseed.seed(id, property, needs, what, edits, demo_c, model, ver)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "06dbf96"
DEMO = """#!/bin/sh
# run from the root of the repository; builds a small driver against the sources in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
gcc -g -w %(flags)s -Iinclude %(inc)s "$D/demo.c" %(src)s -lm -ldl -o "$T/demo" || exit 3
cd "$T" && timeout 60 ./demo
"""
def seed(id, prop, needs, what, edits, demo, model=None, ver=3, flags="", src=None, inc=None, san=False):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w", "HEAD"])
        for f, old, new in edits:
            p = os.path.join(t, "w", f); s = open(p, newline="").read()
            crlf = "\r\n" in s
            if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t + "/w", "diff"])
        f = None # a planted bug changes lines of the original sources only
        for l in diff.decode("utf-8", "replace").split("\n"):
            if l.startswith("--- a/"): f = subprocess.check_output(["git", "-C", "/repo", "show", BASE + ":" + l[6:].strip()]).decode("utf-8", "replace")
            elif l.startswith("-") and not l.startswith("---"): assert l[1:].rstrip() in [x.rstrip() for x in f.split("\n")], (id, "line added by a fix", l)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"]); shutil.rmtree(t, ignore_errors=True)
    open(d + "/patch.diff", "wb").write(diff)
    if src is None: src = "%s/model.c src/cosimulation.c src/fmi%dFunctions.c" % (model, ver)
    if inc is None: inc = "-I%s" % model if model else ""
    fl = ("-DFMI_VERSION=%d -DDISABLE_PREFIX " % ver if model else "") + flags + (" -fsanitize=address,undefined -fno-sanitize-recover=all" if san else "")
    open(d + "/demo.sh", "w").write(DEMO % dict(flags=fl, inc=inc, src=src)); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.c", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    print("seed", id)

#!/usr/bin/env python3
"""Makes or verifies planted bugs (never run by a check).
  tools/seed.py make ID FILE       - FILE: python dict with property, needs, breaks, edits [(file, old, new)], demo (C++ source)
  tools/seed.py verify ID...       - patch applies, builds, tests pass, demo fails with and passes without the patch, and which checks catch it
"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
SH = """#!/bin/sh
# run with cwd /repo: compiles the demonstration against the headers of the working tree
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -I "$PWD/include" "$d/demo.cpp" -o "$t/demo" || exit 2
cd "$t" && ./demo
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh("git -C /repo checkout -q -- .")


def make(i, f):
    d = eval(open(f).read())
    p = os.path.join(V, "seeded", i)
    os.makedirs(p, exist_ok=True)
    clean()
    for fn, old, new in d["edits"]:
        s = open(os.path.join(R, fn)).read()
        assert s.count(old) >= 1, (fn, old)
        if s.count(old) > 1:
            print("note: several matches, taking the first:", old[:60])
        open(os.path.join(R, fn), "w").write(s.replace(old, new, 1))
    diff = sh("git -C /repo diff").stdout
    open(os.path.join(p, "patch.diff"), "w").write(diff)
    clean()
    open(os.path.join(p, "demo.cpp"), "w").write(d["demo"])
    open(os.path.join(p, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(p, "demo.sh"), 0o755)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(os.path.join(p, "meta.json"), "w"), indent=1)


def verify(i, checks=True):
    p = os.path.join(V, "seeded", i)
    prop = json.load(open(p + "/meta.json"))["property"]
    clean()
    r0 = sh("sh %s/demo.sh" % p, cwd=R)
    if sh("git -C /repo apply %s/patch.diff" % p).returncode:
        print(i, "PATCH DOES NOT APPLY"); return
    try:
        r1 = sh("sh %s/demo.sh" % p, cwd=R)
        b = sh("bash /opt/vp/build.sh")
        sh("bash /opt/vp/test.sh /repo/_build/seedtest.json")
        t = json.load(open("/repo/_build/seedtest.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        print(i, prop, "| demo clean", r0.returncode, "patched", r1.returncode, r1.stdout.strip()[-100:] if r1.returncode else "", "| build", b.returncode,
              "tests failed", len(t.get("failed", [])), flush=True)
        if r0.returncode:
            print(r0.stdout[-500:])
        if checks:
            c = sh("./check %s --no-evidence" % prop, cwd=V)
            out = [l for l in c.stdout.splitlines() if "variant" in l or "VIOLATION" in l or l.startswith(prop)]
            print("    check exit", c.returncode, " / ".join(x.strip()[:150] for x in out[-3:]), flush=True)
    finally:
        clean()
        sh("rm -f /verif/replays/%s-*" % prop)


if not os.environ.get("SEED_NS"):  # work on a scratch copy of /repo, mounted over it in a private namespace
    C = "/tmp/seedrepo-%d" % os.getpid()
    sh("cp -a /repo " + C)
    try:
        rc = subprocess.run(["unshare", "-Urm", "sh", "-c", 'mount --bind %s /repo && cd /verif && exec "$@"' % C, "sh", sys.executable] + sys.argv, env=dict(os.environ, SEED_NS="1")).returncode
    finally:
        shutil.rmtree(C, ignore_errors=True)
    sys.exit(rc)
if sys.argv[1] == "make":
    make(sys.argv[2], sys.argv[3])
else:
    for a in sys.argv[2:]:
        verify(a)

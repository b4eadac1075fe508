"""build and verify planted bugs from tools/seeds/*.seed.py

usage: python3 tools/seed.py [ID ...] [--nocheck]
Each seed file defines PROP, NEEDS, BREAKS, EDITS=[(path, old, new)], DEMO
(python source).  The bug is applied to /repo, built, tested, demonstrated,
checked and undone."""
import difflib, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def lost(path):
    """stable tests that do not pass"""
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    got = set(json.load(open(path))["passed"])
    return [t for t in base if t not in got]


def one(sid, nocheck):
    src = os.path.join(V, "tools/seeds", sid + ".seed.py")
    g = {}
    exec(compile(open(src).read(), src, "exec"), g)
    out = os.path.join(V, "seeded", sid)
    os.makedirs(out, exist_ok=True)
    assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout
    for path, old, new in g["EDITS"]:
        p = os.path.join("/repo", path)
        s = open(p).read()
        if s.count(old) < 1:
            subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
            return f"{sid}: EDIT FAILED {path}: {old[:60]!r}"
        open(p, "w").write(s.replace(old, new, 1))
    diff = sh("git", "-C", "/repo", "diff").stdout
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    shutil.copy(os.path.join(V, "tools/seeds/mini.py"), out)
    open(os.path.join(out, "demo.py"), "w").write(g["DEMO"].lstrip("\n"))
    open(os.path.join(out, "demo.sh"), "w").write(
        '#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W '
        'ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"],
               "what_it_breaks": g["BREAKS"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    msg = []
    try:
        b = sh("bash", "/opt/vp/build.sh")
        if b.returncode:
            msg.append("BUILD FAILS " + b.stdout[-200:] + b.stderr[-200:])
        t = tempfile.mktemp()
        sh("bash", "/opt/vp/test.sh", t)
        bad = lost(t)
        if bad:
            msg.append(f"TESTS FAIL {bad}")
        os.unlink(t)
        d = sh("sh", os.path.join(out, "demo.sh"), cwd="/repo")
        if d.returncode == 0:
            msg.append("DEMO PASSES WITH BUG " + d.stdout[-300:])
        else:
            tail = (d.stdout + d.stderr).strip().splitlines()
            msg.append("demo: " + (tail[-1] if tail else "?"))
        if not nocheck:
            c = sh(os.path.join(V, "check.sh"), g["PROP"])
            v = [x for x in c.stdout.splitlines() if "VIOLATION" in x]
            f = [x for x in c.stdout.splitlines() if x.startswith("[")]
            msg.append(f"check rc={c.returncode} {'CAUGHT' if c.returncode == 1 and v else 'MISSED'} {f[:1]}")
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    d = sh("sh", os.path.join(out, "demo.sh"), cwd="/repo")
    if d.returncode:
        msg.append("DEMO FAILS ON CLEAN: " + (d.stdout + d.stderr)[-600:])
    return f"{sid} [{g['PROP']}]: " + "; ".join(msg)


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    if not a:
        a = sorted(f[:-8] for f in os.listdir(os.path.join(V, "tools/seeds"))
                   if f.endswith(".seed.py"))
    for s in a:
        print(one(s, "--nocheck" in sys.argv), flush=True)

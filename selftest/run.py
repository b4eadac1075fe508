"""Self-test of the checks: each case edits a scratch copy of pdr and states
whether the named check must fire ("bug") or stay quiet ("ok").

usage: python3 selftest/run.py [PROP ...] [-k SUBSTR]
"""
import glob, importlib.util, os, shutil, sys, tempfile, time, traceback
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
SRC = "/repo"


def cases(props, k):
    out = []
    for p in sorted(glob.glob(os.path.join(HERE, "c*.py"))):
        prop = os.path.basename(p)[:3].upper()
        if props and prop not in props:
            continue
        spec = importlib.util.spec_from_file_location("m" + prop, p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for c in m.CASES:
            if k and k not in c[0]:
                continue
            out.append((prop,) + tuple(c))
    return out


def one(case):
    prop, name, expect, edits = case
    from pdrlint.report import run_property, load_known
    d = tempfile.mkdtemp(prefix="pdrst.")
    t0 = time.time()
    try:
        shutil.copytree(os.path.join(SRC, "pdr"), os.path.join(d, "pdr"),
                        ignore=shutil.ignore_patterns("__pycache__", "tests"))
        for path, old, new in edits:
            p = os.path.join(d, path)
            s = open(p).read()
            if s.count(old) < 1:
                return case, f"EDIT-FAILED {path}: {old[:50]!r}", 0, []
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        for path, _, _ in edits:
            try:
                compile(open(os.path.join(d, path)).read(), path, "exec")
            except SyntaxError as e:
                return case, f"EDIT-SYNTAX {e}", 0, []
        try:
            rep = run_property(prop, d, "quick")
        except Exception as e:
            return case, "error " + repr(e)[:200], time.time() - t0, []
        known = load_known(prop)
        f = [x for k, x in rep.findings.items() if k not in known]
        return case, "bug" if f else "ok", time.time() - t0, [
            x.msg for x in f]
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    k = None
    if "-k" in a:
        i = a.index("-k")
        k = a[i + 1]
        del a[i:i + 2]
    verbose = "-v" in a
    if verbose:
        a.remove("-v")
    cs = cases([x.upper() for x in a], k)
    bad = 0
    with ProcessPoolExecutor(7) as ex:
        for case, got, t, msgs in ex.map(one, cs):
            ok = got == case[2]
            bad += not ok
            print(f"{'ok  ' if ok else 'FAIL'} {case[0]} {case[1]:<40} "
                  f"expect {case[2]} got {got} ({t:.1f}s)")
            if msgs and (verbose or not ok):
                for m in msgs[:4]:
                    print("      ", m[:400])
    print(f"{len(cs)} cases, {bad} failures")
    return bool(bad)


if __name__ == "__main__":
    sys.exit(main())

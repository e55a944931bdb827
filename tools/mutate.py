#!/usr/bin/env python3
"""Battery of small edits of /repo's sources used while developing the checks.
mutate.py [-j N] [names or prefixes...]     runs the checks named in each entry on a scratch copy with the edit applied
An entry: (name, expected, checks, [(file, old, new)...]); expected is "bug" (one of the checks must report) or "same" (all stay quiet)."""
import sys, os, subprocess, shutil, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, HERE)


def load():
    import importlib, glob
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "mutants_*.py"))):
        m = importlib.import_module(os.path.basename(f)[:-3])
        out += m.M
    return out


def one(e, allchecks):
    name, exp, checks, edits = e
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        for s in ("src", "include", "CMakeLists.txt", "tests", "3rdparty"):
            p = os.path.join(REPO, s)
            if os.path.isdir(p): shutil.copytree(p, os.path.join(d, s))
            elif os.path.exists(p): shutil.copy(p, os.path.join(d, s))
        for f, old, new in edits:
            p = os.path.join(d, f)
            t = open(p).read()
            n = None
            if isinstance(old, tuple): old, n = old
            if old not in t: return "%-40s EDIT DOES NOT APPLY: %r" % (name, old[:60])
            if n is None and t.count(old) != 1: return "%-40s EDIT NOT UNIQUE (%d): %r" % (name, t.count(old), old[:60])
            if n is None or n == "all": t = t.replace(old, new)
            else:
                parts = t.split(old)
                t = old.join(parts[:n]) + new + old.join(parts[n:])
            open(p, "w").write(t)
        env = dict(os.environ, VSTAT_REPO=d, VSTAT_BUILD=d + "/_b", VSTAT_EVIDENCE=d + "/_e")
        import glob as g
        res, hit, bad = [], False, False
        for c in (allchecks or checks):
            r = subprocess.run(["timeout", "900", "python3", "/verif/vstat/check.py", c], env=env, capture_output=True, text=True)
            kinds = sorted({x.split("]")[0].split("[")[1] for x in r.stdout.splitlines() if ": [" in x})
            res.append("%s=%d%s" % (c, r.returncode, kinds[:3] if kinds else ""))
            if r.returncode == 1: hit = True
            if r.returncode not in (0, 1): bad = True; res.append((r.stdout + r.stderr)[-300:].replace("\n", " | "))
        ok = (hit if exp == "bug" else not hit) and not bad
        return "%-40s %s %s" % (name, "ok  " if ok else "FAIL", " ".join(res))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    j, chk = 4, None
    if a[:1] == ["-j"]: j = int(a[1]); a = a[2:]
    if a[:1] == ["-c"]: chk = a[1].split(","); a = a[2:]
    es = [e for e in load() if not a or any(e[0].startswith(x) for x in a)]
    with cf.ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda e: one(e, chk), es): print(r, flush=True)


if __name__ == "__main__":
    main()

"""Plant one bug: apply the edits in /repo, record the diff, build + test + demo, run checks, undo."""
import json, os, shutil, subprocess, sys
R, S = "/repo", "/verif/seeded"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh("git -C /repo checkout -- .")


def verify(sid, checks=None, tier="quick"):
    d = os.path.join(S, sid)
    meta = json.load(open(d + "/meta.json"))
    res = {}
    try:
        clean()
        # demos are run from a folder elsewhere
        dd = "/tmp/seed_demo"
        shutil.rmtree(dd, ignore_errors=True)
        shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        sh("bash /opt/vp/build.sh")
        p = sh("bash %s/demo.sh" % dd, cwd=R, timeout=400)
        res["demo_clean"] = p.returncode
        if p.returncode: print(p.stdout[-1500:])
        a = sh("git -C /repo apply %s/patch.diff" % d)
        assert a.returncode == 0, a.stdout
        b = sh("bash /opt/vp/build.sh")
        res["build"] = b.returncode
        if b.returncode: print(b.stdout[-1500:])
        t = sh("bash /opt/vp/test.sh /tmp/seed_o.json")
        o = json.load(open("/tmp/seed_o.json"))
        res["tests"] = "%d pass %s" % (len(o["passed"]), o["failed"])
        p = sh("bash %s/demo.sh" % dd, cwd=R, timeout=400)
        res["demo_bug"] = p.returncode
        res["demo_out"] = p.stdout.strip().splitlines()[-1:] if p.stdout.strip() else []
        for c in checks if checks is not None else [meta["property"]]:
            p = sh("VERIF_OUT=/tmp/seed_out python3 /verif/check.py %s %s" % (c, tier))
            res[c] = (p.returncode, [l[:160] for l in p.stdout.splitlines() if l.startswith(("violation", "OK", "CHECK", "BUILD"))][:3])
    finally:
        clean()
        shutil.rmtree("/tmp/seed_demo", ignore_errors=True)
        sh("bash /opt/vp/build.sh")
    ok = res.get("demo_clean") == 0 and res.get("build") == 0 and res.get("tests", "").startswith("3 pass []") and res.get("demo_bug", 0) != 0
    print(sid, "COUNTS" if ok else "BAD", json.dumps(res))
    return ok


def seed(sid, prop, needs, breaks, edits, demo, files=None, shims=False, checks=None):
    """edits: [(file, old, new)]; demo: C++ source of demo.cpp (compiled by demo.sh) """
    d = os.path.join(S, sid)
    os.makedirs(d, exist_ok=True)
    clean()
    try:
        for f, old, new in edits:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff -U0").stdout
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        # the changed lines must come from the original repository, not from a commit of ours
        f = None
        for l in diff.splitlines():
            if l.startswith("--- a/"): f = l[6:]
            if l.startswith("@@"):
                a = l.split()[1][1:].split(",")
                st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                if n:
                    bl = sh("git -C /repo blame -s bc0d2f588d6bd6767bc362ff5f7bb9f89bbc01b5..HEAD -L %d,+%d -- %s" % (st, n, f)).stdout
                    for x in bl.splitlines():
                        if not x.startswith("^"): print("OUR LINE:", sid, x)
    finally:
        clean()
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cpp", "w").write(demo)
    for n, t in (files or {}).items():
        open(os.path.join(d, n), "w").write(t)
    inc = "-I include -I src/benchmark -I src/benchmark/ycsb"
    if shims:
        shutil.rmtree(d + "/shim", ignore_errors=True)
        shutil.copytree("/verif/tools/demo_shim", d + "/shim")
        inc += ' -I "$here/shim"'
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0: behaves as promised; nonzero: broken (run with cwd /repo)
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 99
trap 'find "$out" -delete' EXIT
clang++ -std=c++17 -O1 -g -w -fsanitize=address,undefined -fno-sanitize-recover=all %s "$here/demo.cpp" -o "$out/demo" -lpthread || exit 98
ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=0 timeout 200 "$out/demo"
""" % inc)
    return verify(sid, checks)

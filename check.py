#!/usr/bin/env python3
"""check.py <property> [quick|thorough] | setup | list

Builds the monitors of one property from /repo's current working tree, runs them, turns what they
observed into a verdict and rewrites evidence/<property>.json.
Exit 0: held on everything observed.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
from jobs import CHECKS, SOURCES  # noqa: E402

NCPU = min(8, os.cpu_count() or 8)
OUT = os.environ.get("VERIF_OUT", HERE)  # where build/, evidence/ and replay/ go
BUILD = os.path.join(OUT, "build")
CXX = "clang++"

INCS = ["-I" + REPO + "/include", "-I" + HERE + "/shim", "-I" + HERE + "/harness",
        "-I" + REPO + "/src/benchmark", "-I" + REPO + "/src/benchmark/ycsb"]
BASE = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-Wno-everything"]
FLAVORS = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
}
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:exitcode=77:quarantine_size_mb=16:hard_rss_limit_mb=6000"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1"
ENV["TSAN_OPTIONS"] = "detect_deadlocks=0:halt_on_error=1:second_deadlock_stack=1:exitcode=66:report_signal_unsafe=0"


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, dn, fn in os.walk(d):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".h", ".cpp", ".hpp")) or "." not in f:
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


_tree = None


def compile_one(cmd, out, log):
    """Compile to `out` unless an identical build (same sources, same command) is there already."""
    global _tree
    if _tree is None:
        _tree = tree_hash([REPO + "/include", REPO + "/src", HERE + "/harness", HERE + "/shim"])
    key = hashlib.sha256((_tree + "\0".join(cmd)).encode()).hexdigest()
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return 0
    tmp = "%s.%d.tmp" % (out, os.getpid())
    with open(log, "w") as lf:
        rc = subprocess.call(cmd + ["-o", tmp], stdout=lf, stderr=lf, cwd=HERE)
    if rc == 0:
        os.replace(tmp, out)
        with open(stamp, "w") as f:
            f.write(key)
    return rc


def build(srcs, pool):
    """srcs: set of (source, part).  Returns {(source, part): binary}."""
    os.makedirs(BUILD, exist_ok=True)
    futs, bins = [], {}
    need_rt = set()
    for s, part in srcs:
        need_rt.add((SOURCES[s].get("flavor", "asan"), tuple(SOURCES[s].get("rtflags", [])), SOURCES[s].get("rt", "rt")))
    rts = {}
    for fl, fx, rt in need_rt:
        tag = hashlib.sha256(repr((fl, fx, rt)).encode()).hexdigest()[:8]
        o = os.path.join(BUILD, "%s_%s.o" % (rt, tag))
        cmd = [CXX] + BASE + FLAVORS[fl] + list(fx) + INCS + ["-c", os.path.join(HERE, "harness", rt + ".cpp")]
        rts[(fl, fx, rt)] = o
        futs.append((rt, o + ".log", pool.submit(compile_one, cmd, o, o + ".log")))
    objs = []
    for s, part in sorted(srcs):
        d = SOURCES[s]
        name = "%s_%d" % (s, part)
        o = os.path.join(BUILD, name + ".o")
        cmd = [CXX] + BASE + FLAVORS[d.get("flavor", "asan")] + d.get("flags", []) + INCS + ["-DPART=%d" % part, "-c", os.path.join(HERE, "harness", d["src"])]
        futs.append((name, o + ".log", pool.submit(compile_one, cmd, o, o + ".log")))
        objs.append((s, part, name, o))
    for name, log, f in futs:
        if f.result() != 0:
            sys.stdout.write("BUILD-FAILED %s\n" % name)
            sys.stdout.write("".join(open(log, errors="replace").readlines()[:40]))
            sys.exit(2)
    links = []
    for s, part, name, o in objs:
        d = SOURCES[s]
        rt = rts[(d.get("flavor", "asan"), tuple(d.get("rtflags", [])), d.get("rt", "rt"))]
        b = os.path.join(BUILD, name)
        cmd = [CXX] + FLAVORS[d.get("flavor", "asan")] + [o, rt] + d.get("libs", ["-lpthread"]) + ["-o", b]
        with open(b + ".link.log", "w") as lf:
            links.append((name, b, subprocess.Popen(cmd, stdout=lf, stderr=lf)))
        bins[(s, part)] = b
    for name, b, p in links:
        if p.wait() != 0:
            sys.stdout.write("LINK-FAILED %s\n" % name + open(b + ".link.log", errors="replace").read()[:3000])
            sys.exit(2)
    return bins


FRAME = re.compile(r"^\s*#\d+ 0x[0-9a-f]+ in (.*?) (/\S+?):(\d+)")
TFRAME = re.compile(r"^\s*#\d+ (.*?) (/\S+?):(\d+)")


def short_fn(fn):
    """function name without template arguments, parameters and namespaces"""
    out, depth = "", 0
    fn = fn.replace("operator<", "operator_lt").replace("operator>", "operator_gt").replace("->", "")
    for ch in fn:
        if ch in "<(":
            depth += 1
        elif ch in ">)":
            depth -= 1
        elif depth == 0:
            out += ch
    out = re.sub(r"\[.*?\]", "", out).strip()
    out = out.split(" ")[-1] if "operator" not in out else out[out.index("operator"):]
    return out.split("::")[-1] or "?"


def innermost_repo_frame(text):
    for line in text.splitlines():
        m = FRAME.match(line) or TFRAME.match(line)
        if m and m.group(2).startswith(REPO + "/"):
            return os.path.relpath(m.group(2), REPO), short_fn(m.group(1))
    return None, None


def classify(rc, out):
    """-> None (clean), ('viol', sig, msg) or ('err', msg)"""
    m = re.search(r"^@VIOL (\S+) \| (.*)$", out, re.M)
    if m:
        return ("viol", m.group(1), m.group(2))
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", out)
    if m:
        f, fn = innermost_repo_frame(out[m.start():])
        return ("viol", "asan:%s:%s" % (m.group(1), fn), out[m.start():].splitlines()[0][:200] + " in " + str(f))
    m = re.search(r"runtime error: (.*)", out)
    if m:
        f, fn = innermost_repo_frame(out[m.start():])
        return ("viol", "ubsan:%s" % fn, m.group(1)[:200] + " in " + str(f))
    m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", out)
    if m:
        f, fn = innermost_repo_frame(out[m.start():])
        return ("viol", "tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), fn), "in " + str(f))
    m = re.search(r"Assertion `(.*)' failed", out)
    if m:
        return ("viol", "assert", m.group(1)[:200])
    m = re.search(r"terminate called after throwing an instance of '(.*)'", out)
    if m:
        return ("viol", "uncaught-exception", m.group(1))
    if rc == 3:
        return ("err", "harness reported a setup failure: " + out[-800:])
    if rc < 0:
        return ("viol", "crash", "killed by signal %d" % -rc)
    if rc != 0:
        return ("err", "exit %d: %s" % (rc, out[-800:]))
    if "@EVID " not in out:
        return ("err", "no evidence line: " + out[-800:])
    return None


def run_one(argv, timeout):
    t0 = time.time()
    p = subprocess.Popen(["timeout", "-s", "KILL", str(timeout)] + argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd=BUILD)
    out = p.communicate()[0].decode(errors="replace")
    el = time.time() - t0
    return p.returncode, out, (p.returncode in (124, 137, -9) and el >= timeout - 1), el


START, FOUND = time.time(), threading.Event()


def execute(argv, timeout):
    rc, out, to, el = run_one(argv, timeout)
    # a second, longer try: not once another run has found a violation, and not past the time a check has
    left = timeout * 3.2 - (time.time() - START)
    if to and not FOUND.is_set() and left > timeout / 2:
        rc, out, to, el = run_one(argv, min(timeout * 2, left))
    if not to and (classify(rc, out) or (0,))[0] == "viol":
        FOUND.set()
    return rc, out, to, el


def load_known():
    known = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) sig=(\S+)(?: ctx=(\S+))? (.*)", line)
            if m:
                known.append(m.groups())
    return known


def expand(job, tier, seed):
    """one job -> list of (source, part, argv tail)"""
    res = []
    tiered = dict(job.get("args", {}))
    tiered.update(job.get(tier, {}))
    shards = tiered.pop("shards", 1)
    for part in job.get("parts", [0]):
        for sh in range(shards):
            a = dict(tiered)
            a["seed"] = (seed * 7919 + sh * 104729 + 1) & 0x7FFFFFFF
            res.append((job["src"], part, ["%s=%s" % kv for kv in a.items()]))
    return res


def main():
    if len(sys.argv) < 2:
        sys.exit("usage: check.py <property> [quick|thorough]")
    pid = sys.argv[1]
    if pid == "list":
        print("\n".join(CHECKS))
        return
    if pid == "setup":
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        subprocess.check_call([CXX, "--version"], stdout=subprocess.DEVNULL)
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = CHECKS[pid]
    t0 = time.time()
    pool = cf.ThreadPoolExecutor(NCPU)
    runs = []
    for job in chk["jobs"]:
        runs += expand(job, tier, seed)
    bins = build({(s, p) for s, p, _ in runs}, pool)
    tb = time.time() - t0
    timeout = 240 if tier == "quick" else 2400
    known = load_known()
    ENV["VERIF_KNOWN"] = "".join("," + k[1] for k in known if k[0] == pid) + ","
    futs = []
    for s, p, tail in runs:
        futs.append((s, p, tail, pool.submit(execute, [bins[(s, p)]] + tail, timeout)))
    viols, khits, errs, inconcl = [], {}, [], 0
    totals, maxes, samples = {}, {}, []
    for s, p, tail, f in futs:
        rc, out, to, el = f.result()
        cmdline = "%s_%d %s" % (s, p, " ".join(tail))
        # deviations of a listed finding, which the harness told apart from all others
        for sig in re.findall(r"^@KNOWN (\S+)", out, re.M):
            for kp, ks, kctx, desc in known:
                if kp == pid and ks == sig:
                    khits.setdefault(desc, []).append(cmdline)
        if to:
            inconcl += 1
            sys.stdout.write("INCONCLUSIVE (timeout) %s\n" % cmdline)
            continue
        c = classify(rc, out)
        if c and c[0] == "err":
            errs.append((cmdline, c[1]))
            continue
        if c:
            hit = None
            for kp, ks, kctx, desc in known:
                if kp == pid and ks == c[1] and (not kctx or kctx in c[2]):
                    hit = desc
            if hit:
                khits.setdefault(hit, []).append(cmdline)
            else:
                viols.append((cmdline, c[1], c[2], out))
            continue
        ev = json.loads(re.search(r"^@EVID (.*)$", out, re.M).group(1))
        for k, v in ev.items():
            if k.startswith(("max_", "worst_")):
                maxes[k] = max(maxes.get(k, 0), v)
            elif k == "edges_total" or k == "edges_hit":
                key = "%s_%d_%s" % (s, p, k)
                maxes[key] = max(maxes.get(key, 0), v)
            else:
                totals[k] = totals.get(k, 0) + v
        if len(samples) < 6:
            m = re.search(r"^@SAMPLE (.*)$", out, re.M)
            samples.append({"run": cmdline, "observed": {k: v for k, v in ev.items() if k not in ("edges_total",)}, **({"case": m.group(1)} if m else {})})
    wall = time.time() - t0
    nruns = len(futs)
    evals = totals.get(chk.get("evaluations", "cases"), 0)
    # a run that observed nothing is not a pass
    floor = []
    if not viols and not errs:
        for k, lo in chk.get("floor", {}).items():
            if totals.get(k, maxes.get(k, 0)) < lo:
                floor.append("%s=%d (<%d)" % (k, totals.get(k, maxes.get(k, 0)), lo))
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": chk.get("level", "exploration"),
        "coverage": {
            "evaluations": int(evals), "distinct_nontrivial": int(totals.get("distinct", 0)), "rule": chk["rule"],
            "samples": samples, "runs": nruns, "inconclusive_runs": inconcl,
            "observed": {k: v for k, v in sorted(totals.items()) if k != "distinct"},
            "maxima": maxes, "build_s": round(tb, 1),
        },
        "assumptions": chk.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    for desc, cl in khits.items():
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (pid, desc, len(cl)))
    if viols:
        rd = os.path.join(OUT, "replay")
        os.makedirs(rd, exist_ok=True)
        sigs = set()
        for i, (cl, sig, msg, out) in enumerate(viols):
            if sig in sigs:
                continue
            sigs.add(sig)
            path = os.path.join(rd, "%s_%s_%d.txt" % (pid, tier, len(sigs)))
            with open(path, "w") as f:
                f.write("# property %s violated: %s: %s\n# rerun: python3 %s/check.py %s %s   (VERIF_SEED=%d), or the single run below\n%s\n\n%s\n" %
                        (pid, sig, msg, HERE, pid, tier, seed, os.path.join(BUILD, cl), out[-20000:]))
            print("violation %s: %s [%s]" % (sig, msg[:300], cl))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if errs:
        for cl, e in errs[:5]:
            print("CHECK-ERROR %s: %s" % (cl, e))
        sys.exit(2)
    if inconcl * 2 > nruns or floor:
        print("CHECK-INCONCLUSIVE: %d of %d runs timed out; %s" % (inconcl, nruns, "; ".join(floor)))
        sys.exit(2)
    print("OK property=%s tier=%s runs=%d evaluations=%d distinct=%d wall=%.1fs" % (pid, tier, nruns, evals, totals.get("distinct", 0), wall))


if __name__ == "__main__":
    main()

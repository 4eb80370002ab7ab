#!/usr/bin/env python3
"""Builds and runs the property-based checks.

  run.py <property> [quick|thorough]      decide one property, write evidence/<property>.json
  run.py --replay <file>                  rebuild what the replay file needs and run that one case
  run.py --setup                          self test of the machinery (compilers, oracle, engine)

Environment: VERIF_SEED (default 1), VERIF_TIER (used when the tier is not given on the command line).
Exit codes: 0 held, 1 violated (prints a VIOLATION line), 2 the check itself could not run.
"""
import glob
import concurrent.futures, hashlib, json, os, re, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NEO_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "evidence", "replays")
sys.path.insert(0, HERE)
from spec import SPEC, CONFIGS, TU_FLAGS  # noqa: E402

CXX = "/usr/bin/clang++-18"
GXX = "/usr/bin/g++"
COMMON = ["-std=c++20", "-Wno-everything", "-I" + os.path.join(HERE, "shim"), "-I" + os.path.join(REPO, "src"),
          "-I" + os.path.join(HERE, "harness")]
JOBS = max(1, min(8, os.cpu_count() or 1))
T0 = time.time()


def log(*a):
    print(*a, flush=True)


def cpu_flags():
    try:
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                return set(line.split(":", 1)[1].split())
    except OSError:
        pass
    return set()


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(REPO, "extra"), os.path.join(HERE, "harness"), os.path.join(HERE, "shim"), os.path.join(HERE, "shim_py"), os.path.join(HERE, "shim_cli"),
                 os.path.join(HERE, "shim_juce")):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".cpp", ".ipp")):
                    h.update(os.path.join(d, f).encode())
                    with open(os.path.join(d, f), "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def compile_tu(tu, cfg, defs, key):
    """-> (binary or None, compiler output)"""
    flags = CONFIGS[cfg]["flags"] + list(defs)
    for f in TU_FLAGS.get(tu, []):
        f = f.replace("@HERE@", HERE).replace("@REPO@", REPO)
        # sources by pattern, so that a tree that spreads the same code over other files still links
        flags += sorted(g for g in glob.glob(f) if not os.path.basename(g).startswith("PluginEditor")) if "*" in f else [f]
    tag = hashlib.sha256(("|".join([tu, cfg] + flags) + key).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "%s.%s.%s" % (tu, cfg, tag))
    if os.path.exists(out):
        return out, ""
    os.makedirs(BUILD, exist_ok=True)
    ora = os.path.join(BUILD, "oracle.%s.o" % hashlib.sha256(key.encode()).hexdigest()[:12])
    src = os.path.join(HERE, "harness", tu + ".cpp")
    cmd = [CONFIGS[cfg].get("cxx", CXX)] + COMMON + [src, ora] + flags + ["-o", out + ".tmp%d" % os.getpid()]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0 and cfg != "fuzz" and os.path.exists(GXX):
        # a tree that only one of the two compilers accepts must still be checked
        q = subprocess.run([GXX] + cmd[1:], capture_output=True, text=True)
        r = q if q.returncode == 0 else r
    if r.returncode != 0:
        r = without_failing_checks(cmd, src, out, r)
    if r.returncode != 0:
        return None, r.stderr[-6000:]
    if any("unresolved-symbols" in f for f in flags):
        # only the editor, which is never opened, may be missing
        u = subprocess.run(["nm", "-C", "--undefined-only", cmd[-1]], capture_output=True, text=True).stdout
        missing = [x.strip() for x in u.split("\n") if " neo::" in x and "neo::PluginEditor" not in x]
        if missing:
            os.remove(cmd[-1])
            return None, "missing: " + "; ".join(missing)
    os.replace(out + ".tmp%d" % os.getpid(), out)
    return out, ""


def without_failing_checks(cmd, src, out, first):
    """A tree that rejects one instantiation the harness asks for (an element type or layout no code of the repository uses) must still be
    checked with the others: leave out the checks named in the compiler's instantiation notes and compile again."""
    lines = open(src).read().split("\n")
    copy = "%s.part%d.cpp" % (out, os.getpid())
    dropped = []
    r = first
    for _ in range(4):
        with open(copy, "w") as f:
            f.write("\n".join(lines))
        q = subprocess.run([CXX] + [copy if c == src else c for c in cmd[1:]] + ["-ferror-limit=0", "-ftemplate-backtrace-limit=0"], capture_output=True, text=True)
        if q.returncode == 0:
            log("NOTE: %s compiles without the checks of lines %s" % (os.path.basename(src), ", ".join("%d (%s)" % d for d in dropped)))
            r = q
            break
        hit = {int(m.group(1)) for m in re.finditer(re.escape(copy) + r":(\d+):\d+: (?:note|error):", q.stderr)}
        bad = [n for n in sorted(hit) if n <= len(lines) and re.match(r"[A-Z][A-Z0-9_]*\(.*\)\s*$", lines[n - 1])]
        if not bad:
            break
        for n in bad:
            dropped.append((n, lines[n - 1].strip()[:60]))
            lines[n - 1] = ""
    if os.path.exists(copy):
        os.remove(copy)
    return r


def build_oracle(key):
    os.makedirs(BUILD, exist_ok=True)
    ora = os.path.join(BUILD, "oracle.%s.o" % hashlib.sha256(key.encode()).hexdigest()[:12])
    if os.path.exists(ora):
        return True
    r = subprocess.run([CXX, "-std=c++20", "-O2", "-c", os.path.join(HERE, "harness", "oracle.cpp"), "-o", ora + ".tmp"],
                       capture_output=True, text=True)
    if r.returncode != 0:
        log(r.stderr)
        return False
    os.replace(ora + ".tmp", ora)
    return True


def known_findings():
    """-> list of (property, key, text) from known_findings.txt; only 'finding:' lines suppress anything"""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.append((m.group(1), m.group(2), m.group(3).strip()))
    return out


def run_env(prop):
    env = dict(os.environ)
    env["PBT_KNOWN"] = ",".join(k for p, k, _ in known_findings() if p == prop)
    env.pop("ASAN_OPTIONS", None)
    env.pop("UBSAN_OPTIONS", None)
    return env


def probe(kind):
    """does a program built with this sanitizer run here at all?"""
    exe = os.path.join(BUILD, "probe.%s.%d" % (kind, os.getpid()))
    os.makedirs(BUILD, exist_ok=True)
    src = "#include <thread>\nint main(){int x=0;std::thread t([&]{x=1;});t.join();return x-1;}"
    try:
        r = subprocess.run([CXX, "-std=c++20", "-x", "c++", "-", "-fsanitize=" + kind, "-pthread", "-o", exe], input=src, text=True, capture_output=True)
        return r.returncode == 0 and subprocess.run([exe], capture_output=True, timeout=60).returncode == 0
    except (OSError, subprocess.TimeoutExpired):
        return False
    finally:
        if os.path.exists(exe):
            os.remove(exe)


PROBED = {}


def runnable(cfg):
    need = set(CONFIGS[cfg].get("needs", []))
    kind = CONFIGS[cfg].get("probe")
    if kind and kind not in PROBED:
        PROBED[kind] = probe(kind)
    return need <= cpu_flags() and PROBED.get(kind, True)


def plan_for(prop, tier):
    sp = SPEC[prop]
    tus = list(sp["tus"])
    if tier == "thorough":
        tus += sp.get("thorough_tus", [(t[0], c) + tuple(t[2:]) for c in ("rel", "gcc") for t in sp["tus"] if t[1] == "main"])
    return tus


def check(prop, tier, seed):
    sp = SPEC[prop]
    key = tree_hash()
    if not build_oracle(key):
        return 2
    tus = [(t[0], t[1], t[2] if len(t) > 2 else [], t[3] if len(t) > 3 else 1.0) for t in plan_for(prop, tier)]
    skipped = [t for t in tus if not runnable(t[1])]
    tus = [t for t in tus if runnable(t[1])]
    fuzz_tus = []
    if tier == "thorough" and not sp.get("no_fuzz"):
        fuzz_tus = [(t[0], "fuzz", t[2] if len(t) > 2 else [], 1.0) for t in sp["tus"] if t[1] == "main"]
    bins, failed = {}, []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_tu, t[0], t[1], t[2], key): t for t in tus + fuzz_tus}
        for f in concurrent.futures.as_completed(futs):
            t = futs[f]
            b, err = f.result()
            if b:
                bins[(t[0], t[1], tuple(t[2]))] = b
            else:
                failed.append((t, err))
    for t, err in failed:
        log("NOTE: %s (%s) does not compile against this tree:\n%s" % (t[0], t[1], err))
    build_s = time.time() - T0
    if not any((t[0], t[1], tuple(t[2])) in bins for t in tus):
        log("ERROR: nothing compiled for %s" % prop)
        return 2

    os.makedirs(REPLAYS, exist_ok=True)
    total = {"evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0}
    checks, labels, samples, parts = {}, {}, [], []
    violation = None
    budget = 420.0 if tier == "quick" else 3000.0
    live = [t for t in tus if (t[0], t[1], tuple(t[2])) in bins]
    for i, t in enumerate(live):
        tag = "%s.%s" % (t[0], t[1]) + "".join("." + d.lstrip("-D") for d in t[2])
        res = os.path.join(BUILD, "%s.%s.result.json" % (prop, tag))
        rep = os.path.join(REPLAYS, "%s.%s.replay" % (prop, tag))
        for p in (res, rep):
            if os.path.exists(p):
                os.remove(p)
        cap = max(20.0, (budget - (time.time() - T0 - build_s)) / (len(live) - i))
        cmd = [bins[(t[0], t[1], tuple(t[2]))], "--seed", str(seed), "--tier", tier, "--jobs", str(JOBS), "--cap", "%.0f" % cap,
               "--scale", str(t[3] * (sp.get("qscale", 1.0) if tier == "quick" else sp.get("tscale", 1.0))), "--out", res, "--save", rep, "--config", t[1] + ("," + ",".join(t[2]) if t[2] else ""),
               "--property", prop, "--binary", t[0]]
        r = subprocess.run(cmd, capture_output=True, text=True, env=run_env(prop))
        sys.stdout.write(r.stdout)
        if r.returncode not in (0, 1) or not os.path.exists(res):
            log("ERROR: %s ended with %d\n%s" % (tag, r.returncode, r.stderr[-2000:]))
            return 2
        d = json.load(open(res))
        for k in total:
            total[k] += d[k]
        for n, c in d["checks"].items():
            checks["%s/%s" % (tag, n)] = c
        for n, c in d["labels"].items():
            labels[n] = labels.get(n, 0) + c
        samples += ["%s %s" % (tag, x) for x in d["samples"]]
        parts.append({"part": tag, "evaluations": d["evaluations"], "wall_s": round(d["wall_s"], 1)})
        if r.returncode == 1:
            violation = (rep, d["failure"])
            break

    fuzz = []
    if violation is None and fuzz_tus:
        violation = run_fuzz(prop, fuzz_tus, bins, key, seed, fuzz)
        for f in fuzz:
            total["evaluations"] += f["executions"]

    known = []
    for p, k, text in known_findings():
        if p == prop and labels.get("KNOWN:" + k, 0) > 0:
            known.append({"key": k, "text": text, "cases": labels["KNOWN:" + k]})
            log("KNOWN-FINDING: property=%s %s" % (prop, text))

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total["evaluations"], "distinct_nontrivial": total["distinct_nontrivial"],
            "rule": sp["rule"], "samples": samples[:40], "nontrivial": total["nontrivial"],
            "checks": checks, "labels": labels, "parts": parts, "fuzzing": fuzz,
            "not_run": ["%s.%s: this CPU lacks the instruction set" % (t[0], t[1]) for t in skipped]
            + ["%s.%s: does not compile against this tree" % (t[0], t[1]) for t, _ in failed],
            "known_findings": known, "build_s": round(build_s, 1),
        },
        "assumptions": sp.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1),
        "violations": 1 if violation else 0,
    }
    if violation:
        ev["coverage"]["failure"] = violation[1]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d cases, %d distinct non-trivial, %.0f s" % (prop, tier, total["evaluations"], total["distinct_nontrivial"], time.time() - T0))
    if violation:
        log("VIOLATION property=%s replay=%s" % (prop, violation[0]))
        return 1
    return 0


def run_fuzz(prop, fuzz_tus, bins, key, seed, stats, seconds=90):
    """coverage-guided libFuzzer over the same generators and oracles (choices decoded from bytes)"""
    for t in fuzz_tus:
        b = bins.get((t[0], "fuzz", tuple(t[2])))
        if not b:
            continue
        tag = "%s.fuzz" % t[0] + "".join("." + d.lstrip("-D") for d in t[2])
        work = os.path.join(BUILD, "fuzz.%s.%s" % (prop, tag))
        subprocess.run(["rm", "-rf", work])
        os.makedirs(os.path.join(work, "corpus"))
        r = subprocess.run([b, "corpus", "-fork=%d" % JOBS, "-max_total_time=%d" % seconds, "-seed=%d" % (seed + 1), "-max_len=512", "-len_control=0",
                            "-timeout=40", "-rss_limit_mb=3000", "-ignore_ooms=1", "-ignore_timeouts=0", "-artifact_prefix=./"],
                           cwd=work, capture_output=True, text=True, env=run_env(prop))
        execs = [int(x) for x in re.findall(r"^#(\d+):", r.stderr, re.M)]
        cov = re.findall(r"cov: (\d+)", r.stderr)
        stats.append({"part": tag, "executions": max(execs) if execs else 0, "edges": int(cov[-1]) if cov else 0, "corpus": len(os.listdir(os.path.join(work, "corpus")))})
        crashes = [f for f in os.listdir(work) if f.startswith(("crash-", "timeout-"))]
        main = bins.get((t[0], "main", tuple(t[2])))
        for c in sorted(crashes):
            rep = os.path.join(REPLAYS, "%s.%s.replay" % (prop, tag))
            q = subprocess.run([main, "--bytes", os.path.join(work, c), "--save", rep, "--tier", "thorough", "--config", "main" + ("," + ",".join(t[2]) if t[2] else ""),
                                "--property", prop, "--binary", t[0]], capture_output=True, text=True, env=run_env(prop))
            sys.stdout.write(q.stdout)
            if q.returncode == 1:
                return rep, {"fuzzer": tag, "output": q.stdout[-1500:]}
        subprocess.run(["rm", "-rf", work])
    return None


def replay(path):
    head = {}
    for line in open(path):
        k, _, v = line.strip().partition(" ")
        if k == "choices":
            break
        head[k] = v
    cfg, *defs = head["config"].split(",")
    key = tree_hash()
    build_oracle(key)
    b, err = compile_tu(head["binary"], cfg, defs, key)
    if not b:
        log(err)
        return 2
    r = subprocess.run([b, "--replay", path], env=run_env(head["property"]))
    if r.returncode == 1:
        log("VIOLATION property=%s replay=%s" % (head["property"], path))
    return r.returncode


def setup():
    key = tree_hash()
    if not build_oracle(key):
        return 2
    b, err = compile_tu("selftest", "main", [], key)
    if not b:
        log(err)
        return 2
    r = subprocess.run([b, "--tier", "quick", "--jobs", "4", "--property", "SELF", "--binary", "selftest"])
    return 0 if r.returncode == 0 else 2


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--setup":
        return setup()
    if not a or a[0] not in SPEC:
        log(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return check(a[0], tier, seed)


if __name__ == "__main__":
    try:
        code = main()
    except Exception:  # a fault of this program is no answer, not a violation
        traceback.print_exc()
        code = 2
    sys.exit(code)

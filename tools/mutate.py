#!/usr/bin/env python3
"""Mutation campaign: small syntactic changes to /repo's headers, each compiled into the harness parts of the properties
that depend on the changed file (without shrinking).  Prints the survivors for review.  Works on copies under WORK.

  mutate.py WORK [--per-file N] [--seed S] [--jobs J] [--files regex] [--scale X]
"""
import argparse, concurrent.futures, json, os, random, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from spec import SPEC, CONFIGS  # noqa

MAP = [  # file regex -> properties, first match wins
    (r"algorithm/(add|multiply|scale|fill|copy)\.hpp|linalg_|cblas", ["C17"]),
    (r"algorithm/multiply_add", ["C18", "C14"]),
    (r"algorithm/(mean|variance|standard|root_mean)", ["C19"]),
    (r"algorithm/all", ["C20"]),
    (r"algorithm/normalize|normalize_impulse", ["C21"]),
    (r"bit/|math/(ipow|idiv|is_)|fft/order", ["C26"]),
    (r"complex/scalar|math/(abs|conj|real|imag|polar|log2)", ["C24"]),
    (r"complex/", ["C24", "C05"]),
    (r"csr_matrix", ["C16", "C18"]),
    (r"compressed_accessor", ["C15"]),
    (r"container/mdspan", ["C17"]),
    (r"(fdl)", ["C15", "C11"]),
    (r"sparse_", ["C14"]),
    (r"dense_filter|dense_convolver|uniform_partitioned|overlap_(add|save)\.hpp", ["C13", "C11"]),
    (r"overlap_add_convolver", ["C12"]),
    (r"direct_convolve|fft_convolver|convolution/mode", ["C10"]),
    (r"uniform_partition", ["C07"]),
    (r"fft/stft", ["C07"]),
    (r"fft/dct", ["C06"]),
    (r"fft/(dft|fallback/fallback_dft)", ["C03"]),
    (r"rfftfreq|windowing|a_weighting", ["C29"]),
    (r"fft/(rfft|fallback/fallback_rfft)", ["C04"]),
    (r"split_fft", ["C05"]),
    (r"experimental/rfft", ["C09"]),
    (r"bitrev|digitrev|twiddle", ["C08"]),
    (r"fft/fft\.hpp|fft/(direction|norm)", ["C01", "C02"]),
    (r"fft/reference", ["C01", "C02"]),
    (r"fixed_point/complex", ["C25"]),
    (r"fixed_point/fixed_point", ["C22"]),
    (r"fixed_point/", ["C23"]),
    (r"decibel|fast_math|precision", ["C27"]),
    (r"mel\.hpp", ["C28"]),
    (r"float_equality", ["C20"]),
    (r"simd/", ["C30", "C23"]),
]
SKIP = re.compile(r"backend/(ipp|mkl|vdsp)|neon|testing|config/|_test|type_traits|fft/norm|convolution/method")
SWAPS = [(r"(?<=[\w\)\]\s])\+(?=[\s\w\(])(?!\+)", "-"), (r"(?<=[\w\)\]] )-(?= )", "+"), (r"(?<= )\*(?= )", "+"), (r"(?<= )/(?= )", "*"),
         (r"(?<= )<(?= )", "<="), (r"(?<= )>(?= )", ">="), (r"(?<= )<=(?= )", "<"), (r"(?<= )>=(?= )", ">"), (r"==", "!="), (r"!=", "=="),
         (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bnot\b", ""), (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bforward\b", "backward"), (r"\bbackward\b", "forward"), (r"\bcos\b", "sin"), (r"\bsin\b", "cos"),
         (r"\.real\b", ".imag"), (r"\.imag\b", ".real"), (r"(?<![\w.])(\d+)(?=[UuLl)\]},; ]|$)", "INC"), (r"(?<![\w.])(\d+)(?=[UuLl)\]},; ]|$)", "DEC"),
         (r"\d+\.\d+", "FLT"), (r"\+=", "-="), (r"-=", "+="), (r"(?<= )\+=", "="), (r"\+\+(?=\w)", "--"), (r"<<", ">>"), (r">>", "<<"), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"),
         (r"\bin\b", "out"), (r"\bleft\b", "right"), (r"\bextent\(0\)", "extent(1)"), (r"\bextent\(1\)", "extent(0)"), (r"-(?=\w)", ""), (r"\bceil\b", "floor"),
         (r"\bbegin\b", "end"), (r"\bsqrt\b", "abs"), (r"\babs\b", "sqrt"), (r"\bx\b", "y"), (r"\by\b", "z"), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\bset1\b", "setzero")]


def mutants(path, text):
    out = []
    lines = text.split("\n")
    for n, l in enumerate(lines):
        st = l.strip()
        if not st or st.startswith(("//", "#", "*", "/*", "using", "template", "namespace", "requires", "friend", "[[nodiscard]]", "static_assert", "assert", "auto operator", "inline")):
            continue
        code = l.split("//")[0]
        for pat, rep in SWAPS:
            for m in re.finditer(pat, code):
                t = m.group(0)
                r = rep
                if rep == "INC":
                    r = str(int(m.group(1)) + 1)
                elif rep == "DEC":
                    if int(m.group(1)) == 0:
                        continue
                    r = str(int(m.group(1)) - 1)
                elif rep == "FLT":
                    r = repr(float(t) * 1.02 + (0.01 if float(t) == 0 else 0))
                out.append((n, code[:m.start()] + r + code[m.end():]))
        if re.match(r"^[\w_:.\->\[\]\(\), *+&]+( [+\-*/]?= .*)?;$", st) and not re.match(r"(auto|return|using|int|size_t|constexpr|static|break|case)\b", st):
            out.append((n, "// " + l))
    uniq, seen = [], set()
    for m in out:
        if m not in seen and m[1] != lines[m[0]]:
            seen.add(m)
            uniq.append(m)
    return lines, uniq


def one(job):
    work, rel, n, new, old, props, scale, idx = job
    d = os.path.join(work, "m%d" % idx)
    shutil.copytree(os.path.join(work, "base"), d)
    p = os.path.join(d, rel)
    lines = open(p).read().split("\n")
    lines[n] = new
    open(p, "w").write("\n".join(lines))
    res = "survived"
    compiled = False
    try:
        for pr in props:
            sp = SPEC[pr]
            done = set()
            for t in sp["tus"]:
                if t[1] != "main" and not (pr in ("C18", "C23", "C30")):
                    continue
                defs = list(t[2]) if len(t) > 2 else []
                exe = os.path.join(d, "h")
                cmd = ["clang++-18", "-std=c++20", "-Wno-everything", "-I" + HERE + "/shim", "-I" + d + "/src", "-I" + HERE + "/harness"] + CONFIGS[t[1]]["flags"] + defs + \
                    [HERE + "/harness/" + t[0] + ".cpp", os.path.join(work, "oracle.o"), "-o", exe]
                c = subprocess.run(cmd, capture_output=True, text=True)
                if c.returncode != 0:
                    continue
                compiled = True
                env = dict(os.environ, PBT_NOSHRINK="1", PBT_KNOWN="imag-of-real,product-uses-left-imag")
                r = subprocess.run([exe, "--seed", "1", "--tier", "quick", "--jobs", "1", "--cap", "60", "--scale", str(scale * sp.get("qscale", 1.0)), "--out", d + "/r.json", "--save", d + "/rep",
                                    "--config", t[1], "--property", pr, "--binary", t[0]], capture_output=True, text=True, env=env)
                if r.returncode != 0:
                    m = re.search(r"^message: (.*)", r.stdout, re.M)
                    return (rel, n, old, new, "killed %s %s" % (pr, m.group(1)[:80] if m else r.returncode))
        if not compiled:
            res = "nocompile"
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return (rel, n, old, new, res)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("work"); a.add_argument("--per-file", type=int, default=10); a.add_argument("--seed", type=int, default=1)
    a.add_argument("--jobs", type=int, default=6); a.add_argument("--files", default="."); a.add_argument("--scale", type=float, default=0.15)
    o = a.parse_args()
    os.makedirs(o.work, exist_ok=True)
    base = os.path.join(o.work, "base")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run("git -C /repo archive HEAD src | tar -x -C " + base, shell=True, check=True)
    subprocess.run(["clang++-18", "-std=c++20", "-O2", "-c", HERE + "/harness/oracle.cpp", "-o", o.work + "/oracle.o"], check=True)
    rng = random.Random(o.seed)
    jobs = []
    for dp, _, fs in sorted(os.walk(base + "/src/neo")):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(dp, f), base)
            if not f.endswith(".hpp") or SKIP.search(rel) or not re.search(o.files, rel):
                continue
            props = next((p for r, p in MAP if re.search(r, rel)), None)
            if not props:
                continue
            lines, ms = mutants(rel, open(os.path.join(dp, f)).read())
            rng.shuffle(ms)
            per = o.per_file if len(lines) < 200 else 2 * o.per_file
            for n, new in ms[:per]:
                jobs.append((o.work, rel, n, new, lines[n], props, o.scale, len(jobs)))
    print(len(jobs), "mutants", flush=True)
    count = {}
    with concurrent.futures.ThreadPoolExecutor(o.jobs) as ex, open(o.work + "/results.txt", "a") as out:
        for r in ex.map(one, jobs):
            k = r[4].split()[0]
            count[k] = count.get(k, 0) + 1
            out.write(json.dumps(r) + "\n"); out.flush()
            if k == "survived":
                print("SURVIVED %s:%d\n  - %s\n  + %s" % (r[0], r[1] + 1, r[2].strip(), r[3].strip()), flush=True)
    print(count)


main()

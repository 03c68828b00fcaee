#!/usr/bin/env python3
"""Builds a monitor from /repo's working tree, runs it, judges and records what it saw.

  run.py <property>                 run the check (VERIF_TIER=quick|thorough, VERIF_SEED)
  run.py --replay <file>            re-run exactly one recorded failing case
  run.py --build <property>...      only build
Exit: 0 held, 1 violated (VIOLATION line), 2 no verdict (build error, vacuous run).
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import PROPS  # noqa: E402

BUILD = os.path.join(VERIF, "build")
JOBS = max(1, min(8, os.cpu_count() or 1))

BASE = ["-std=c++20", "-DSIMU_OS_LINUX", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness"), "-w"]
SAN = ["-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
VARIANTS = {
    # name: (compiler, flags, environment, command prefix)
    "asan": ("clang++", ["-O1"] + SAN, {}, []),
    "asan0": ("clang++", ["-O0"] + SAN, {}, []),
    "asanmalloc": ("clang++", ["-O1", "-DSIMU_VERIF_MALLOC"] + SAN, {"LEAKS": "1"}, []),
    "asanleak": ("clang++", ["-O1"] + SAN, {"LEAKS": "1"}, []),
    "plain": ("g++", ["-O2", "-g1"], {}, []),
    "memcheck": ("g++", ["-O1", "-g", "-DSIMU_VERIF_MALLOC", "-DVF_MEMCHECK"], {},
                 ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--undef-value-errors=yes",
                  "--leak-check=no", "--track-origins=no"]),
    "initpat": ("clang++", ["-O1", "-g1", "-ftrivial-auto-var-init=pattern", "-DVF_FILL=0x5a"], {}, []),
    "initzero": ("clang++", ["-O1", "-g1", "-ftrivial-auto-var-init=zero", "-DVF_FILL=0x00"], {}, []),
}


# harnesses that also need the application layer and the demos, with stand-ins for the display
APP = {"h_app.cpp"}


def repo_sources(src):
    out = []
    for d in ("src/Simu/math", "src/Simu/physics") + (("src/Simu/app", "demos") if src in APP else ()):
        p = os.path.join(REPO, d)
        out += [os.path.join(p, f) for f in sorted(os.listdir(p))
                if f.endswith(".cpp") and f not in ("Demos.cpp", "ImGuiTest.cpp")]
    return out


def app_flags(src):
    if src not in APP:
        return []
    return ["-I" + os.path.join(VERIF, "harness", "standin"), "-I" + os.path.join(REPO, "demos")]


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(REPO, "demos"), os.path.join(VERIF, "harness")]
    for r in roots:
        for d, dirs, files in os.walk(r):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h


def build(src, variant):
    """Returns the path of the binary for harness file src, building it if the sources changed."""
    cxx, flags, _, _ = VARIANTS[variant]
    h = tree_hash()
    h.update(repr((src, variant, cxx, flags, BASE)).encode())
    key = h.hexdigest()[:16]
    stem = os.path.splitext(src)[0]
    exe = os.path.join(BUILD, "%s-%s-%s" % (stem, variant, key))
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    for f in os.listdir(BUILD):  # one binary per (harness, variant) is kept
        if f.startswith("%s-%s-" % (stem, variant)) and ".tmp" not in f:
            try:
                os.remove(os.path.join(BUILD, f))
            except OSError:
                pass
    tmp = tempfile.mkdtemp(prefix="%s-%s.tmp" % (stem, variant), dir=BUILD)
    try:
        srcs = [os.path.join(VERIF, "harness", src), os.path.join(VERIF, "harness", "main.cpp")] + repo_sources(src)

        def compile_one(s):
            o = os.path.join(tmp, hashlib.md5(s.encode()).hexdigest() + ".o")
            r = subprocess.run([cxx] + BASE + app_flags(src) + flags + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return s, o, r

        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(compile_one, srcs))
        for s, o, r in res:
            if r.returncode != 0:
                sys.stdout.write(r.stdout[:1800])
                raise SystemExit("BUILD-ERROR %s (%s)" % (s, variant))
        r = subprocess.run([cxx] + flags + [o for _, o, _ in res] + ["-o", os.path.join(tmp, "exe")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[:1800])
            raise SystemExit("BUILD-ERROR link %s (%s)" % (src, variant))
        os.rename(os.path.join(tmp, "exe"), exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def env_for(variant, exe=""):
    e = dict(os.environ)
    extra = VARIANTS[variant][2]
    leaks = extra.get("LEAKS", "0")
    e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=97:detect_leaks=%s:detect_stack_use_after_return=1:"
                         "check_initialization_order=0:handle_abort=0:allocator_may_return_null=0:"
                         "detect_container_overflow=1:max_malloc_fill_size=4096:malloc_fill_byte=190:"
                         "free_fill_byte=85:max_free_fill_size=4096:quarantine_size_mb=64" % leaks)
    if os.path.basename(exe).startswith("h_app"):
        e["ASAN_OPTIONS"] += ":hard_rss_limit_mb=2000"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    return e


def failures_of(text, returncode):
    """Parses one worker's output into [(case, sig, msg)] and tells whether it finished."""
    fails = []
    for m in re.finditer(r"^FAIL prop=\S+ case=(-?\d+) sig=(\S+) msg=(.*)$", text, re.M):
        fails.append((int(m.group(1)), m.group(2), m.group(3)))
    done = re.search(r"^DONE ", text, re.M) is not None
    m = re.search(r"^HANG prop=\S+ case=(-?\d+)", text, re.M)
    if m:
        fails.append((int(m.group(1)), "hang", "the case used its whole CPU budget without finishing"))
    crash = re.search(r"^CRASH prop=\S+ case=(-?\d+)", text, re.M)
    vg = re.search(r"^==\d+== (.+)$", text, re.M)
    if crash or (returncode not in (0, 1, 3) and not m):
        what = "crash"
        k = re.search(r"(AddressSanitizer: [\w-]+|LeakSanitizer: [\w ]+|runtime error: [^\n]+|SUMMARY: [^\n]+)", text)
        if k:
            what = k.group(1)
        elif vg and returncode == 99:
            what = "memcheck: " + vg.group(1)
        case = int(crash.group(1)) if crash else -1
        kind = "crash"
        if "LeakSanitizer" in what:
            kind = "leak"
        elif "runtime error" in what:
            kind = "undefined-behaviour"
        elif "AddressSanitizer" in what or "memcheck" in what:
            kind = "memory-error"
        frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (simu::[\w:~<>]+|[\w:~]+)", text)
        frame = next((f for f in frames if "simu" in f), "")
        fails.append((case, kind, "%s %s (exit %s)" % (what[:200], frame[:120], returncode)))
    return fails, done


def run_worker(exe, variant, prop, seed, tier, start, count, stride, deadline, case_cpu, verbose=False):
    """Runs one shard; restarts after crashes so that one bad case does not hide the others."""
    prefix = VARIANTS[variant][3]
    cov = {"cases": 0, "evaluations": 0, "counters": {}, "maxima": {}, "samples": []}
    states, fails, log = set(), [], ""
    restarts = 0
    truncated = False
    while count > 0:
        left = deadline - time.time()
        if left <= 1:
            truncated = True
            break
        with tempfile.TemporaryDirectory(prefix="vf-") as td:
            out = os.path.join(td, "o")
            cmd = prefix + [exe, "--prop", prop, "--seed", str(seed), "--start", str(start), "--count", str(count),
                            "--stride", str(stride), "--out", out, "--case-cpu", str(case_cpu)]
            if tier == "thorough":
                cmd.append("--thorough")
            if verbose:
                cmd.append("--verbose")
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env_for(variant, exe), cwd=td)
            try:
                text = p.communicate(timeout=left)[0].decode("utf-8", "replace")
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                truncated = True
                break
            if os.path.exists(out + ".json"):
                with open(out + ".json") as f:
                    c = json.load(f)
                cov["cases"] += c["cases"]
                cov["evaluations"] += c["evaluations"]
                for k, v in c["counters"].items():
                    cov["counters"][k] = cov["counters"].get(k, 0) + v
                for k, v in c["maxima"].items():
                    cov["maxima"][k] = max(cov["maxima"].get(k, v), v)
                cov["samples"] += c["samples"]
                with open(out + ".states", "rb") as f:
                    b = f.read()
                states.update(b[i:i + 8] for i in range(0, len(b), 8))
        fl, done = failures_of(text, p.returncode)
        fails += fl
        if fl:
            log = text[-6000:]
        if done and p.returncode in (0, 1):
            break
        if done:  # e.g. leaks reported at exit
            break
        cases = [c for c, s, _ in fl if s in ("hang", "crash", "memory-error", "undefined-behaviour", "leak") and c >= 0]
        if not cases or restarts >= 3:
            break
        restarts += 1
        nxt = cases[-1] + stride
        count -= (nxt - start) // stride
        start = nxt
    return cov, states, fails, log, truncated


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("known", [])


def is_known(known, prop, variant, case, sig, msg):
    for k in known:
        if k["property"] == prop and k["sig"] == sig and (k.get("case") is None or k["case"] == case) \
                and re.search(k.get("match", ""), msg):
            return k
    return None


def check(prop):
    spec = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    limit = 780 if tier == "quick" else spec.get("thorough_wall", 7200)
    deadline = t0 + limit
    cov = {"cases": 0, "evaluations": 0, "counters": {}, "maxima": {}, "samples": []}
    states = set()
    allfails = []
    truncated = False
    runs_desc = []
    exes = {}
    need = []
    for r in spec["runs"]:
        key = (r.get("src", spec.get("src")), r["variant"])
        if key not in need:
            need.append(key)
    for key in need:
        exes[key] = build(*key)
    t_build = time.time() - t0

    for r in spec["runs"]:
        src = r.get("src", spec.get("src"))
        exe = exes[(src, r["variant"])]
        name = r.get("name", prop)
        n = r[tier] if tier in r else r["quick"] * 30
        per = (n + JOBS - 1) // JOBS
        runs_desc.append("%s/%s:%d cases" % (name, r["variant"], per * JOBS))
        with ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(run_worker, exe, r["variant"], name, seed, tier, r.get("first", 0) + w, per, JOBS, deadline,
                              r.get("case_cpu", 30)) for w in range(JOBS)]
            res = [f.result() for f in futs]
        for c, st, fails, log, tr in res:
            truncated |= tr
            cov["cases"] += c["cases"]
            cov["evaluations"] += c["evaluations"]
            for k, v in c["counters"].items():
                cov["counters"][k] = cov["counters"].get(k, 0) + v
            for k, v in c["maxima"].items():
                cov["maxima"][k] = max(cov["maxima"].get(k, v), v)
            cov["samples"] += c["samples"]
            states |= st
            for f in fails:
                allfails.append((r, src, name) + f + (log,))

    # properties judged by comparing the outputs of two builds
    known = load_known()
    violations, seen_known = [], {}
    for r, src, name, case, sig, msg, log in allfails:
        k = is_known(known, prop, r["variant"], case, sig, msg)
        if k is not None:
            seen_known[k["id"]] = k
        else:
            violations.append((r, src, name, case, sig, msg, log))
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    min_fail = []
    if not violations:
        scale = 1
        for k, v in spec.get("min", {}).items():
            have = cov["counters"].get(k, 0)
            if have < v * scale:
                min_fail.append("%s=%g < %g" % (k, have, v))

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": int(cov["evaluations"]),
            "distinct_nontrivial": len(states),
            "rule": spec["rule"],
            "samples": cov["samples"][:6] or ["(none)"],
            "cases": cov["cases"], "runs": runs_desc,
            "observed": {k: cov["counters"][k] for k in sorted(cov["counters"])},
            "maxima": {k: cov["maxima"][k] for k in sorted(cov["maxima"])},
            "truncated_by_time": truncated, "build_s": round(t_build, 1),
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    print("%s: %d cases, %d evaluations, %d distinct situations, build %.1fs, wall %.1fs" % (
        prop, cov["cases"], cov["evaluations"], len(states), t_build, time.time() - t0))
    if violations:
        seen = set()
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        violations.sort(key=lambda v: v[3])
        for r, src, name, case, sig, msg, log in violations:
            if sig in seen:
                continue
            seen.add(sig)
            path = os.path.join(rd, "%s-%s-%d.json" % (prop, re.sub(r"\W+", "_", sig)[:40], case))
            with open(path, "w") as f:
                json.dump({"property": prop, "name": name, "src": src, "variant": r["variant"], "seed": seed, "tier": tier,
                           "case": case, "sig": sig, "msg": msg, "log": log}, f, indent=1)
            print("  case %d [%s/%s] %s: %s" % (case, name, r["variant"], sig, msg[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if min_fail:
        print("NO-VERDICT property=%s the run observed too little: %s" % (prop, "; ".join(min_fail)))
        return 2
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    exe = build(r["src"], r["variant"])
    td = tempfile.mkdtemp(prefix="vf-")
    try:
        cmd = VARIANTS[r["variant"]][3] + [exe, "--prop", r["name"], "--seed", str(r["seed"]), "--start", str(max(0, r["case"])),
                                           "--count", "1", "--verbose", "--case-cpu", "60"]
        if r["tier"] == "thorough":
            cmd.append("--thorough")
        p = subprocess.run(cmd, env=env_for(r["variant"], exe), cwd=td, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    finally:
        shutil.rmtree(td, ignore_errors=True)
    text = p.stdout.decode("utf-8", "replace")
    sys.stdout.write(text)
    fails, _ = failures_of(text, p.returncode)
    if fails:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--setup":
        # the checks build what they need from /repo's current tree; here only the tools are probed
        for tool in ("clang++", "g++", "valgrind"):
            if shutil.which(tool) is None:
                print("missing", tool)
                return 2
        os.makedirs(BUILD, exist_ok=True)
        return 0
    if a and a[0] == "--build":
        for p in (a[1:] or PROPS):
            for r in PROPS[p]["runs"]:
                print(p, build(r.get("src", PROPS[p].get("src")), r["variant"]))
        return 0
    if len(a) != 1 or a[0] not in PROPS:
        print(__doc__)
        return 2
    try:
        return check(a[0])
    except SystemExit as e:
        print(e)
        return 2


if __name__ == "__main__":
    sys.exit(main())

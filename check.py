#!/usr/bin/env python3
"""Driver: builds the harness against /repo's working tree, runs one property's generated-input
search, writes evidence/<id>.json and prints KNOWN-FINDING / VIOLATION lines.

Usage: check.py <id> [--cases N] [--jobs N] [--replay FILE]
       check.py --setup          (build every variant)
Exit status: 0 the property held on everything explored, 1 violation, 2 the check itself failed.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CUTTLEFISH_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")

COMMON = ["-std=gnu++14", "-g1", "-DNDEBUG", "-DCUTTLEFISH_ISPC=0", "-fno-strict-aliasing",
          "-faligned-new", "-w", "-pthread"]
VARIANTS = {
    # Address + undefined behaviour sanitizers; the variant every property runs on.
    "asan": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
             "-fno-sanitize-recover=all", "-fno-sanitize=vptr"],
    # Thread sanitizer, for the data race half of C03.
    "tsan": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    # The block compressors, which need libraries that aren't here, with stand-ins for those
    # (harness/blocks). C31 and C32 run on it, and nothing else.
    "block": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
              "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-DCUTTLEFISH_HAS_S3TC=1",
              "-DCUTTLEFISH_HAS_ETC=1", "-DCUTTLEFISH_HAS_ASTC=1", "-DCUTTLEFISH_HAS_PVRTC=1"],
}
BLOCKS = os.path.join(HARNESS, "blocks")
MAIN_VARIANT = {"C31": "block", "C32": "block"}
# FreeImage functions whose calls go through the harness (harness/fault.cpp), to make them fail.
WRAPS = ["Allocate", "AllocateT", "Clone", "ConvertTo8Bits", "ConvertToGreyscale",
         "ConvertTo16Bits555", "ConvertTo16Bits565", "ConvertTo24Bits", "ConvertTo32Bits",
         "ConvertToFloat", "ConvertToRGBF", "ConvertToRGBAF", "ConvertToUINT16", "ConvertToRGB16",
         "ConvertToRGBA16", "ConvertToStandardType", "ConvertToType", "Rotate", "Rescale", "Copy",
         "Load", "LoadFromHandle", "LoadFromMemory", "OpenMemory", "SaveToMemory"]
START_THREAD = "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"
# Extra runs of a property on another variant: (variant, share of the cases).
EXTRA = {"C03": [("tsan", 0.1)], "C28": [("tsan", 0.5)]}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sources(variant):
    def walk(d, exts):
        r = []
        for root, dirs, files in os.walk(d):
            dirs[:] = sorted(x for x in dirs if x not in ("test", "tests", "blocks"))
            r += [os.path.join(root, f) for f in sorted(files) if f.endswith(exts)]
        return r
    lib = walk(os.path.join(REPO, "lib/src"), (".cpp",))
    tool = walk(os.path.join(REPO, "tool"), (".cpp",))
    harness = walk(HARNESS, (".cpp",))
    if variant == "block":
        tool = []
        harness = [os.path.join(HARNESS, n) for n in ("engine.cpp", "fault.cpp")] + \
            walk(BLOCKS, (".cpp",))
    headers = []
    for d in ("lib/include", "lib/src", "tool"):
        headers += walk(os.path.join(REPO, d), (".h", ".hpp", ".inl", ".ipp"))
    headers += walk(HARNESS, (".h",))
    if variant == "block":
        headers += walk(BLOCKS, (".h", ".hpp"))
    return lib, tool, harness, headers


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


class BuildError(Exception):
    pass


def build(variant):
    """Returns the path of the harness binary for REPO's current working tree."""
    bdir = os.path.join(BUILD, variant)
    os.makedirs(os.path.join(bdir, "obj"), exist_ok=True)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return build_locked(variant, bdir)


def build_locked(variant, bdir):
    lib, tool, harness, headers = sources(variant)
    stub = os.path.join(bdir, "stub/cuttlefish")
    os.makedirs(stub, exist_ok=True)
    with open(os.path.join(stub, "Export.h"), "w") as f:
        f.write("#pragma once\n#define CUTTLEFISH_EXPORT\n#define CUTTLEFISH_NO_EXPORT\n")
    # tests/_build may hold a generated Export.h with more macros; ours is enough for a static link.
    flags = COMMON + VARIANTS[variant]
    inc = ["-I" + os.path.join(bdir, "stub"), "-I" + os.path.join(REPO, "lib/include"),
           "-I" + os.path.join(REPO, "lib/src"), "-I" + os.path.join(REPO, "lib/glm")]
    if variant == "block":
        inc += ["-I" + os.path.join(BLOCKS, "include")]
    hrepo = digest(*[h + "\0" + read(h).decode("utf-8", "replace") for h in headers
                     if h.startswith(REPO)])
    hharn = digest(*[read(h) for h in headers if not h.startswith(REPO)])
    jobs = []
    for kind, files in (("lib", lib), ("tool", tool), ("harness", harness)):
        for s in files:
            extra = []
            if kind == "tool":
                extra = ["-Dmain=cuttlefish_tool_main", "-I" + os.path.join(REPO, "tool")]
            elif kind == "harness":
                extra = ["-I" + HARNESS]
            key = digest(s, read(s), " ".join(flags + inc + extra), hrepo,
                         hharn if kind == "harness" or variant == "block" else "")
            obj = os.path.join(bdir, "obj", "%s-%s-%s.o" % (
                kind, os.path.basename(s).replace(".cpp", ""), key))
            jobs.append((kind, s, obj, extra))

    def compile_one(job):
        kind, s, obj, extra = job
        if os.path.exists(obj):
            os.utime(obj)
            return None
        tmp = obj + ".tmp%d.o" % os.getpid()
        r = sh(["g++"] + flags + inc + extra + ["-c", s, "-o", tmp])
        if r.returncode != 0:
            return "compiling %s failed:\n%s" % (s, r.stdout[-4000:])
        if kind == "tool":
            # Give the tool's entry point a fixed name, whatever its parameter types are.
            r = sh(["nm", "--defined-only", tmp])
            for line in r.stdout.split("\n"):
                name = line.split(" ")[-1]
                if name.startswith("_Z20cuttlefish_tool_main") or name == "cuttlefish_tool_main":
                    sh(["objcopy", "--redefine-sym", name + "=cuttlefish_tool_entry", tmp])
        os.replace(tmp, obj)
        return None

    t0 = time.time()
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        # Largest first.
        order = sorted(jobs, key=lambda j: -os.path.getsize(j[1]))
        errors = [e for e in ex.map(compile_one, order) if e]
    if errors:
        raise BuildError("\n".join(errors))
    objs = [j[2] for j in jobs]
    binary = os.path.join(bdir, "pbt-" + digest(*(sorted(objs) + WRAPS + [START_THREAD])))
    if not os.path.exists(binary):
        tmp = binary + ".tmp%d" % os.getpid()
        r = sh(["g++"] + flags + objs + ["-Wl,--wrap=FreeImage_" + w for w in WRAPS] +
               ["-Wl,--wrap=" + START_THREAD] +
               ["-o", tmp, "-lfreeimage", "-lpthread"])
        if r.returncode != 0:
            raise BuildError("link failed:\n" + r.stdout[-4000:])
        os.replace(tmp, binary)
        log("built %s in %.1f s" % (os.path.basename(binary), time.time() - t0))
    os.utime(binary)
    # Forget stale products so that the folder stays small.
    now = time.time()
    keep = set(objs)
    for d, pat in ((os.path.join(bdir, "obj"), ".o"), (bdir, "")):
        for n in os.listdir(d):
            p = os.path.join(d, n)
            if os.path.isfile(p) and p not in keep and p != binary and \
                    (n.endswith(".o") or n.startswith("pbt-")) and \
                    now - os.path.getmtime(p) > 7200:
                os.unlink(p)
    return binary


def setup():
    for v in VARIANTS:
        build(v)


def sanitizer_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:"
                           "allocator_may_return_null=1:detect_stack_use_after_return=0:"
                           "max_allocation_size_mb=256:max_malloc_fill_size=300000000:malloc_fill_byte=190:quarantine_size_mb=16:"
                           "handle_sigfpe=1:print_legend=0:print_full_thread_history=0:"
                           "malloc_context_size=4")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:report_thread_leaks=0"
    env["LC_ALL"] = "C.UTF-8"
    return env


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("findings", [])


LEVELS = {"C12": "fault_enumeration", "C29": "fault_enumeration"}


def run(pid, argv):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    cases, jobs, replay = 0, os.cpu_count() or 4, None
    i = 0
    while i < len(argv):
        if argv[i] == "--cases":
            cases = int(argv[i + 1]); i += 2
        elif argv[i] == "--jobs":
            jobs = int(argv[i + 1]); i += 2
        elif argv[i] == "--replay":
            replay = argv[i + 1]; i += 2
        elif argv[i] == "--tier":
            tier = argv[i + 1]; i += 2
        else:
            log("unknown argument", argv[i]); return 2
    t0 = time.time()
    os.environ["VERIF_TIER"] = tier
    findings = [f for f in known_findings() if f.get("property") == pid and not f.get("fixed")]
    scratch = tempfile.mkdtemp(prefix="cuttlefish-verif-")
    try:
        return run_in(pid, seed, tier, cases, jobs, replay, findings, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_in(pid, seed, tier, cases, jobs, replay, findings, scratch, t0):
    known = []
    for f in findings:
        known += ["--known-key", f["key"]]
    evidence = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    env = sanitizer_env()
    if replay:
        data = json.load(open(replay))
        variant = data.get("variant", MAIN_VARIANT.get(pid, "asan"))
        binary = build(variant)
        r = subprocess.run([binary, "--prop", pid, "--replay", os.path.abspath(replay),
                            "--scratch", scratch] + known, env=env)
        return r.returncode

    runs = [(MAIN_VARIANT.get(pid, "asan"), 1.0)] + EXTRA.get(pid, [])
    results, violation = [], None
    for variant, share in runs:
        binary = build(variant)
        n = cases
        if n == 0:
            listing = sh([binary, "--list"], env=env).stdout
            for line in listing.split("\n"):
                p = line.split()
                if p and p[0] == pid:
                    n = int(p[2] if tier == "thorough" else p[1])
        if n == 0:
            log("no such property", pid); return 2
        n = max(1, int(n*share))
        out = os.path.join(scratch, "out-%s.json" % variant)
        rep = os.path.join(scratch, "replay.json")
        limit = 500 if tier == "quick" else 4*3600
        cmd = [binary, "--prop", pid, "--seed", str(seed), "--cases", str(n), "--jobs", str(jobs),
               "--out", out, "--replay-out", rep, "--scratch", scratch, "--max-seconds",
               str(limit if share == 1.0 else limit/4)] + known
        if variant == "tsan" and shutil.which("setarch"):
            # The sanitizer's fixed address layout needs address randomisation off.
            cmd = ["setarch", os.uname().machine, "-R"] + cmd
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            log("harness failed (%s): status %s\n%s" % (variant, r.returncode, r.stdout[-3000:]))
            return 2
        res = json.load(open(out))
        res["variant"] = variant
        results.append(res)
        if res["failed"]:
            data = json.load(open(rep))
            data["variant"] = variant
            name = "%s-%s.json" % (pid, digest(json.dumps(data["tape"]), variant)[:12])
            path = os.path.join(VERIF, "replays", name)
            with open(path, "w") as f:
                json.dump(data, f, indent=1)
            violation = (path, res["failure"])
            break

    main = results[0]
    seen = {}
    for r in results:
        for k, v in r["known"].items():
            seen[k] = seen.get(k, 0) + v
    labels = dict(sorted(main["labels"].items()))
    coverage = {
        "evaluations": sum(r["evaluations"] for r in results),
        "distinct_nontrivial": main["distinct_nontrivial"],
        "rule": main["rule"],
        "samples": main["samples"],
        "comparisons_made": sum(r["checks"] for r in results),
        "discarded": sum(r["discards"] for r in results),
        "cases_by_label": labels,
        "search_seconds": round(sum(r["search_seconds"] for r in results), 2),
        "stopped_by_time_limit": any(r["stopped_by_time"] for r in results),
        "unreproduced_failures": sum(r["unreproduced"] for r in results),
    }
    if len(results) > 1 or len(runs) > 1:
        coverage["runs"] = [{"variant": r["variant"], "evaluations": r["evaluations"],
                             "distinct_nontrivial": r["distinct_nontrivial"]} for r in results]
    msgs = [m for r in results for m in r["unreproduced_messages"]]
    if msgs:
        coverage["unreproduced_messages"] = msgs
    if violation:
        coverage["failure"] = violation[1]
    ev = {
        "property": pid, "tier": tier, "seed": seed,
        "level": LEVELS.get(pid, "exploration"), "coverage": coverage,
        "assumptions": [
            "the system FreeImage 3.18 and libstdc++ behave as linked here",
            "library and tool are compiled from /repo's working tree with gcc and the %s variant's "
            "sanitizers instead of the shipped optimisation flags" % main["variant"]],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    if findings:
        ev["coverage"]["known_findings_hit"] = seen
    tmp = evidence + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, evidence)
    for f in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (
        pid, tier, seed, coverage["evaluations"], coverage["distinct_nontrivial"],
        time.time() - t0))
    if violation:
        path, failure = violation
        print("  %s" % failure["key"])
        print("  %s" % failure["message"])
        print("  case: %s" % failure["case"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    try:
        if sys.argv[1] == "--setup":
            setup()
            return 0
        return run(sys.argv[1], sys.argv[2:])
    except BuildError as e:
        log("BUILD FAILED\n" + str(e))
        return 2


if __name__ == "__main__":
    sys.exit(main())

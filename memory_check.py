"""C24: the hostile workload of harness/src/mem.rs under the plain build (debug assertions, checked library
preconditions, stack limits), AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri. Every lane is the same
program built another way; what a lane reports about the process is the verdict."""
import json, os, re, shutil, subprocess, tempfile, time

TARGET = "x86_64-unknown-linux-gnu"
STD = ["-Zbuild-std=std,panic_unwind"]
LANES = {
    # name: (rustflags, extra cargo arguments, environment, scale, report)
    "asan": ("-Zsanitizer=address", [], {"ASAN_OPTIONS": "exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:max_allocation_size_mb=4000"}, 0.5,
             r"ERROR: AddressSanitizer: (?!out of memory|allocation-size-too-big|out-of-memory)([^\n]*)"),
    "msan": ("-Zsanitizer=memory -Zsanitizer-memory-track-origins", STD, {"MSAN_OPTIONS": "exit_code=99:allocator_may_return_null=1"}, 0.4,
             r"WARNING: MemorySanitizer: ([^\n]*)"),
    "tsan": ("-Zsanitizer=thread", STD, {"TSAN_OPTIONS": "exitcode=99:halt_on_error=1:report_signal_unsafe=0:history_size=4:allocator_may_return_null=1"}, 0.1,
             r"WARNING: ThreadSanitizer: ([^\n]*)"),
}


def build(c, lane, limit=700):
    flags, extra, _, _, _ = LANES[lane]
    rc, out = c.cargo(c.VERIF + "/harness", ["siavp"], rustflags="--cfg sia_monitor " + flags, toolchain="+nightly",
                      target_dir=f"{c.BUILD}/{lane}", extra=["--target", TARGET] + extra, limit=limit)
    if rc != 0:
        rc, out = c.cargo(c.VERIF + "/harness", ["siavp"], rustflags=flags, features=[], toolchain="+nightly",
                          target_dir=f"{c.BUILD}/{lane}", extra=["--target", TARGET] + extra, limit=limit)
    if rc != 0:
        raise c.NoVerdict(f"the {lane} build failed\n" + c.errors_of(out))
    return f"{c.BUILD}/{lane}/{TARGET}/release/siavp"




def miri(c, tier, seed, limit):
    work = tempfile.mkdtemp(prefix="siavp-miri-")
    try:
        out = work + "/result.json"
        target = c.BUILD + "/miri"
        c.refresh(target)
        e = dict(os.environ, CARGO_TARGET_DIR=target, RUSTFLAGS="--cfg sia_monitor", CARGO_NET_OFFLINE="true", TMPDIR=work,
                 MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-ignore-leaks -Zmiri-tree-borrows",
                 MIRI_SYSROOT_DIR=target + "/sysroot", SIAVP_TINY="1", SIAVP_HANG="0", SIAVP_THREADS="2", SIAVP_CORPUS="/nonexistent")
        e.pop("RUSTC_WRAPPER", None)
        cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--bin", "siavp", "--", "C24" if tier != "none" else "C00",
               "--tier", tier, "--seed", str(seed), "--budget", str(limit), "--out", out]
        with open(work + "/log", "w+") as err:
            p = subprocess.Popen(cmd, cwd=c.VERIF + "/harness", env=e, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
            try:
                rc = p.wait(timeout=limit + 120)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                rc = "timeout"
            err.seek(0)
            log = err.read()
        result = json.load(open(out)) if rc == 0 else None
        return rc, log, result
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(c, cid, a):
    want = None
    if a.section and ":" in a.section:
        want, a.section = a.section.split(":", 1)
        if not a.section:
            a.section = None
    quick = a.tier == "quick"
    total = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "lanes": {}}
    violations, short = [], []
    rule = ""

    def violation(lane, section, case, what, detail):
        violations.append({"property": cid, "section": f"{lane}:{section or ''}", "case": case, "seed": a.seed, "tier": a.tier,
                           "what": what, "detail": detail})

    def absorb(lane, r, t):
        nonlocal rule
        cov = r["evidence"]["coverage"]
        rule = cov["rule"]
        total["evaluations"] += cov["evaluations"]
        total["distinct_nontrivial"] = max(total["distinct_nontrivial"], cov["distinct_nontrivial"])
        total["samples"] += cov["samples"][:3] if lane != "plain" else cov["samples"]
        total["lanes"][lane] = {"evaluations": cov["evaluations"], "observed": cov.get("observed"), "wall_s": round(time.time() - t, 1)}
        violations.extend(dict(v, section=f"{lane}:{v['section']}") for v in r["violations"])
        short.extend(f"{lane}: {s}" for s in r["short"])

    if want in (None, "plain"):
        t = time.time()
        c.build_siavp(["siavp"])
        absorb("plain", c.run_siavp(cid, a, env={"SIAVP_HANG": "120"}, budget=60 if quick else 150), t)

    ran = 0
    for lane, (_, _, env, scale, report) in LANES.items():
        if want not in (None, lane) or violations:
            continue
        t = time.time()
        left = c.WALL - (t - c.T0)
        if ran and left < 300:
            total["lanes"][lane] = {"gave no answer": "no time left"}
            continue
        try:
            binary = build(c, lane, left - 60)
        except c.NoVerdict as x:
            if not ran:
                raise
            total["lanes"][lane] = {"gave no answer": str(x)[-600:]}
            continue
        built = time.time()
        scale = scale * (1 if quick else 0.6)
        lane_env = dict(env, SIAVP_SCALE=str(scale), SIAVP_HANG="300")
        work = tempfile.mkdtemp(prefix="siavp-")
        try:
            r = sanitized(c, cid, a, binary, lane_env, work, 60 if quick else 150, report)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        if r[0] == "held":
            absorb(lane, r[1], t)
            ran += 1
            total["lanes"][lane]["build_s"] = round(built - t, 1)
        elif r[0] == "report":
            violation(lane, r[1], r[2], f"{lane} reports: {r[3]}", {"report": r[4]})
        else:
            total["lanes"][lane] = {"gave no answer": r[1][-1500:]}

    if want in (None, *LANES) and not ran and not violations:
        raise c.NoVerdict("no sanitizer lane gave an answer: " + json.dumps(total["lanes"])[:3000])

    if want in (None, "miri") and not violations:
        t = time.time()
        left = c.WALL - (t - c.T0)
        rc, log, r = ("no time left", "", None) if left < 150 and ran else miri(c, a.tier, a.seed, min(120 if quick else 200, max(30, left - 120)))
        m = re.search(r"error: (Undefined Behavior[^\n]*|abnormal termination[^\n]*|memory leaked[^\n]*|the evaluated program deadlocked)", log)
        if m:
            at = re.findall(r"--> (/repo/[^\s]+)", log)
            violation("miri", "", 0, f"Miri reports: {m.group(1)}", {"report": log[max(0, m.start() - 200):m.start() + 2500], "at": at[:5]})
        elif rc == 0:
            absorb("miri", r, t)
        else:
            # an unsupported operation or a slow machine: the other lanes stand, and the evidence says so
            total["lanes"]["miri"] = {"gave no answer": str(rc), "log": log[-600:]}
    total["rule"] = rule + " Each lane runs the workload in a build of its own."
    total["samples"] = total["samples"][:16]
    return {"violations": violations, "short": short, "evidence": {
        "property": cid, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": total,
        "assumptions": ["a refusal by panic is right here", "sanitizers see what is executed", "Miri runs a small sample, its result is left out where it cannot run"],
        "wall_s": time.time() - c.T0, "violations": len(violations)}}


def sanitized(c, cid, a, binary, env, work, budget, report):
    """('held', result) | ('report', section, case, title, text) | ('none', why)"""
    e = dict(os.environ, SIAVP_CORPUS=c.VERIF + "/corpus", TMPDIR=work, RUST_BACKTRACE="0", **env)
    base = [binary, cid, "--tier", a.tier, "--seed", str(a.seed), "--budget", str(budget), "--out", work + "/result.json"]

    def go(extra, limit):
        with open(work + "/err", "w+") as err:
            try:
                rc = subprocess.run(base + extra, env=e, stdout=subprocess.DEVNULL, stderr=err, timeout=limit).returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            err.seek(0)
            return rc, err.read()

    only = ["--section", a.section, "--case", str(a.case)] if a.section else []
    rc, text = go(only + ["--crumbs", work + "/crumbs"], max(60, c.WALL - (time.time() - c.T0)))
    m = re.search(report, text)
    if rc == 0 and not m:
        return "held", json.load(open(work + "/result.json"))
    if not m:
        return "none", f"ended with {rc}: {text[-1500:]}"
    body = text[m.start():m.start() + 3000]
    if only:
        return "report", a.section, a.case, m.group(1), body
    for line in open(work + "/crumbs").read().splitlines():
        k = re.match(r"(.+) (\d+)\s*$", line)
        if k:
            rc, text = go(["--section", k.group(1), "--case", k.group(2)], 200)
            n = re.search(report, text)
            if n:
                return "report", k.group(1), int(k.group(2)), n.group(1), text[n.start():n.start() + 3000]
    # needs several threads or what ran before: the whole lane is the replay
    return "report", "", 0, m.group(1), body

#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

Builds what the check of property ID needs from /repo's working tree, runs it, writes evidence/ID.json.
Exit 0: held on everything observed. Exit 1 with "VIOLATION property=ID replay=FILE": broken.
Exit 2: no verdict (the harness did not build, did not finish, or observed too little).
"""
import argparse, fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
RUST = REPO + "/lib/sia/rust"
BUILD = VERIF + "/.build"
FINDINGS = VERIF + "/known-findings.txt"
LOCAL = ["utils", "encoding", "embedding", "three-bit-quantization", "zernike", "moments", "feature",
         "image-features", "signature", "watermarking", "cli", "web", "siavp", "siaweb", "siasmall"]
WALL = 840  # a check must answer within 900 s


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class NoVerdict(Exception):
    pass


def tree_hash(roots):
    h = hashlib.sha256()
    for root in roots:
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "node_modules", "pkg"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def refresh(target_dir):
    """Where the sources have changed, whatever their times say, the local packages are built again."""
    os.makedirs(target_dir, exist_ok=True)
    stamp = f"{target_dir}/.stamp"
    now = tree_hash([RUST, VERIF + "/harness", VERIF + "/web"])
    if os.path.exists(stamp) and open(stamp).read() == now:
        return
    for d, dirs, _ in os.walk(target_dir):
        if os.path.basename(d) == ".fingerprint":
            for x in dirs:
                if x.rsplit("-", 1)[0] in LOCAL:
                    shutil.rmtree(os.path.join(d, x), ignore_errors=True)
            dirs[:] = []
    with open(stamp, "w") as f:
        f.write(now)


def cargo(package, bins, rustflags="", features=None, toolchain=None, target_dir=BUILD, extra=(), env=None, profile="release", limit=700):
    """Builds binaries of a harness package; stale outputs of the local packages are dropped first."""
    os.makedirs(target_dir, exist_ok=True)
    with open(target_dir + "/.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        refresh(target_dir)
        cmd = ["cargo"] + ([toolchain] if toolchain else []) + ["build", "--offline", "--locked", "--profile", profile]
        for b in bins:
            cmd += ["--bin", b]
        if features is not None:
            cmd += ["--no-default-features", "--features", ",".join(features)]
        cmd += list(extra)
        e = dict(os.environ, CARGO_TARGET_DIR=target_dir, RUSTFLAGS=rustflags, CARGO_NET_OFFLINE="true")
        e.pop("RUSTC_WRAPPER", None)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=package, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
        except subprocess.TimeoutExpired:
            raise NoVerdict("the build did not finish")
        return r.returncode, r.stdout


def errors_of(text):
    out, keep = [], False
    for line in text.splitlines():
        if line.startswith("error"):
            keep = True
        if keep:
            out.append(line[:300])
            if not line.strip():
                keep = False
    return "\n".join(out[:60])


HOOKS = {"embedding": "h_emb", "watermarking": "h_wm", "signature": "h_sig"}


def build_without(bins, dropped):
    """The hooks of the crates in `dropped` stay closed, those of the others are open."""
    open_ = sorted(set(HOOKS) - dropped)
    wrapper = f"{BUILD}/rustc-{'-'.join(open_) or 'plain'}"
    os.makedirs(BUILD, exist_ok=True)
    with open(wrapper + ".new", "w") as f:
        f.write("#!/bin/sh\ncase \" $* \" in\n")
        for crate in open_:
            f.write(f'*" --crate-name {crate} "*) exec "$@" --cfg sia_monitor ;;\n')
        f.write('esac\nexec "$@"\n')
    os.chmod(wrapper + ".new", 0o755)
    os.replace(wrapper + ".new", wrapper)
    # a flag of its own for every choice, so that nothing built for another one is used
    flags = " ".join(f"--cfg sia_without_{c}" for c in sorted(dropped))
    return cargo(VERIF + "/harness", bins, rustflags=flags, features=[HOOKS[c] for c in open_], env={"RUSTC_WRAPPER": wrapper})


def build_siavp(bins):
    """The crates whose hooks are open; a hook that does not build is closed, and the others are kept."""
    rc, out = cargo(VERIF + "/harness", bins, rustflags="--cfg sia_monitor")
    if rc == 0:
        return sorted(HOOKS)
    log("build with the monitoring hooks failed; trying without some of them\n" + errors_of(out))
    fails = lambda out: {c for c in HOOKS if f"could not compile `{c}`" in out}
    dropped = fails(out)
    while dropped and dropped != set(HOOKS):
        rc, out = build_without(bins, dropped)
        if rc == 0:
            return sorted(set(HOOKS) - dropped)
        if fails(out) <= dropped:
            break
        dropped |= fails(out)
    if not dropped:  # what a hook gives is not what the harness expects
        for c in HOOKS:
            rc, out = build_without(bins, {c})
            if rc == 0:
                return sorted(set(HOOKS) - {c})
    rc, out = build_without(bins, set(HOOKS))
    if rc == 0:
        return []
    raise NoVerdict("the harness does not build\n" + errors_of(out))


def run_siavp(cid, a, binary=None, env=None, ulimit=None, budget=None):
    binary = binary or BUILD + "/release/siavp"
    work = tempfile.mkdtemp(prefix="siavp-")
    try:
        result, crumbs = work + "/result.json", work + "/crumbs"
        e = dict(os.environ, SIAVP_CORPUS=VERIF + "/corpus", SIAVP_GOLDEN=VERIF + "/golden", TMPDIR=work,
                 SIAVP_CLI=BUILD + "/release/siacli", RUST_BACKTRACE="0")
        e.update(env or {})
        os.chmod(work, 0o711)
        base = [binary, cid, "--tier", a.tier, "--seed", str(a.seed), "--budget", str(budget or (240 if a.tier == "quick" else 600)), "--out", result]
        cmd = base + ["--crumbs", crumbs]
        if a.section is not None:
            cmd += ["--section", a.section, "--case", str(a.case)]
        err = open(work + "/stderr", "w+")

        def go(cmd, limit):
            try:
                return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=err, env=e, timeout=limit).returncode
            except subprocess.TimeoutExpired:
                return "timeout"

        rc = go(cmd, max(60, WALL - (time.time() - T0)))
        if rc == 0:
            with open(result) as f:
                return json.load(f)
        err.seek(0)
        tail = err.read()[-1500:]
        if isinstance(rc, int) and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE):
            # the process died under the code under test: find the case and confirm it
            name = signal.Signals(-rc).name
            log(f"process ended by {name}: {tail}")
            for line in open(crumbs).read().splitlines():
                m = re.match(r"(.+) (\d+)\s*$", line)
                if not m:
                    continue
                again = go(base + ["--section", m.group(1), "--case", m.group(2)], 200)
                if isinstance(again, int) and again == rc:
                    v = {"property": cid, "section": m.group(1), "case": int(m.group(2)), "seed": a.seed, "tier": a.tier,
                         "what": f"the process is ended by {name}", "detail": {"stderr": tail[-600:]}}
                    return {"violations": [v], "short": [], "evidence": {
                        "property": cid, "tier": a.tier, "seed": a.seed, "level": "exploration",
                        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run ended at a crash", "samples": [v]},
                        "wall_s": time.time() - T0, "violations": 1}}
            raise NoVerdict(f"the process was ended by {name}, which no case alone repeats")
        hung = re.findall(r"^HANG (.+) (\d+)$", tail, re.M) if rc == 78 else []
        if hung:
            section, case = hung[-1]
            log(f"{section} {case} does not return; repeating it alone")
            e["SIAVP_HANG"] = "100"
            if go(base + ["--section", section, "--case", case], 300) == 78:
                v = {"property": cid, "section": section, "case": int(case), "seed": a.seed, "tier": a.tier,
                     "what": "a call of the code under test does not return (100 s alone)", "detail": {}}
                return {"violations": [v], "short": [], "evidence": {
                    "property": cid, "tier": a.tier, "seed": a.seed, "level": "exploration",
                    "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run ended at a case that does not return", "samples": [v]},
                    "wall_s": time.time() - T0, "violations": 1}}
        raise NoVerdict(f"the run ended with {rc}: {tail}")
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check_siavp(cid, a):
    hooked = build_siavp(["siavp", "siacli"] if cid in ("C18",) else ["siavp"])
    r = run_siavp(cid, a)
    r["evidence"]["coverage"]["hooks"] = hooked
    return r


def check_web(cid, a):
    import web_check
    return web_check.run(sys.modules[__name__], cid, a)


def check_front(cid, a):
    import front_check
    return front_check.run(sys.modules[__name__], cid, a)


def check_memory(cid, a):
    import memory_check
    return memory_check.run(sys.modules[__name__], cid, a)


CHECKS = {f"C{k:02}": check_siavp for k in range(1, 26)}
CHECKS.update({"C19": check_web, "C20": check_front, "C24": check_memory})


def known(cid):
    """signature -> text, for the findings listed for this property"""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) signature=(\S+) (.*)", line)
            if m and m.group(1) == cid:
                out[m.group(2)] = m.group(3).strip()
    return out


def signature(v):
    return hashlib.sha256(json.dumps([v["section"], v["what"], v.get("input", v.get("detail"))], sort_keys=True).encode()).hexdigest()[:16]


def main():
    p = argparse.ArgumentParser()
    p.add_argument("id")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    p.add_argument("--replay")
    a = p.parse_args()
    a.section = a.case = None
    if a.replay:
        with open(a.replay) as f:
            v = json.load(f)
        a.seed, a.tier, a.section, a.case = v["seed"], v["tier"], v["section"], v["case"]
    if a.id not in CHECKS:
        log("no such property", a.id)
        return 2
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    try:
        r = CHECKS[a.id](a.id, a)
    except NoVerdict as e:
        log(f"{a.id}: no verdict: {e}")
        return 2
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    listed, new = known(a.id), []
    for v in r["violations"]:
        s = signature(v)
        if s in listed:
            print(f"KNOWN-FINDING: property={a.id} {listed[s]}")
        else:
            new.append((s, v))
    r["evidence"]["violations"] = len(new)
    r["evidence"]["wall_s"] = round(time.time() - T0, 3)
    r["evidence"]["coverage"]["short"] = r["short"]
    if not a.replay:
        with open(f"{VERIF}/evidence/{a.id}.json", "w") as f:
            json.dump(r["evidence"], f, indent=1)
    if new:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        for s, v in new[:3]:
            path = a.replay or f"{VERIF}/replays/{a.id}-{s}.json"
            if not a.replay:
                with open(path, "w") as f:
                    json.dump(dict(v, signature=s, again=f"python3 {VERIF}/check.py {a.id} --replay {path}"), f, indent=1)
            log(f"{a.id} {v['section']} case {v['case']}: {v['what']}")
            print(f"VIOLATION property={a.id} replay={path}")
        return 1
    if r["short"] and not a.replay:
        log(f"{a.id}: no verdict, too little was observed: {r['short']}")
        return 2
    c = r["evidence"]["coverage"]
    print(f"{a.id} held on {c['evaluations']} executions ({c['distinct_nontrivial']} distinct), {r['evidence']['wall_s']:.0f} s")
    return 0


if __name__ == "__main__":
    T0 = time.time()
    sys.exit(main())

#!/usr/bin/env python3
"""check.py <PROPERTY> | --setup | --replay <file>

Builds the harness against /repo's working tree, runs the property's phases (see PHASES), merges their partial
evidence into evidence/<PROPERTY>.json.  Exit 0: held.  Exit 1: VIOLATION line printed.  Anything else: no answer.
"""
import fcntl, hashlib, json, os, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
HARNESS = os.path.join(ROOT, "harness")
TOOLS = os.path.join(ROOT, "tools")
REPLAYS = os.path.join(ROOT, "replays")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
# build name -> (target directory, profile, cargo arguments, extra environment)
ASAN_ENV = {"RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers=yes", "VH_CXX_ASAN": "0"}
BUILDS = {
    "release": ("target", "release", [], {}),
    "chk": ("target", "chk", [], {}),
    "nopar": ("target-nopar", "release", ["--no-default-features"], {}),
    "always": ("target-always", "release", ["--no-default-features", "--features", "always_par"], {}),
    "tools": ("target-tools", "release", [], {}),
    "asan": ("target-asan", "release", ["--features", "plain_alloc", "--target", "x86_64-unknown-linux-gnu"], ASAN_ENV),
}
ENDLESS = 77  # exit code of a run in which a case did not end, see run.rs
INT = {"C13", "C14", "C15", "C16", "C18", "C22"}
TOOL = {"C24"}
# property -> [(build, quick divisor of the case counts)]
DEFAULT = [("release", 1), ("chk", 4)]
PHASES = {
    "C02": [("release", 1), ("chk", 6)],
    "C03": [("release", 1), ("chk", 6)],
    "C06": [("release", 1), ("chk", 2), ("asan", 3)],
    "C09": [("release", 1)],
    "C15": [("release", 1), ("chk", 2)],
    "C18": [("release", 1), ("chk", 2)],
    "C19": [("asan", 1), ("chk", 2)],
    "C24": [("tools", 1)],
}
# quick case counts are multiplied by this; the thorough tier takes 12 times as many again
MULT = {"C02": 3, "C03": 3, "C04": 3, "C05": 2, "C07": 4, "C08": 3, "C10": 6, "C11": 6, "C12": 4, "C13": 4, "C14": 10, "C15": 3,
        "C16": 3, "C17": 2, "C18": 4, "C19": 4, "C20": 3, "C21": 4, "C22": 6, "C23": 6, "C24": 6}
NEEDS = {"C09": ["nopar", "always"]}
ASSUME = {
    "*": ["the C++ oracle, where one is used, is reference_app/gfwx.hpp as committed at the pinned revision, compiled by g++",
          "integer literals found in /repo/src are added to the generators' dictionary of sizes, so cases can shift with the code"],
}


def log(*a):
    print(*a, flush=True)


def binary(pid):
    return "vint" if pid in INT else "vtools" if pid in TOOL else "vapi"


def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for top in ("src", "examples"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def build(name, bins=("vapi", "vint")):
    tdir, profile, args, env = BUILDS[name]
    crate = TOOLS if name == "tools" else HARNESS
    only = [] if name == "tools" else [x for b in bins for x in ("--bin", b)]
    target = os.path.join(ROOT, tdir)
    os.makedirs(target, exist_ok=True)
    e = {**os.environ, **env, "CARGO_TARGET_DIR": target, "CARGO_NET_OFFLINE": "true"}
    cargo = ["cargo", "+nightly"] if name == "asan" else ["cargo", "+stable"]
    prof = ["--release"] if profile == "release" else ["--profile", profile]
    with open(os.path.join(target, ".lock-" + profile), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(target, "tree-" + profile)
        now = tree_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != now:
            # cargo goes by modification times, which may not tell two working trees apart
            tgt = [a for i, a in enumerate(args) if a == "--target" or (i and args[i - 1] == "--target")]
            subprocess.run(cargo + ["clean", "--offline", "-p", "gfwx"] + prof + tgt, cwd=crate, env=e,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(cargo + ["build", "--offline", "--locked"] + prof + args + only, cwd=crate, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            log(f"build {name} failed:\n" + "\n".join([l for l in r.stdout.splitlines() if "warning" not in l][-60:]))
            return None
        with open(stamp, "w") as f:
            f.write(now)
    sub = os.path.join("x86_64-unknown-linux-gnu", profile) if name == "asan" else profile
    return os.path.join(target, sub)


def build_all(names, bins=("vapi", "vint")):
    with ThreadPoolExecutor(3) as ex:
        # profiles that share a target directory share cargo's lock: it orders them itself
        res = dict(zip(names, ex.map(lambda n: build(n, bins), names)))
    if any(v is None for v in res.values()):
        sys.exit(2)
    return res


def env_for(name, dirs):
    e = dict(os.environ)
    e.update({"VERIF_SEED": str(SEED), "RUST_BACKTRACE": "0", "MALLOC_MMAP_MAX_": "0",
              "MALLOC_TRIM_THRESHOLD_": "4000000000", "MALLOC_TOP_PAD_": "67108864",
              "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16"})
    for k, v in dirs.items():
        e["VH_BIN_" + k.upper()] = os.path.join(v, "vapi")
    return e


def crash_name(rc):
    try:
        return signal.Signals(-rc).name
    except ValueError:
        return f"signal {-rc}"


def run_limited(cmd, env, limit, **kw):
    p = subprocess.Popen(cmd, env=env, start_new_session=True, **kw)
    try:
        return p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None


def endless(pid, name, exe, journal, env):
    """A case went on for ENDLESS_S (run.rs): it is a violation if it does so again on its own."""
    c = json.load(open(os.path.join(journal, "hang.json")))
    os.makedirs(REPLAYS, exist_ok=True)
    text = json.dumps({"property": pid, "sub": c["sub"], "build": name, "seed": SEED, "why": "does not end", "case": c["case"]})
    path = os.path.join(REPLAYS, f"{pid}-{c['sub']}-{hashlib.sha256(text.encode()).hexdigest()[:16]}.json")
    with open(path, "w") as f:
        f.write(text)
    for _ in range(3):
        r = run_limited([exe, pid, "--build", name, "--replay", path, "--replays", REPLAYS], env, 100,
                        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r is None:
            log(f"  {pid} / {c['sub']} [{name}]: the case does not end")
            log(f"VIOLATION property={pid} replay={path}")
            return 1
    log(f"{pid} [{name}]: a case went on for long in the run but ends on its own, no answer")
    return 3


def phase(pid, name, div, dirs, work, limit):
    """-> (exit code, partial evidence or None)"""
    exe = os.path.join(dirs[name], binary(pid))
    out = os.path.join(work, name + ".json")
    journal = os.path.join(work, "journal-" + name)
    env = env_for(name, dirs)
    cmd = [exe, pid, "--tier", TIER, "--build", name, "--div", str(div), "--mult", str(MULT.get(pid, 1)), "--out", out, "--replays", REPLAYS]
    crashy = pid in ("C06", "C19", "C17", "C18") or name == "asan"
    if name == "asan":
        cmd += ["--shards", "8"]
    cmd += ["--journal", journal]
    err = open(os.path.join(work, name + ".err"), "wb")
    rc = run_limited(cmd, env, limit, stderr=err)
    err.close()
    if rc is None:
        log(f"{pid} [{name}]: time limit of {limit:.0f} s reached, no answer")
        return 3, None
    part = None
    if os.path.exists(out):
        part = json.load(open(out))
    if rc in (0, 1):
        return rc, part
    tail = open(os.path.join(work, name + ".err"), "rb").read()[-3000:].decode("utf-8", "replace")
    log(f"{pid} [{name}]: ended with " + (crash_name(rc) if rc < 0 else f"exit code {rc}"))
    log(tail)
    if rc == ENDLESS and os.path.exists(os.path.join(journal, "hang.json")):
        return endless(pid, name, exe, journal, env), part
    if rc == -signal.SIGKILL or rc > 0:
        return 3, part
    # a crash: find the case that does it
    cases = []
    if os.path.isdir(journal):
        for f in sorted(os.listdir(journal)):
            try:
                cases.append(json.load(open(os.path.join(journal, f))))
            except ValueError:
                pass
    os.makedirs(REPLAYS, exist_ok=True)
    for c in cases:
        body = {"property": pid, "sub": c["sub"], "build": name, "seed": SEED, "why": "the process dies: " + crash_name(rc), "case": c["case"]}
        text = json.dumps(body)
        path = os.path.join(REPLAYS, f"{pid}-{c['sub']}-{hashlib.sha256(text.encode()).hexdigest()[:16]}.json")
        with open(path, "w") as f:
            f.write(text)
        r = run_limited([exe, pid, "--build", name, "--replay", path, "--replays", REPLAYS], env, 120,
                        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r is not None and r < 0 and r != -signal.SIGKILL:
            log(f"  {pid} / {c['sub']} [{name}]: the process dies with {crash_name(r)}")
            log(f"VIOLATION property={pid} replay={path}")
            return 1, part
        os.remove(path)
    path = os.path.join(REPLAYS, f"{pid}-crash-{name}-{SEED}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "sub": "", "build": name, "seed": SEED, "why": crash_name(rc), "cases": cases}, f)
    log(f"  {pid} [{name}]: the process dies with {crash_name(rc)} after this history of cases")
    log(f"VIOLATION property={pid} replay={path}")
    return 1, part


def evidence(pid, parts, wall, code):
    subs = [s for p in parts if p for s in p["sub_checks"]]
    rules = {}
    for s in subs:
        rules.setdefault(s["sub_check"], s["rule"])
    samples = []
    for s in subs:
        for c in s["samples"]:
            if len(c) < 900 and len(samples) < 8:
                samples.append({"sub_check": s["sub_check"], "case": json.loads(c)})
    for s in subs:
        s.pop("samples"), s.pop("rule")
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in parts if p),
            "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts if p),
            "rule": "; ".join(f"[{k}] {v}" for k, v in rules.items()),
            "samples": samples,
            "sub_checks": subs,
        },
        "assumptions": ASSUME["*"] + ASSUME.get(pid, []),
        "wall_s": round(wall, 1),
        "violations": 1 if code == 1 else 0,
    }
    known = sorted({k for p in parts if p for k in p["known"]})
    if known:
        ev["coverage"]["known_findings"] = known
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        build_all(list(BUILDS))
        return 0
    if a and a[0] == "--replay":
        body = json.load(open(a[1]))
        pid, name = body["property"], body["build"]
        dirs = build_all(sorted({name, *NEEDS.get(pid, [])}), [binary(pid)])
        exe = os.path.join(dirs[name], binary(pid))
        r = run_limited([exe, pid, "--build", name, "--replay", os.path.abspath(a[1]), "--replays", REPLAYS], env_for(name, dirs), 600)
        if r is None:
            log("the case does not end")
            log(f"VIOLATION property={pid} replay={a[1]}")
            return 1
        if r < 0:
            log(f"the process dies with {crash_name(r)}")
            log(f"VIOLATION property={pid} replay={a[1]}")
            return 1
        return r
    pid = a[0]
    t0 = time.time()
    phases = PHASES.get(pid, DEFAULT)
    dirs = build_all(sorted({p[0] for p in phases} | set(NEEDS.get(pid, []))), [binary(pid)])
    log(f"{pid}: built in {time.time() - t0:.1f} s")
    work = os.path.join("/dev/shm" if os.path.isdir("/dev/shm") else "/tmp", f"vh-{pid}-{os.getpid()}")
    os.makedirs(work)
    parts, code = [], 0
    budget = 780 if TIER == "quick" else 6 * 3600
    try:
        for name, div in phases:
            code, part = phase(pid, name, div, dirs, work, max(30, budget - (time.time() - t0)))
            parts.append(part)
            if code:
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    evidence(pid, parts, time.time() - t0, code)
    log(f"{pid}: " + {0: "held on everything explored", 1: "VIOLATED"}.get(code, "no answer") + f" ({time.time() - t0:.1f} s)")
    return code


if __name__ == "__main__":
    sys.exit(main())

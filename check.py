#!/usr/bin/env python3
"""Driver: builds the workload of one property from /repo's working tree, runs it in shards under
its monitors, merges what they observed into the evidence file and gives the verdict.

  check.py C01 [--tier quick|thorough] [--replay FILE]
  check.py --setup            build one workload of every variant (checks build theirs)
  check.py --manifest         regenerate MANIFEST.json from the table below
"""
import array, concurrent.futures, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from table import CHECKS, NOT_APPLICABLE, NOTES  # noqa: E402

BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
# Where the harness takes the crate from: /repo.
REPO = re.search(r'^ndarray-slice = .*path = "([^"]+)"', open(os.path.join(HARNESS, "Cargo.toml")).read(), re.M).group(1)
NIGHTLY = "+nightly"
HOST = "x86_64-unknown-linux-gnu"
BUILD_S, RUN_SLACK_S = 700, 420
CPUS = min(8, os.cpu_count() or 8)


class Inconclusive(Exception):
    pass


class BuildFailed(Inconclusive):
    pass


def san(name, std):
    return {
        "toolchain": NIGHTLY,
        "rustflags": f"-Zsanitizer={name} -Cforce-frame-pointers=yes --cfg=sanitized",
        "args": ["--target", HOST] + (["-Zbuild-std"] if std else []),
        "profile": "mon",
        "sub": HOST + "/",
    }


VARIANTS = {
    # Optimised, with the assertions of the crate, of ndarray and of arithmetic live.
    "mon": {"profile": "mon"},
    # What a release user gets.
    "plain": {"profile": "plain"},
    "nostk": {"profile": "mon", "features": "par"},
    "plain-nostk": {"profile": "plain", "features": "par"},
    "cfg-none": {"profile": "mon", "features": ""},
    "cfg-alloc": {"profile": "mon", "features": "alloc"},
    "cfg-std": {"profile": "mon", "features": "std"},
    "cfg-stk": {"profile": "mon", "features": "std,stk"},
    "cfg-stk-only": {"profile": "mon", "features": "stk"},
    "cfg-alloc-stk": {"profile": "mon", "features": "alloc,stk"},
    "cfg-par": {"profile": "mon", "features": "par"},
    "cfg-all": {"profile": "mon", "features": "par,stk"},
    # What a release user gets, with every basic block of the workload program, in which the generic crate is
    # instantiated, reporting its execution.
    "work": {
        "profile": "plain",
        "rustflags": "--cfg=counted",
        "verb": "rustc",
        "last": ["--", "-Cpasses=sancov-module", "-Cllvm-args=-sanitizer-coverage-level=2", "-Cllvm-args=-sanitizer-coverage-trace-pc"],
    },
    "asan": san("address", False),
    "tsan": {**san("thread", True), "profile": "mon"},
    "msan": {**san("memory", True), "rustflags": "-Zsanitizer=memory -Zsanitizer-memory-track-origins -Cforce-frame-pointers=yes --cfg=sanitized"},
    "miri": {"toolchain": NIGHTLY, "profile": "dev", "miri": True},
}


def source_hash():
    """Content of everything a build of the crate reads from /repo, and of the harness."""
    h = hashlib.sha256()
    files = []
    for base in (REPO, HARNESS):
        for pat in ("Cargo.toml", "Cargo.lock", "build.rs", ".cargo/**/*"):
            files += glob.glob(os.path.join(base, pat), recursive=True)
        for d, _, fs in os.walk(os.path.join(base, "src")):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(set(files)):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fd:
                h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()


def crate_hash():
    h = hashlib.sha256()
    for d, dirs, fs in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(p.encode() + b"\0")
            with open(p, "rb") as fd:
                h.update(hashlib.sha256(fd.read()).digest())
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as fd:
        h.update(fd.read())
    return h.hexdigest()


def cargo(variant, binname, verb="build"):
    v = VARIANTS[variant]
    target = os.path.join(BUILD, "t-" + variant)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("CARGO_", "RUST")) and k not in ("CARGO_HOME", "RUSTUP_HOME"):
            del env[k]
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_NET_OFFLINE"] = "true"
    if v.get("rustflags"):
        env["RUSTFLAGS"] = v["rustflags"]
    cmd = ["cargo"]
    if v.get("toolchain"):
        cmd.append(v["toolchain"])
    if v.get("miri"):
        cmd += ["miri", "run"]
        env["MIRIFLAGS"] = v.get("miriflags", "")
    else:
        cmd.append(v.get("verb", verb))
    cmd += ["--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml")]
    cmd += ["--bin", binname]
    if v["profile"] != "dev":
        cmd += ["--profile", v["profile"]]
    if "features" in v:
        cmd += ["--no-default-features", "--features", v["features"]]
    cmd += v.get("args", []) + v.get("last", [])
    return cmd, env, target, os.path.join(target, v.get("sub", ""), v["profile"], binname)


def freshen(target):
    """Cargo compares times; make it compare content: forget the crate's build if it differs."""
    stamp = os.path.join(target, "crate.sha256")
    now = crate_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        for p in glob.glob(os.path.join(target, "**", ".fingerprint", "ndarray-slice-*"), recursive=True):
            shutil.rmtree(p, ignore_errors=True)
    os.makedirs(target, exist_ok=True)
    return stamp, now


def build(variant, binname):
    cmd, env, target, exe = cargo(variant, binname)
    stamp, now = freshen(target)
    if VARIANTS[variant].get("miri"):
        cmd += ["--", "--case", "none"]
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    t = time.time()
    log = os.path.join(BUILD, "log", f"build-{variant}-{binname}.txt")
    os.makedirs(os.path.dirname(log), exist_ok=True)
    with open(log, "w") as f:
        try:
            p = subprocess.run(cmd, env=env, cwd=HARNESS, stdout=f, stderr=subprocess.STDOUT, timeout=BUILD_S)
        except subprocess.TimeoutExpired:
            raise Inconclusive(f"building {binname} ({variant}) timed out")
    if p.returncode != 0:
        raise BuildFailed(f"building {binname} ({variant}) failed, see {log}:\n" + tail(log, 30))
    with open(stamp, "w") as f:
        f.write(now)
    return exe, time.time() - t


def tail(path, n):
    try:
        with open(path, errors="replace") as f:
            return "".join(f.readlines()[-n:])
    except OSError:
        return ""


def limits(variant):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if variant not in ("asan", "tsan", "msan", "miri"):
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))

    return f


def shard_cmd(stage, variant, exe, binname, prop, seed, tier, shard, shards, budget, out, case=None):
    args = ["--seed", str(seed), "--tier", tier, "--shard", str(shard), "--shards", str(shards)]
    args += ["--budget", str(budget), "--out", out]
    if stage.get("extra"):
        args += ["--extra", stage["extra"]]
    if variant in ("asan", "tsan", "msan"):
        args += ["--slow"]
    if case:
        args += ["--case", case]
    env = dict(os.environ)
    if variant == "miri":
        cmd, env, _, _ = cargo(variant, binname)
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation " + stage.get("miriflags", "")
        cmd.insert(cmd.index("run") + 1, "-q")
        cmd += ["--"] + args
    else:
        cmd = [exe] + args
    env["RUST_BACKTRACE"] = "0"
    supp = os.path.join(VERIF, "tsan.supp")
    env["ASAN_OPTIONS"] = "exitcode=98:detect_leaks=1:allocator_may_return_null=0:detect_stack_use_after_return=0"
    env["TSAN_OPTIONS"] = f"exitcode=98:halt_on_error=1:history_size=4:suppressions={supp}"
    env["MSAN_OPTIONS"] = "exitcode=98"
    for k, v in stage.get("env", {}).items():
        env[k] = v
    return cmd, env


CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def judge(stage, variant, rc, log, out, shard, timed_out):
    """Outcome of one shard: (report or None, violation or None)."""
    rep = None
    path = os.path.join(out, f"shard-{shard}.json")
    if os.path.exists(path):
        with open(path) as f:
            rep = json.load(f)
    text = open(log, errors="replace").read() if os.path.exists(log) else ""
    cur = ""
    try:
        cur = open(os.path.join(out, f"shard-{shard}.cur"), errors="replace").read().strip()
    except OSError:
        pass
    case, _, desc = cur.partition("\t")
    if variant == "miri":
        m = re.findall(r"^CUR\t(.*?)\t(.*)$", text, re.M)
        if m:
            case, desc = m[-1]

    def v(msg):
        return {"case": case.strip(), "desc": desc.strip(), "message": msg}

    if timed_out:
        raise Inconclusive(f"shard {shard} ({variant}) ran out of wall time in case {case}: {desc}")
    if rep and rep["violations"]:
        return rep, rep["violations"][0]
    if rc == 97:
        return rep, v("no progress: the case used up its processor-time limit without returning")
    if rc == 98 or (variant == "miri" and rc not in (0, 2) and not rep):
        m = re.search(r"^SUMMARY: .*$", text, re.M) or re.search(r"^error: (Undefined Behavior|memory leaked|abnormal termination|deadlock|.*data race).*$", text, re.M | re.I)
        m2 = re.search(r"^(==\d+==ERROR|WARNING: ThreadSanitizer|==\d+==WARNING).*$", text, re.M)
        if m or m2:
            where = re.findall(r"(/repo/src/\S+|src/\S+\.rs:\d+)", text)[:3]
            return rep, v(f"{variant}: {(m or m2).group(0).strip()[:300]} {' '.join(where)}")
        raise Inconclusive(f"shard {shard} ({variant}) failed without a report: {text[-1500:]}")
    if rc == 0 and rep and not rep["unfinished"]:
        return rep, None
    if rc < 0:
        try:
            s = signal.Signals(-rc)
        except ValueError:
            s = None
        if s in CRASH:
            return rep, v(f"process died of {s.name}: {text[-400:].strip()}")
        raise Inconclusive(f"shard {shard} ({variant}) was ended by signal {-rc}")
    raise Inconclusive(f"shard {shard} ({variant}) ended with {rc}: {text[-1500:]}")


def run_stage(prop, si, stage, tier, seed, only=None):
    variant, binname = stage["variant"], stage["bin"]
    try:
        exe, built = build(variant, binname)
    except BuildFailed as e:
        if stage.get("build_is_property") and crate_builds():
            return {"stage": si}, {"case": "build", "desc": variant, "message": f"does not build in this configuration: {e}"}
        raise
    shards = stage.get("shards", CPUS)
    budget = stage["budget"][0 if tier == "quick" else 1]
    out = os.path.join(BUILD, "run", prop, str(si))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    procs = []
    todo = range(shards) if only is None else [only["shard"]]
    t = time.time()
    try:
        for s in todo:
            cmd, env = shard_cmd(stage, variant, exe, binname, prop, seed, tier, s, shards, budget, out, only and only["case"])
            log = os.path.join(out, f"shard-{s}.log")
            f = open(log, "w")
            procs.append((s, subprocess.Popen(cmd, env=env, cwd=out, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, preexec_fn=limits(variant)), log))
        end = time.time() + budget + RUN_SLACK_S + (3600 if tier == "thorough" else 0)
        reps, viol, problem = [], None, None
        for s, p, log in procs:
            late = False
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                late = True
                rc = None
            try:
                rep, v = judge(stage, variant, rc, log, out, s, late)
                if rep:
                    reps.append(rep)
                if v and not viol:
                    viol = {**v, "shard": s}
            except Inconclusive as e:
                problem = problem or e
            if viol:
                break
    finally:
        for _, p, _ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
    if not viol and problem:
        raise problem
    distinct = set()
    for f in glob.glob(os.path.join(out, "*.hash")):
        a = array.array("Q")
        with open(f, "rb") as fd:
            a.frombytes(fd.read())
        distinct.update(a)
    events = {}
    for r in reps:
        for k, n in r["events"].items():
            events[k] = max(events.get(k, 0), n) if k.startswith("max:") else events.get(k, 0) + n
    info = {
        "variant": variant,
        "workload": binname,
        "shards": shards,
        "evaluations": sum(r["evaluations"] for r in reps),
        "distinct": distinct,
        "observed": events,
        "samples": [x for r in reps for x in r["samples"]],
        "build_s": round(built, 1),
        "run_s": round(time.time() - t, 1),
    }
    return info, viol


def crate_builds():
    try:
        build("mon", "c28")
        return True
    except Inconclusive:
        return False


def known(prop):
    """Listed findings: lines 'known: property=<id> key=<text that identifies the case> :: <what fails>'."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def check(prop, tier, seed):
    c = CHECKS[prop]
    t0 = time.time()
    prebuild(tier, c["stages"])
    infos, viol = [], None
    for si, stage in enumerate(c["stages"]):
        if stage.get("tier", tier) != tier:
            continue
        info, v = run_stage(prop, si, stage, tier, seed)
        infos.append(info)
        if v:
            viol = (si, v)
            break
    compare = c.get("compare")
    if compare and not viol:
        v = compare(prop, BUILD, infos)
        if v and v.get("none"):
            raise Inconclusive("no records of two processes to compare")
        if v:
            viol = (0, v)
    allset = set()
    for i in infos:
        allset |= i.pop("distinct", set())
    distinct = len(allset)
    samples = [x for i in infos for x in i.pop("samples", [])[:6]][:24]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": c["level"],
        "coverage": {
            "evaluations": sum(i.get("evaluations", 0) for i in infos),
            "distinct_nontrivial": distinct,
            "rule": c["rule"],
            "samples": samples,
            "stages": infos,
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    for key, what in known(prop):
        print(f"KNOWN-FINDING: property={prop} {what}")
    if viol:
        si, v = viol
        rp = os.path.join(BUILD, "replay", f"{prop}.json")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "stage": si, **v}, f, indent=1)
        print(f"{prop}: {v['case']}: {v['desc']}: {v['message']}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    n = ev["coverage"]["evaluations"]
    print(f"{prop}: held on {n} evaluations ({distinct} distinct non-trivial), {ev['wall_s']} s, {tier}, seed {seed}")
    if n == 0 or distinct == 0:
        print("nothing was evaluated: no verdict")
        return 2
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    c = CHECKS[r["property"]]
    stage = c["stages"][r["stage"]]
    _, v = run_stage(r["property"], f"replay-{r['stage']}", stage, r["tier"], r["seed"], only=r)
    print(json.dumps(v, indent=1) if v else "does not violate the property")
    return 1 if v else 0


def prebuild(tier, stages):
    """Builds of several variants at a time; running a stage then reports what failed."""
    todo = {(s["variant"], s["bin"]) for s in stages if s.get("tier", tier) == tier}
    if len(todo) < 2:
        return
    def one(k):
        try:
            build(*k)
        except Inconclusive:
            pass

    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        list(ex.map(one, sorted(todo)))


def setup():
    """One workload per variant: what the crate depends on is then built for the checks too."""
    first = {}
    for c in CHECKS.values():
        for st in c["stages"]:
            if st.get("tier") != "thorough":
                first.setdefault(st["variant"], st["bin"])
    def one(k):
        return k, build(*k)[1]

    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for (variant, binname), t in ex.map(one, sorted(first.items())):
            print(f"built {binname} ({variant}) in {t:.1f} s", flush=True)
    return 0


def manifest():
    m = {
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "checks": [
            {
                "property": p,
                "quick_cmd": f"python3 check.py {p} --tier quick",
                "thorough_cmd": f"python3 check.py {p} --tier thorough",
                "evidence_file": f"evidence/{p}.json",
                "technique": c["technique"],
                "level": c["level"],
                "level_note": c["level_note"],
            }
            for p, c in sorted(CHECKS.items())
        ],
        "not_applicable": NOT_APPLICABLE,
        "notes": NOTES,
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    return 0


def main(a):
    if "--setup" in a:
        return setup()
    if "--manifest" in a:
        return manifest()
    if "--replay" in a:
        return replay(a[a.index("--replay") + 1])
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    return check(prop, tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except Inconclusive as e:
        print(f"no verdict: {e}")
        sys.exit(2)

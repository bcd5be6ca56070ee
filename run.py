#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's current tree.

usage: run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

exit 0: the property held on everything observed; exit 1 and a VIOLATION line: it is broken;
exit 2: no verdict (a build, tool or the machinery itself failed, or too little was observed).
"""
import argparse, concurrent.futures, fcntl, glob, hashlib, json, os, re, resource, shutil, signal, struct
import subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
GIB = 1 << 30
CORES = min(8, os.cpu_count() or 4)

# ---------------------------------------------------------------- builds
# What users ship: the crate without overflow checks and debug assertions. Shares all else.
SHIPPED = ["--config", 'profile.dev.package."puzzle-utils".debug-assertions=false',
           "--config", 'profile.dev.package."puzzle-utils".overflow-checks=false']
BUILDS = {
    # name: (target directory, cargo arguments, RUSTFLAGS, binary below the target directory)
    "checked": ("plain", ["build"], "", "debug/vharness"),
    "shipped": ("plain", ["build"] + SHIPPED, "", "debug/vharness"),
    "hooked": ("hooked", ["build", "--features", "hooks"], "--cfg verif_hooks", "debug/vharness"),
    "hooked-shipped": ("hooked", ["build", "--features", "hooks"] + SHIPPED, "--cfg verif_hooks", "debug/vharness"),
    "asan": ("asan", ["+nightly", "build", "--target", TRIPLE, "--features", "hooks,plain_alloc"],
             "-Zsanitizer=address --cfg verif_hooks", TRIPLE + "/debug/vharness"),
    "asan-public": ("asan", ["+nightly", "build", "--target", TRIPLE, "--features", "plain_alloc"],
                    "-Zsanitizer=address", TRIPLE + "/debug/vharness"),
    "tsan": ("tsan", ["+nightly", "build", "-Zbuild-std", "--target", TRIPLE, "--features", "plain_alloc"],
             "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer", TRIPLE + "/debug/vharness"),
}
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks"


class NoVerdict(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cargo_env(flags=""):
    env = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    env["RUSTFLAGS"] = flags
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    return env


REPO = "/repo"


def tree_hash():
    """Content of everything the builds read: file times say nothing in a copied tree."""
    h = hashlib.sha256()
    for root in (REPO, HARNESS):
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in (".git", "target"))
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                try:
                    with open(p, "rb") as r:
                        h.update(hashlib.sha256(r.read()).digest())
                except OSError:
                    pass
    return h.hexdigest()


def drop_stale(target):
    """Forgets what was built from another content of the tree."""
    stamp, now = os.path.join(target, "content"), tree_hash()
    try:
        with open(stamp) as f:
            if f.read() == now:
                return
    except OSError:
        pass
    for d in glob.glob(os.path.join(target, "**", ".fingerprint"), recursive=True):
        for f in glob.glob(os.path.join(d, "puzzle-utils-*")) + glob.glob(os.path.join(d, "vharness-*")):
            shutil.rmtree(f, ignore_errors=True)
    with open(stamp, "w") as f:
        f.write(now)


def build(name):
    """Builds a variant from /repo's current tree and returns a copy of its binary."""
    directory, args, flags, binary = BUILDS[name]
    target = os.path.join(TARGET, directory)
    os.makedirs(target, exist_ok=True)
    cmd = ["cargo"]
    if args[0].startswith("+"):
        cmd.append(args[0])
        args = args[1:]
    cmd += args + ["--offline", "--locked", "--target-dir", target]
    copy = os.path.join(target, "vharness-" + name)
    with open(os.path.join(target, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        started = time.time()
        drop_stale(target)
        for attempt in range(2):
            p = subprocess.run(cmd, cwd=HARNESS, env=cargo_env(flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 0:
                break
            if attempt == 0 and "error[" not in p.stdout and "error: could not compile" not in p.stdout:
                time.sleep(2)
                continue
            raise NoVerdict(f"build '{name}' failed:\n" + p.stdout[-4000:])
        shutil.copy2(os.path.join(target, binary), copy + ".tmp")
        os.replace(copy + ".tmp", copy)
        log(f"[build {name}: {time.time() - started:.0f} s]")
    return copy


def build_miri():
    started = time.time()
    os.makedirs(os.path.join(TARGET, "miri"), exist_ok=True)
    drop_stale(os.path.join(TARGET, "miri"))
    p = subprocess.run(["cargo", "+nightly", "miri", "setup"], cwd=HARNESS, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise NoVerdict("miri setup failed:\n" + p.stdout[-3000:])
    p = run_miri(["list"], 600)
    if p[0] != 0:
        raise NoVerdict("miri build failed:\n" + p[2][-4000:])
    log(f"[build miri: {time.time() - started:.0f} s]")


def miri_command(args):
    return ["cargo", "+nightly", "miri", "run", "--quiet", "--offline", "--locked", "--features", "hooks,plain_alloc",
            "--target-dir", os.path.join(TARGET, "miri"), "--"] + args


def miri_env():
    env = cargo_env("--cfg verif_hooks")
    env["MIRIFLAGS"] = MIRIFLAGS
    return env


def run_miri(args, seconds):
    p = subprocess.Popen(miri_command(args), cwd=HARNESS, env=miri_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=seconds)
    except subprocess.TimeoutExpired:
        kill_group(p)
        out, err = p.communicate()
        return None, out, err
    return p.returncode, out, err


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


# ---------------------------------------------------------------- what to run per property
def stage(build, prop=None, part=1.0, workers=CORES, memory=3 * GIB, cpu=60, idle=120, seconds=(240, 1500)):
    return dict(build=build, prop=prop, part=part, workers=workers, memory=memory, cpu=cpu, idle=idle, seconds=seconds)


# Besides the main stage (overflow checks and debug assertions on), a part of every workload runs
# in a release build, which is what users ship.
PLAN = {p: [stage("checked"), stage("shipped", part=0.25)] for p in
        "S01 S02 S03 S04 S05 M01 M02 M03 M05 M06 M07 M08 N01 N02 N03 N04 N05 N06 N07 P01 E01".split()}
PLAN["M04"] = [stage("checked", cpu=600, idle=300)]
PLAN["M09"] = [stage("checked", memory=6 * GIB, workers=4, cpu=240, idle=300), stage("shipped", memory=6 * GIB, workers=4, cpu=240, idle=300)]
PLAN["D01"] = [stage("hooked"), stage("hooked-shipped", part=0.25)]
PLAN["U01"] = [stage("hooked"), stage("hooked-shipped", part=0.25)]
PLAN["U02"] = [stage("hooked", cpu=300)]
PLAN["D03"] = [stage("hooked"), stage("hooked-shipped", part=0.25)]
PLAN["D02"] = [stage("hooked"), stage("asan", part=0.35, memory=None), stage("miri", prop="D02M", seconds=(75, 900))]
PLAN["X01"] = [stage("checked", workers=2, cpu=600, idle=400),
               stage("tsan", prop="X01T", workers=2, memory=None, cpu=1200, idle=400)]

# If the hooks do not build on a tree whose public interface is whole, the property is watched
# through its public callers. They can break for other reasons, so only what is this property's
# own (any violation of D03, crashes and sanitizer reports for D02) counts as a violation there.
FALLBACK = {"D01": [stage("checked", prop="S02")], "D02": [stage("checked"), stage("asan-public", part=0.35, memory=None)],
            "D03": [stage("checked"), stage("shipped", part=0.25)],
            "U01": [stage("checked", prop="M01")], "U02": [stage("checked", prop="M04", cpu=600, idle=300)]}

# Judged executions below which a run is no answer (quick, thorough), a third of what runs observe.
FLOOR = json.load(open(os.path.join(VERIF, "floors.json")))


# ---------------------------------------------------------------- running workers
def limits(memory):
    def apply():
        if memory:
            resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
        resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return apply


def worker_env():
    env = dict(os.environ)
    env["RUST_BACKTRACE"] = "0"
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=0"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_thread_leaks=0"
    return env


def spawn(cmd, memory, out, err):
    return subprocess.Popen(cmd, stdout=out, stderr=err, stdin=subprocess.DEVNULL, env=worker_env(),
                            preexec_fn=limits(memory), start_new_session=True, cwd="/")


def cpu_of(pid):
    """Processor seconds used by a process so far."""
    try:
        with open(f"/proc/{pid}/stat") as f:
            rest = f.read().rsplit(") ", 1)[1].split()
        return (int(rest[11]) + int(rest[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return None


def tail(path, n=3000):
    try:
        with open(path, errors="replace") as f:
            return f.read()[-n:]
    except OSError:
        return ""


FATAL = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGABRT, signal.SIGTRAP}


def ending(code, err):
    """What the end of a process says: ('crash', text), ('tool', text) or None if it ended well."""
    if code == 0:
        return None
    if code == 66 and ("ThreadSanitizer" in err or "AddressSanitizer" in err):
        lines = [l for l in err.splitlines() if "Sanitizer:" in l]
        return "crash", (lines[0].strip() if lines else "sanitizer report")
    if code < 0 and -code in {int(s) for s in FATAL}:
        why = [l for l in err.splitlines() if "overflowed its stack" in l or "memory allocation of" in l or "Sanitizer" in l]
        return "crash", f"process ended by {signal.Signals(-code).name}" + (f" ({why[-1].strip()})" if why else "")
    return "tool", f"exit status {code}: {err[-1500:]}"


def run_one(binary, st, prop, seed, tier, idx):
    """A single case in its own process: (kind, text, result)."""
    with tempfile.TemporaryDirectory() as d:
        out, err = os.path.join(d, "out"), os.path.join(d, "err")
        with open(out, "w") as o, open(err, "w") as e:
            p = spawn([binary, "one", prop, str(seed), tier, str(idx)], st["memory"], o, e)
        kind = watch({p: None}, st, lambda p: None)
        if kind:
            return kind[0], kind[1], None
        end = ending(p.returncode, tail(err))
        if end:
            return end[0], end[1], None
        return "ok", "", json.loads(open(out).read().splitlines()[-1])


def watch(procs, st, state_of, deadline=None):
    """Waits for processes. Ends all and returns (kind, text, process) if one case runs away."""
    seen = {p: [None, 0.0, time.time(), 0.0] for p in procs}
    while True:
        alive = [p for p in procs if p.poll() is None]
        if any(p.returncode not in (0, None) for p in procs):
            for p in alive:
                kill_group(p)
            for p in alive:
                p.wait()
            return None
        if not alive:
            return None
        now = time.time()
        for p in alive:
            cpu, state = cpu_of(p.pid), state_of(p)
            if cpu is None:
                continue
            s = seen[p]
            if s[0] != state or s[3] == 0.0 and s[0] is None:
                s[0], s[1], s[2], s[3] = state, cpu, now, cpu
            if cpu > s[3] + 0.05:
                s[2], s[3] = now, cpu
            text = None
            if cpu - s[1] > st["cpu"]:
                text = ("hang", f"no answer after {st['cpu']} s of processor time on one case")
            elif now - s[2] > st["idle"]:
                text = ("hang", f"blocked: no progress and no processor use for {st['idle']} s")
            if text:
                for q in alive:
                    kill_group(q)
                for q in alive:
                    q.wait()
                return text[0], text[1], p
        if deadline and now > deadline:
            for q in alive:
                kill_group(q)
            for q in alive:
                q.wait()
            return "overtime", "workers ran past their time", alive[0]
        time.sleep(0.05 if len(procs) == 1 else 0.1)


class Result:
    def __init__(self):
        self.evals = self.unjudged = self.cases = 0
        self.counters, self.samples, self.violations, self.hashes = {}, [], [], set()
        self.truncated = False

    def merge(self, d):
        self.evals += d["evals"]
        self.unjudged += d["unjudged"]
        self.cases += d["cases"]
        self.truncated |= d["truncated"]
        self.samples += d["samples"][:2]
        for k, v in d["counters"].items():
            self.counters[k] = max(self.counters.get(k, 0), v) if k.startswith("max_") else self.counters.get(k, 0) + v


def replay_record(st, prop, seed, tier, idx, what, extra=None):
    return {"build": st["build"], "run": prop, "seed": seed, "tier": tier, "case": idx, "what": what, **(extra or {})}


def run_stage(binary, st, prop, seed, tier, plans):
    total = plans[prop][1 if tier == "thorough" else 0]
    total = max(1, int(total * st["part"]))
    seconds = st["seconds"][1 if tier == "thorough" else 0]
    res = Result()
    with tempfile.TemporaryDirectory() as d:
        procs = {}
        for s in range(st["workers"]):
            cmd = [binary, "worker", prop, str(seed), tier, str(s), str(st["workers"]), str(seconds), d, str(total)]
            with open(f"{d}/out.{s}", "w") as o, open(f"{d}/err.{s}", "w") as e:
                procs[spawn(cmd, st["memory"], o, e)] = s

        def state_of(p):
            try:
                with open(f"{d}/state.{procs[p]}", "rb") as f:
                    b = f.read(8)
                return struct.unpack("<Q", b)[0] if len(b) == 8 else None
            except OSError:
                return None

        runaway = watch(procs, st, state_of, time.time() + seconds + st["cpu"] + st["idle"])
        suspects = []  # (kind, text, case, shard)
        tool = []
        for p, s in procs.items():
            if runaway and runaway[2] is p:
                suspects.append((runaway[0], runaway[1], state_of(p), s))
                continue
            if os.path.exists(f"{d}/res.{s}") and p.returncode == 0:
                r = json.load(open(f"{d}/res.{s}"))
                res.merge(r)
                for v in r["violations"]:
                    res.violations.append(replay_record(st, prop, seed, tier, v["case"], v["what"], {"input": v["input"]}))
                b = open(f"{d}/hash.{s}", "rb").read()
                res.hashes.update(struct.unpack(f"<{len(b) // 8}Q", b))
                continue
            if p.returncode == -signal.SIGKILL:
                continue  # ended with the others
            end = ending(p.returncode, tail(f"{d}/err.{s}", 20000))
            if end and end[0] == "crash":
                suspects.append(("crash", end[1], state_of(p), s))
            elif end:
                tool.append(f"worker {s}: {end[1]}")
        for kind, text, idx, shard in suspects:
            if kind == "overtime":
                tool.append(text)
                continue
            if kind == "hang" and prop == "D03":
                tool.append(f"{text} (case {idx}): a matter of other properties")
                continue
            if idx is None:
                tool.append(f"{text} before the first case")
                continue
            again = run_one(binary, st, prop, seed, tier, idx)
            confirmed = again[0] in ("crash", "hang")
            how = {"confirmed": "alone"}
            if again[0] == "ok" and again[2]["violations"]:
                v = again[2]["violations"][0]
                res.violations.append(replay_record(st, prop, seed, tier, v["case"], v["what"], {"input": v["input"]}))
                continue
            if not confirmed and kind == "crash":
                # It may need what came before: repeat the worker up to this case.
                with tempfile.TemporaryDirectory() as e:
                    with open(f"{e}/out", "w") as o, open(f"{e}/err", "w") as er:
                        p = spawn([binary, "worker", prop, str(seed), tier, str(shard), str(st["workers"]), str(seconds), e, str(idx + 1)], st["memory"], o, er)
                    watch({p: None}, dict(st, cpu=st["cpu"] + seconds), lambda p: None)
                    end = ending(p.returncode, tail(f"{e}/err"))
                confirmed = bool(end and end[0] == "crash") or "memory allocation" not in text
                how = {"confirmed": "with the preceding cases" if end and end[0] == "crash" else "not repeated"}
            if confirmed:
                res.violations.append(replay_record(st, prop, seed, tier, idx, f"{text}", how))
            else:
                tool.append(f"unconfirmed: {text} in case {idx}")
        for p in procs:
            kill_group(p)
    if tool and not res.violations:
        raise NoVerdict("; ".join(tool))
    return res


def run_miri_stage(st, prop, seed, tier):
    """Interprets cases in parallel for a fixed time; a report of undefined behaviour is a violation."""
    seconds = st["seconds"][1 if tier == "thorough" else 0]
    res = Result()

    def shard(s):
        base = 1000 * s
        return s, base, run_miri(["mini", prop, str(seed), str(base), str(base + 1000)], seconds)

    with concurrent.futures.ThreadPoolExecutor(CORES) as pool:
        for s, base, (code, out, err) in pool.map(shard, range(CORES)):
            # Whole lines only: the last one is cut short where the time ran out in its middle.
            cases = re.findall(r"^CASE (\d+)\n", err, re.M)
            last = int(cases[-1]) if cases else None
            done = len(cases) - (0 if code == 0 else 1)
            if "Undefined Behavior" in err:
                i = err.index("Undefined Behavior")
                what = "interpreter: " + err[max(0, i - 7):i + 600].strip().splitlines()[0]
                res.violations.append(replay_record(st, prop, seed, tier, last, what, {"report": err[i:i + 3000]}))
            elif code is not None and code != 0:
                raise NoVerdict(f"miri shard {s} ended with {code}: {err[-2500:]}")
            if code == 0:
                r = json.loads(out.splitlines()[-1])
                for v in r["violations"]:
                    res.violations.append(replay_record(st, prop, seed, tier, v["case"], v["what"], {"input": v["input"]}))
            res.evals += max(0, done)
            res.cases += max(0, done)
            res.hashes.update(range(base, base + max(0, done)))
    res.counters["cases interpreted"] = res.evals
    return res


# ---------------------------------------------------------------- verdict
def findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["findings"]


def is_known(prop, v, known):
    """A violation is known only with the very input and symptom that the file lists."""
    for k in known:
        if k["property"] == prop and k["what"] == v["what"] and k["input"] == v.get("input"):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop, tier, seed = a.property, a.tier, a.seed % (1 << 63)
    if prop not in PLAN:
        raise NoVerdict(f"unknown property {prop}")
    if a.replay:
        return replay(prop, a.replay)
    started = time.time()
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    for f in glob.glob(os.path.join(VERIF, "evidence", "replays", prop + "-*.json")):
        os.remove(f)

    plan, indirect = PLAN[prop], False
    try:
        binaries = build_all(plan)
    except NoVerdict as e:
        if prop not in FALLBACK:
            raise
        log(f"[the hooks do not build, watching public callers instead: {e}]")
        plan, indirect = FALLBACK[prop], True
        binaries = build_all(plan)
    build_s = time.time() - started

    results, violations = [], []
    plans = None
    for st in plan:
        run = st["prop"] or prop
        t = time.time()
        if st["build"] == "miri":
            r = run_miri_stage(st, run, seed, tier)
        else:
            if plans is None or run not in plans:
                out = subprocess.run([binaries[st["build"]], "list"], stdout=subprocess.PIPE, text=True, check=True, env=worker_env()).stdout
                plans = {l.split()[0]: (int(l.split()[1]), int(l.split()[2])) for l in out.splitlines()}
            r = run_stage(binaries[st["build"]], st, run, seed, tier, plans)
        r.seconds = time.time() - t
        results.append((st, r))
        log(f"[{prop} {st['build']}: {r.cases} cases, {r.evals} judged, {len(r.violations)} violations, {r.seconds:.1f} s]")
        if indirect and prop != "D03":
            own = [v for v in r.violations if prop == "D02" and "confirmed" in v]
            if r.violations and not own:
                raise NoVerdict(f"the hooks do not build and {run} is broken: {r.violations[0]['what']}")
            r.violations = own
        violations += r.violations
        if violations:
            break

    known = findings()
    reported, known_hits = [], {}
    for v in violations:
        k = is_known(prop, v, known)
        if k:
            known_hits[k["what"]] = k
        else:
            reported.append(v)
    for k in known_hits.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}: {json.dumps(k['input'])[:300]}")

    write_evidence(prop, tier, seed, results, reported, started, build_s)
    if reported:
        # Prefer the smallest input.
        reported.sort(key=lambda v: len(json.dumps(v.get("input", ""))))
        for i, v in enumerate(reported[:3]):
            path = os.path.join(VERIF, "evidence", "replays", f"{prop}-{i}.json")
            json.dump(dict(v, property=prop), open(path, "w"), indent=1)
            if i == 0:
                first = path
        v = reported[0]
        print(f"{prop} is broken: {v['what']}")
        if "input" in v:
            print(f"  input: {json.dumps(v['input'])[:1200]}")
        print(f"VIOLATION property={prop} replay={first}")
        return 1
    # A run that saw too little is no answer.
    for st, r in results:
        floor = FLOOR.get(f"{st['prop'] or prop}/{st['build']}/{tier}", 1)
        if r.truncated:
            floor = max(1, floor // 20)
        if r.evals < floor:
            raise NoVerdict(f"only {r.evals} judged executions in build '{st['build']}', expected at least {floor}")
    total = sum(r.evals for _, r in results)
    if indirect:
        print(f"{prop}: the hooks do not build on this tree; watched through public callers only")
    print(f"{prop} held on {total} judged executions ({tier}, seed {seed}, {time.time() - started:.0f} s)")
    return 0


def build_all(plan):
    names = list(dict.fromkeys(s["build"] for s in plan))
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        jobs = {n: pool.submit(build_miri) if n == "miri" else pool.submit(build, n) for n in names}
        return {n: j.result() for n, j in jobs.items()}


def write_evidence(prop, tier, seed, results, reported, started, build_s):
    meta = json.load(open(os.path.join(VERIF, "checks.json")))[prop]
    counters, samples, distinct, stages = {}, [], set(), []
    for st, r in results:
        key = st["build"]
        for k, v in r.counters.items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
        samples += r.samples[:6]
        distinct |= r.hashes if st["build"] != "miri" else {hash(("miri", h)) for h in r.hashes}
        stages.append({"build": key, "workload": st["prop"] or prop, "cases": r.cases, "judged": r.evals, "not judged": r.unjudged,
                       "distinct_nontrivial": len(r.hashes), "stopped by time limit": r.truncated, "seconds": round(getattr(r, "seconds", 0), 1)})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r.evals for _, r in results),
            "distinct_nontrivial": len(distinct),
            "rule": meta["rule"],
            "samples": samples[:12] or ["(no sample: the run ended early)"],
            "observed": counters,
            "not_judged": sum(r.unjudged for _, r in results),
            "stages": stages,
            "build_s": round(build_s, 1),
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(time.time() - started, 2),
        "violations": len(reported),
    }
    path = os.path.join(VERIF, "evidence", prop + ".json")
    json.dump(ev, open(path + ".tmp", "w"), indent=1)
    os.replace(path + ".tmp", path)


def replay(prop, path):
    v = json.load(open(path))
    st = next(s for s in PLAN[prop] + FALLBACK.get(prop, []) if s["build"] == v["build"])
    if v["build"] == "miri":
        build_miri()
        code, out, err = run_miri(["mini", v["run"], str(v["seed"]), str(v["case"]), str(v["case"] + 1)], 900)
        print(err[-3000:], out)
        broken = "Undefined Behavior" in err or (code == 0 and json.loads(out.splitlines()[-1])["violations"])
    else:
        kind, text, r = run_one(build(v["build"]), st, v["run"], v["seed"], v["tier"], v["case"])
        print(kind, text, json.dumps(r and r["violations"], indent=1))
        broken = kind in ("crash", "hang") or (r and r["violations"])
    if broken:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("does not show on this tree")
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except NoVerdict as e:
        print(f"NO VERDICT: {e}")
        code = 2
    sys.stdout.flush()
    sys.exit(code)

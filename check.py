#!/usr/bin/env python3
"""Runs one property's monitors against /repo's current working tree.

  check.py ID [--tier quick|thorough] [--seed N] [--count N] [--stage NAME] [--keep-going]
  check.py --replay FILE

Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.
Exit 2: no answer (the harness could not be built or misbehaved).
"""
import argparse, json, os, resource, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BINSCHEMA_REPO", "/repo")
WORK = os.path.join(VERIF, "work")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(WORK, "target")
CASE_STALL = {"debug": 60, "release": 60, "asan": 120, "miri": 150}

sys.path.insert(0, os.path.join(VERIF, "py"))
import plan  # noqa: E402


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def run(cmd, env=None, cwd=HARNESS, timeout=1500):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout, text=True, errors="replace")


def prepare_lock(dst):
    """Use the dependency versions /repo was built with."""
    src = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(src):
        src = os.path.join(VERIF, "Cargo.lock.repo")
    if not os.path.exists(dst):
        shutil.copyfile(src, dst)


BUILD = {
    "debug": (["cargo", "build", "--offline"], {}, "debug/mon"),
    "release": (["cargo", "build", "--offline", "--release"], {}, "release/mon"),
    "asan": (["cargo", "+nightly", "build", "--offline", "--target", "x86_64-unknown-linux-gnu"],
             {"RUSTFLAGS": "-Zsanitizer=address -Cunsafe-allow-abi-mismatch=sanitizer"},
             "x86_64-unknown-linux-gnu/debug/mon"),
    "miri": (["cargo", "+nightly", "miri", "run", "--offline", "--", "list"], {}, None),
}


def build(stage, features=()):
    cmd, env, out = BUILD[stage]
    env = dict(env)
    features = list(features) + (["plain_alloc"] if stage in ("asan", "miri") else [])
    if features:
        i = cmd.index("--offline")
        cmd = cmd[:i + 1] + ["--features", ",".join(features)] + cmd[i + 1:]
    target = TARGET if stage in ("debug", "release") else TARGET + "-" + stage
    env["CARGO_TARGET_DIR"] = target
    prepare_lock(os.path.join(HARNESS, "Cargo.lock"))
    t = time.time()
    p = run(cmd, env)
    if p.returncode != 0 and stage == "asan" and "allow-abi-mismatch" in p.stdout:
        env["RUSTFLAGS"] = "-Zsanitizer=address"
        p = run(cmd, env)
    if p.returncode != 0:
        raise NoAnswer("building the harness (%s) failed:\n%s" % (stage, p.stdout[-4000:]))
    if stage == "miri":
        argv = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--features", ",".join(features), "--"]
        renv = {"CARGO_TARGET_DIR": target,
                "MIRIFLAGS": "-Zmiri-disable-isolation"}
    else:
        argv = [os.path.join(target, out)]
        renv = {}
        if stage == "asan":
            renv = {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=3072"}
    log("built %s harness in %.1f s" % (stage, time.time() - t))
    return argv, renv


def limits(stage):
    def f():
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if stage in ("debug", "release"):
            resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    return f


class Worker:
    def __init__(self, stage, argv, env, args, tag, dir):
        self.stage, self.tag = stage, tag
        self.made = (stage, argv, env, args, tag, dir)
        self.second = False
        self.out = os.path.join(dir, tag + ".json")
        self.prog = os.path.join(dir, tag + ".progress")
        self.errf = os.path.join(dir, tag + ".stderr")
        for f in (self.out, self.prog, self.errf):
            if os.path.exists(f):
                os.remove(f)
        e = dict(os.environ)
        e.pop("RUSTFLAGS", None)
        e["RUST_BACKTRACE"] = "0"
        e.update(env)
        if stage == "miri":
            seed = int(args[args.index("--seed") + 1])
            w = int(args[args.index("--worker") + 1]) if "--worker" in args else 0
            e["MIRIFLAGS"] = e.get("MIRIFLAGS", "") + " -Zmiri-seed=%d" % (seed * 1000 + w)
        self.p = subprocess.Popen(argv + args + ["--progress", self.prog, "--out", self.out],
                                  cwd=HARNESS, env=e, stdout=open(self.errf + ".out", "w"),
                                  stderr=open(self.errf, "w"), preexec_fn=limits(stage))
        self.last = None
        self.since = self.case_since = time.time()
        self.since_cpu = 0.0
        self.hung = False

    def raw(self):
        try:
            return open(self.prog, "rb").read(24)
        except OSError:
            return b""

    def at(self):
        b = self.raw()[:16]
        return struct.unpack("<QQ", b) if len(b) == 16 else None

    def cpu(self):
        """Seconds of processor time the worker has used."""
        try:
            f = open("/proc/%d/stat" % self.p.pid).read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            return 0.0

    def poll(self, stall):
        rc = self.p.poll()
        if rc is not None:
            return rc
        a = self.raw()
        if a != self.last:
            if a[:16] != (self.last or b"")[:16]:
                self.case_since = time.time()
            self.last, self.since, self.since_cpu = a, time.time(), self.cpu()
        # hung: nothing new in that much time of its own, or, if it sleeps or the machine is busy, in three times as much
        elif (time.time() - self.since > stall and self.cpu() - self.since_cpu > stall * 0.9) \
                or time.time() - self.since > 3 * stall or time.time() - self.case_since > 3 * stall:
            self.hung = True
            self.kill()
            return self.p.wait()
        return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def errtail(self):
        try:
            s = open(self.errf, errors="replace").read()
        except OSError:
            return ""
        keep = [l for l in s.splitlines() if l.strip()]
        for i, l in enumerate(keep):
            if "ERROR: AddressSanitizer" in l or l.startswith("error:") or "LeakSanitizer" in l \
                    or "overflowed its stack" in l or "memory allocation of" in l:
                return "\n".join(keep[i:i + 25])[:2500]
        return "\n".join(keep[-8:])[-1500:]


def died_sig(stage, rc, tail):
    if stage == "miri":
        if "Undefined Behavior" in tail:
            kind = "data-race" if "Data race" in tail or "data race" in tail else "undefined-behaviour"
            return "miri:" + kind
        if "memory leaked" in tail:
            return "miri:leak"
        return "miri:abnormal-exit"
    if "AddressSanitizer" in tail:
        for l in tail.splitlines():
            if "AddressSanitizer:" in l:
                return "asan:" + l.split("AddressSanitizer:")[1].split()[0]
    if "LeakSanitizer" in tail:
        return "asan:leak"
    if "overflowed its stack" in tail:
        return "died:stack-overflow"
    if "memory allocation of" in tail:
        return "died:allocation-failure"
    if rc < 0:
        return "died:" + signal.Signals(-rc).name
    return "died:exit-%d" % rc


def empty():
    return {"evaluations": 0, "truncated": False, "events": {}, "skips": {}, "samples": [], "violations": [],
            "keys": set(), "rule": "", "workers": 0}


def stage_run(pid, st, tier, seed, only=None, quiet=False):
    """Runs one stage of the harness. Returns merged results."""
    stage = st["build"]
    if "builder" in st:   # a program of its own, made of the seed
        built = st["builder"](st, seed, sys.modules[__name__])
        if isinstance(built, dict):
            return built
        argv, env = built
    else:
        argv, env = build(stage, st.get("features", ()))
    if st.get("env"):
        env.update(st["env"])
    d = os.path.join(WORK, "run", pid + "-" + st["name"])
    os.makedirs(d, exist_ok=True)
    stall = st.get("stall", CASE_STALL[stage])
    base = ["run", st.get("id", pid), "--seed", str(seed), "--tier", tier]
    if st.get("count") is not None:
        base += ["--count", str(st["count"])]
    base += ["--secs", str(st["secs"])]
    res = empty()
    if only is not None:
        ws = [Worker(stage, argv, env, base + ["--case", str(only)], "only", d)]
    else:
        n = st.get("workers", 8)
        ws = [Worker(stage, argv, env, base + ["--worker", str(i), "--workers", str(n)], "w%d" % i, d)
              for i in range(n)]
    res["workers"] = len(ws)
    live = list(ws)
    ended = []
    try:
        while live:
            for w in list(live):
                rc = w.poll(stall)
                if rc is not None:
                    live.remove(w)
                    ended.append((w, rc))
            time.sleep(0.02)
    finally:
        for w in live:
            w.kill()
    keys = set()
    unclear = []
    # whoever finished first, then the dead, then the hung: a violation
    # that is certain spares confirming the hangs
    ended.sort(key=lambda e: (e[0].hung, e[1] not in (0, 3)))
    for w, rc in ended:
        if rc in (0, 3) and os.path.exists(w.out) and not w.hung:
            r = json.load(open(w.out))
            if r["harness_error"] is not None:
                raise NoAnswer("harness error in %s worker %s: %s" % (stage, w.tag, r["harness_error"]))
            if stage == "miri" and rc != 0:
                raise NoAnswer("miri worker exit %d" % rc)
            res["evaluations"] += r["evaluations"]
            res["truncated"] |= r["truncated"]
            res["rule"] = r["rule"]
            for k, v in r["events"].items():
                if k.startswith("max:"):
                    res["events"][k] = max(res["events"].get(k, 0), v)
                else:
                    res["events"][k] = res["events"].get(k, 0) + v
            for k, v in r["skips"].items():
                res["skips"][k] = res["skips"].get(k, 0) + v
            res["samples"] += r["samples"]
            for v in r["violations"]:
                v["stage"] = st["name"]
                res["violations"].append(v)
            kb = open(w.out + ".keys", "rb").read()
            keys.update(struct.unpack("<%dQ" % (len(kb) // 8), kb))
            continue
        # the worker died or hung: that is an observation, once it repeats
        a = w.at()
        tail = w.errtail()
        if only is not None:
            res["violations"].append({
                "case": only, "stage": st["name"],
                "sig": "hang" if w.hung else died_sig(stage, rc, tail),
                "detail": ("no progress for %d s" % stall) if w.hung else tail})
            continue
        if a is None:
            raise NoAnswer("%s worker %s failed before its first case (exit %s):\n%s" % (stage, w.tag, rc, tail))
        case, evals = a
        res["evaluations"] += evals
        if w.hung and stage == "miri":
            # the interpreter is slow; the other stages tell a case that hangs
            res["skips"]["too slow for the interpreter"] = res["skips"].get("too slow for the interpreter", 0) + 1
            res["truncated"] = True
            continue
        if w.hung and any((pid, v["sig"]) not in known_findings() for v in res["violations"]):
            res["truncated"] = True
            continue
        again = stage_run(pid, st, tier, seed, only=case, quiet=True)
        if again["violations"]:
            res["violations"] += again["violations"]
        elif not w.hung and os.path.exists(w.out):
            # died at exit (leak reports, for one): the whole slice is the input
            res["violations"].append({"case": None, "worker": w.tag, "stage": st["name"],
                                      "sig": died_sig(stage, rc, tail), "detail": tail})
        elif w.hung and not w.second:
            # the case runs alone: the machine was busy, and the worker gets another go
            w2 = Worker(*w.made)
            w2.second = True
            rc = None
            while rc is None:
                time.sleep(0.02)
                rc = w2.poll(2 * stall)
            ended.append((w2, rc))
        elif w.hung:
            unclear.append("worker %s stalled at case %d, which runs alone" % (w.tag, case))
        elif "AddressSanitizer" in tail or "Undefined Behavior" in tail:
            res["violations"].append({"case": case, "stage": st["name"],
                                      "sig": died_sig(stage, rc, tail), "detail": tail})
        else:
            unclear.append("worker %s died at case %d (exit %s), which runs alone:\n%s" % (w.tag, case, rc, tail))
    if unclear and not any((pid, v["sig"]) not in known_findings() for v in res["violations"]):
        raise NoAnswer(unclear[0])
    res["keys"] = keys
    return res


def known_findings():
    """known: property=<id> sig=<sig> <text>   (fixed: lines suppress nothing)"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:"):
                f = l.split(None, 3)
                pid = f[1].split("=", 1)[1]
                sig = f[2].split("=", 1)[1]
                out[(pid, sig)] = f[3].strip() if len(f) > 3 else ""
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--count", type=int)
    ap.add_argument("--stage")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    os.makedirs(WORK, exist_ok=True)
    if a.setup:
        build("debug")
        build("debug", ["catalog"])
        for stage in ("asan", "miri"):
            build(stage)
        for pid in ("C13", "C30", "C26"):
            st = plan.stages(pid, "quick")[0]
            st["builder"](st, a.seed, sys.modules[__name__])
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        return replay(r)
    pid = a.id
    t0 = time.time()
    stages = plan.stages(pid, a.tier)
    if a.stage:
        stages = [s for s in stages if s["name"] == a.stage]
    ev, skips, per_stage, samples, viols, keys, rule = {}, {}, {}, [], [], set(), ""
    evals = 0
    incomplete = []
    for st in stages:
        if a.count is not None:
            st["count"] = a.count
        if "run" in st:   # a stage with a driver of its own
            r = st["run"](pid, a.tier, a.seed, sys.modules[__name__])
        else:
            r = stage_run(pid, st, a.tier, a.seed)
        evals += r["evaluations"]
        if r["truncated"]:
            incomplete.append(st["name"])
        for k, v in r["events"].items():
            ev[k] = max(ev.get(k, 0), v) if k.startswith("max:") else ev.get(k, 0) + v
        for k, v in r["skips"].items():
            skips[k] = skips.get(k, 0) + v
        samples += r["samples"][:3]
        viols += r["violations"]
        keys |= r["keys"]
        rule = rule or r["rule"]
        per_stage[st["name"]] = {"evaluations": r["evaluations"], "workers": r.get("workers", 1),
                                 "stopped_by_time_limit": r["truncated"]}
        if any((pid, v["sig"]) not in known_findings() for v in r["violations"]):
            break
    known = known_findings()
    seen, fresh = {}, {}
    for v in viols:
        k = (pid, v["sig"])
        (seen if k in known else fresh).setdefault(v["sig"], v)
    for sig in sorted(seen):
        log("KNOWN-FINDING: property=%s %s: %s" % (pid, sig, known[(pid, sig)]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evidence = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(keys), "rule": rule,
            "samples": samples[:6], "observed_events": ev, "undecided_cases": skips,
            "stages": per_stage,
            "known_findings_observed": sorted(seen),
        },
        "assumptions": plan.assumptions(pid),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    log("%s: %d evaluations, %d distinct non-trivial, %.1f s, events %s" %
        (pid, evals, len(keys), time.time() - t0, json.dumps(ev, sort_keys=True)))
    if skips:
        log("undecided:", json.dumps(skips, sort_keys=True))
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, sig in enumerate(sorted(fresh)[:8]):
            v = fresh[sig]
            name = "replays/%s-%d.json" % (pid, i)
            json.dump({"property": pid, "tier": a.tier, "seed": a.seed, "stage": v["stage"], "case": v.get("case"),
                       "sig": sig, "detail": v["detail"], "extra": v.get("extra"),
                       "rerun": "python3 check.py --replay " + name},
                      open(os.path.join(VERIF, name), "w"), indent=1)
            log("  [%s] %s" % (sig, v["detail"][:1200]))
            log("VIOLATION property=%s replay=%s" % (pid, name))
        return 1
    if a.stage is None and a.count is None:
        missing = [k for k in plan.required(pid) if not ev.get(k)]
        if len(keys) < 2 or missing:
            log("the monitors observed too little: distinct=%d missing=%s" % (len(keys), missing))
            return 2
    return 0


def replay(r):
    st = [s for s in plan.stages(r["property"], r["tier"]) if s["name"] == r["stage"]][0]
    if "run" in st:
        res = st["run"](r["property"], r["tier"], r["seed"], sys.modules[__name__])
    else:
        res = stage_run(r["property"], st, r["tier"], r["seed"], only=r["case"])
    for v in res["violations"]:
        log("[%s] %s" % (v["sig"], v["detail"]))
    hit = any(v["sig"] == r["sig"] for v in res["violations"])
    log("reproduced" if hit else "not reproduced")
    return 1 if hit else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        log("NO ANSWER:", e)
        sys.exit(2)

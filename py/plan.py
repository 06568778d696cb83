"""What each check runs: stages, assumptions, and events that must have been seen."""
import json, os, time

import derived, macros

COMMON = [
    "the reference model in harness/src/model.rs and api.rs states FORMAT.txt and the documented call rules correctly",
    "what was not executed is not decided: reach comes from the seeded workload counted here",
]

EXTRA = {
    "C10": ["memory is measured by a counting global allocator on the thread under test"],
    "C11": ["AddressSanitizer and Miri see the accesses of the executions listed; MemorySanitizer and ThreadSanitizer "
            "need a rebuilt standard library, which this sandbox lacks"],
    "C24": ["data races are looked for by Miri's happens-before detector over seeded schedules"],
}

# events a full run cannot but observe; a run without one has not decided
REQUIRED = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "required.json")))


def required(pid):
    return REQUIRED.get(pid, [])


def assumptions(pid):
    return COMMON + EXTRA.get(pid, [])


# checks which go through the full catalogue of types
CATALOG = {"C10", "C12", "C24"}


def written_program(st, m, write, without, kind, sig, what):
    """Builds a program just written. Returns how to run it, or the violation
    that it does not compile though it does with that feature off."""
    dst = os.path.join(m.WORK, kind, st["name"])
    # one target folder serves all: each program needs a name of its own
    binary = kind + "_" + st["name"].replace("-", "_")
    write(dst, binary)
    m.prepare_lock(os.path.join(dst, "Cargo.lock"))
    env = {"CARGO_TARGET_DIR": m.TARGET}
    cmd = ["cargo", "build", "--offline"] + (["--release"] if st["build"] == "release" else [])
    t = time.time()
    p = m.run(cmd, env, cwd=dst)
    if p.returncode != 0:
        q = m.run(cmd + ["--features", without], env, cwd=dst)
        if q.returncode != 0:
            raise m.NoAnswer("the generated program does not build, even without what is tested:\n" + q.stdout[-4000:])
        res = m.empty()
        at = p.stdout.find("error")
        res["violations"].append({"case": None, "stage": st["name"], "sig": sig, "detail": what + p.stdout[at:at + 1500]})
        return res
    m.log("wrote and built a program in %.1f s" % (time.time() - t))
    return [os.path.join(m.TARGET, "release" if st["build"] == "release" else "debug", binary)], {}


def derived_program(st, seed, m):
    return written_program(
        st, m, lambda dst, name: derived.write(dst, name, seed * 1000 + st["program"], st["types"], m.HARNESS, m.REPO, st.get("hand", False)), "noderive",
        "derived", "derive-compile", "a program whose types declare KnownSchema does not compile, but does when that is taken out: ")


def macro_program(st, seed, m):
    return written_program(
        st, m, lambda dst, name: macros.write(dst, name, seed * 1000 + st["program"], st["uses"], m.HARNESS, m.REPO), "nomacro", "macros",
        "macro-compile", "a program that uses schema! as documented does not compile, but does when those uses are taken out: ")


def stages(pid, tier):
    q = tier == "quick"
    if pid in ("C13", "C30"):
        hand = "hand-" if pid == "C30" else ""
        one = {"hand": pid == "C30", "build": "debug", "builder": derived_program, "types": 40, "secs": 60, "count": 200000}
        if q:
            return [dict(one, name=hand + "debug", program=0)]
        out = []
        for i in range(10):
            b = "release" if i % 3 == 2 else "debug"
            out.append(dict(one, name="%s%s%d" % (hand, b, i), build=b, program=i, types=60, count=500000))
        return out
    if pid == "C26":
        one = {"builder": macro_program, "secs": 60}
        if q:
            return [dict(one, name="debug%d" % i, build="debug", program=i, uses=400, count=20000) for i in range(3)]
        return [dict(one, name="%s%d" % (b, i), build=b, program=i, uses=800, count=40000)
                for i, b in enumerate(["debug", "debug", "release"] * 5)]
    features = ["catalog"] if pid in CATALOG else []
    # (checks get 900 s; several stages share it)
    secs = {"C11": (240, 100, 160, 250), "C24": (300, 150, 0, 300)}.get(pid, (540, 240, 0, 0))
    out = [{"name": "debug", "build": "debug", "secs": 150 if q else secs[0], "features": features}]
    if not q:
        out.append({"name": "release", "build": "release", "secs": secs[1], "features": features})
    if pid == "C11":
        out.append({"name": "asan", "build": "asan", "secs": 60 if q else secs[2], "count": 16000 if q else 10**7})
    if pid in ("C11", "C24"):
        out.append({"name": "miri", "build": "miri", "secs": 90 if q else secs[3], "count": 96 if q else 10**5})
    return out

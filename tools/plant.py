#!/usr/bin/env python3
"""Turns the planted bugs described in tools/bugs_*.py into /verif/seeded/<id>/, each confirmed in a scratch copy of /repo.

plant.py            confirm and write the bugs that are not in /verif/seeded yet
plant.py ID...      the same for those IDs, rewriting them
plant.py --check ID...|all   run the quick check of each bug's property with the bug applied to /repo
plant.py --check own         the same for the bugs marked own: they break lines that our own repairs wrote,
                             so they are not seeded, but a check has to catch them as well
"""
import glob, importlib.util, json, os, re, shutil, subprocess, sys, time

TOOLS = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(TOOLS)
SEEDED = os.path.join(VERIF, "seeded")
REPO = "/repo"
SCRATCH = "/tmp/plant"
BASE = "0624ec1"

PRELUDE = '''#![allow(dead_code, unused)]
use binschema::{*, error::*, value::*};
use binschema::schema;
use std::io::{self, Read, Write};

/// Encode with `f`, which has to leave the coder finished.
fn enc<F: FnOnce(&mut Encoder<'_, '_, Vec<u8>>) -> Result<()>>(s: &Schema, f: F) -> Result<Vec<u8>> {
    let mut state = CoderState::new(s, CoderStateAlloc::new(), None);
    let mut buf = Vec::new();
    f(&mut Encoder::new(&mut state, &mut buf))?;
    state.is_finished_or_err()?;
    Ok(buf)
}

/// Decode with `f`, which has to leave the coder finished and all bytes read.
fn dec<T, F: FnOnce(&mut Decoder<'_, '_, &[u8]>) -> Result<T>>(s: &Schema, mut b: &[u8], f: F) -> Result<T> {
    let mut state = CoderState::new(s, CoderStateAlloc::new(), None);
    let v = f(&mut Decoder::new(&mut state, &mut b))?;
    state.is_finished_or_err()?;
    assert!(b.is_empty(), "bytes left over");
    Ok(v)
}

fn ser<T: serde::Serialize + ?Sized>(s: &Schema, v: &T) -> Result<Vec<u8>> {
    enc(s, |e| v.serialize(e))
}

fn de<T: serde::de::DeserializeOwned>(s: &Schema, b: &[u8]) -> Result<T> {
    dec(s, b, |d| T::deserialize(d))
}
'''

DEMO = '''#!/bin/bash
# Run in the root of the repository. Exits 0 if the property holds on the input in main.rs.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
mkdir -p /tmp/demo-%(id)s/src
trap 'rm -rf /tmp/demo-%(id)s' EXIT
cp "$here/main.rs" /tmp/demo-%(id)s/src/main.rs
cat > /tmp/demo-%(id)s/Cargo.toml <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
binschema = { path = "$repo/binschema" }
serde = { version = "1", features = ["derive"] }

[workspace]
END
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" /tmp/demo-%(id)s/Cargo.lock
cd /tmp/demo-%(id)s || exit 2
export CARGO_TARGET_DIR=/tmp/demo-%(id)s/target CARGO_NET_OFFLINE=true
cargo build --offline -q %(rel)s|| exit 2
timeout 200 cargo run --offline -q %(rel)s
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout)


def load():
    bugs = {}
    for f in sorted(glob.glob(os.path.join(TOOLS, "bugs_*.py"))):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        for b in mod.BUGS:
            assert b["id"] not in bugs, b["id"]
            bugs[b["id"]] = b
    return bugs


def original_lines_only(patch):
    """Every line the patch removes must be one of the base commit."""
    bad, f, n = [], None, 0
    blame = {}
    for line in patch.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
            out = sh(["git", "blame", "-s", "-l", "HEAD", "--", f], cwd=REPO).stdout.splitlines()
            blame[f] = [not (o.startswith("^") or o.startswith(BASE)) for o in out]
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-") and not line.startswith("---"):
            if blame[f][n - 1]:
                bad.append((f, n, line))
            n += 1
        elif line.startswith(" "):
            n += 1
    return bad


def confirm(b):
    w = os.path.join(SCRATCH, "repo")
    sh(["git", "checkout", "-q", "--", "."], cwd=w)
    for f, old, new in b["edits"]:
        p = os.path.join(w, f)
        t = open(p).read()
        if t.count(old) != 1:
            return "%s: %d places match %r" % (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    patch = sh(["git", "diff"], cwd=w).stdout
    bad = original_lines_only(patch)
    if bad:
        return "changes lines of our own: %r" % bad
    if not any(l.startswith("-") and not l.startswith("---") for l in patch.splitlines()):
        return "changes no line"
    env = {"RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true"}
    p = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline"], cwd=w, env=env)
    passed = sum(int(x) for x in re.findall(r"(\d+) passed", p.stdout))
    if p.returncode != 0 or passed != 8:
        return "tests: %d passed\n%s" % (passed, p.stdout[-3000:])
    d = os.path.join(SCRATCH, b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "main.rs"), "w").write(PRELUDE + b["demo"])
    open(os.path.join(d, "demo.sh"), "w").write(
        DEMO % {"id": b["id"], "rel": "--release " if b.get("release") else ""})
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    p = sh(["bash", os.path.join(d, "demo.sh")], cwd=w)
    if p.returncode in (0, 2):
        return "demo exits %d with the bug\n%s" % (p.returncode, p.stdout[-1500:])
    if "--show" in sys.argv:
        print(p.stdout[-600:])
    sh(["git", "checkout", "-q", "--", "."], cwd=w)
    p = sh(["bash", os.path.join(d, "demo.sh")], cwd=w)
    if p.returncode != 0:
        return "demo exits %d without the bug\n%s" % (p.returncode, p.stdout[-1500:])
    dst = os.path.join(SEEDED, b["id"])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    return None


def write(ids):
    bugs = load()
    todo = [i for i in bugs if not bugs[i].get("own") and (i in ids if ids else not os.path.exists(os.path.join(SEEDED, i)))]
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os.makedirs(SCRATCH)
    sh(["git", "clone", "-q", REPO, os.path.join(SCRATCH, "repo")])
    shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(SCRATCH, "repo", "Cargo.lock"))
    for i in todo:
        err = confirm(bugs[i])
        print("%-28s %s" % (i, "ok" if err is None else "REJECTED: " + err), flush=True)
    shutil.rmtree(SCRATCH, ignore_errors=True)


def check(ids):
    if ids == ["all"]:
        ids = sorted(os.listdir(SEEDED))
    bugs = load()
    if ids == ["own"]:
        ids = [i for i in bugs if bugs[i].get("own")]
    if sh(["git", "status", "--porcelain"], cwd=REPO).stdout.strip():
        sys.exit("/repo is not clean")
    res = {}
    for i in ids:
        if i in bugs and bugs[i].get("own"):
            meta = bugs[i]
            for f, old, new in meta["edits"]:
                q = os.path.join(REPO, f)
                t = open(q).read()
                assert t.count(old) == 1, (i, t.count(old), old)
                open(q, "w").write(t.replace(old, new))
            p = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline"], cwd=REPO)
            if sum(int(x) for x in re.findall(r"(\d+) passed", p.stdout)) != 8:
                print(i, "fails the tests", p.stdout[-1500:])
                sh(["git", "checkout", "-q", "--", "."], cwd=REPO)
                continue
        else:
            meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
            p = sh(["git", "apply", os.path.join(SEEDED, i, "patch.diff")], cwd=REPO)
            if p.returncode != 0:
                print(i, "does not apply:", p.stdout)
                continue
        t = time.time()
        try:
            p = sh([sys.executable, os.path.join(VERIF, "check.py"), meta["property"], "--tier", "quick"],
                   cwd=VERIF, env={"VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick"},
                   timeout=1500)
        finally:
            sh(["git", "checkout", "-q", "--", "."], cwd=REPO)
        hit = "VIOLATION property=%s" % meta["property"] in p.stdout
        res[i] = p.returncode == 1 and hit
        store = os.path.join(VERIF, "tools", "caught.json")
        known = json.load(open(store)) if os.path.exists(store) else {}
        known[i] = res[i]
        json.dump(known, open(store, "w"), indent=1, sort_keys=True)
        line = next((l for l in p.stdout.splitlines() if "VIOLATION" in l), p.stdout[-300:])
        print("%-28s %s %s rc=%d %.0fs %s" % (i, meta["property"], "caught" if res[i] else "MISSED", p.returncode,
                                              time.time() - t, "" if res[i] else line), flush=True)
    print("%d of %d caught" % (sum(res.values()), len(res)))


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if a != "--show"]
    if args[:1] == ["--check"]:
        check(args[1:])
    else:
        write(args)

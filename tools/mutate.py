#!/usr/bin/env python3
"""Mechanical mutants of /repo, run against small doses of all the monitors.

mutate.py list                     how many mutants there are
mutate.py run OUT [WORKERS [FROM [TO]]]   one line per mutant in OUT (JSON)

Each worker has copies of /repo (HEAD) and of /verif (HEAD) under /tmp/mut. A mutant that does not compile, or that
the repository's own tests fail, does not count; of the others each property runs a small number of cases until one
reports a violation. Those that survive this are for reading: equivalent, or a hole."""
import json, os, re, subprocess, sys, threading, time

REPO = "/repo"
FILES = ["coder/coder.rs", "coder/coder_alloc.rs", "decoder.rs", "encoder.rs", "error.rs", "known_schema.rs", "schema.rs",
         "serde/de.rs", "serde/ser.rs", "value.rs", "var_len.rs", "do_if_err.rs"]
DERIVE = "binschema_derive/src/lib.rs"
KINDS = ["Io", "MalformedData", "SchemaNonConformance", "PlatformLimits", "IllegalSchema", "ApiUsage", "Other"]


def show(path):
    return subprocess.run(["git", "-C", REPO, "show", "HEAD:" + path], capture_output=True, text=True).stdout


def mutants():
    out = []
    for f in ["binschema/src/" + f for f in FILES] + [DERIVE]:
        src = show(f)
        lines = src.split("\n")
        end = next((i for i, l in enumerate(lines) if l.startswith("#[test]")), len(lines))
        used = False

        def add(i, new, how, upto=None):
            out.append({"file": f, "line": i + 1, "upto": (upto if upto is not None else i) + 1, "new": new, "how": how,
                        "old": "\n".join(lines[i:(upto if upto is not None else i) + 1])})

        i = 0
        depth_use = False
        for i, l in enumerate(lines[:end]):
            s = l.strip()
            if s.startswith("use ") or s.startswith("pub use"):
                depth_use = not s.endswith(";")
                continue
            if depth_use:
                depth_use = not s.endswith(";")
                continue
            if not s or s.startswith("//") or s.startswith("#[") or s.startswith("///"):
                continue
            code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "\0" * (len(m.group(0)) - 2) + '"', l)

            def sub(pat, rep, how, code=code, l=l, i=i):
                for m in re.finditer(pat, code):
                    new = l[:m.start()] + m.expand(rep) + l[m.end():]
                    if new != l:
                        add(i, new, how)
            sub(r" == ", " != ", "== to !=")
            sub(r" != ", " == ", "!= to ==")
            sub(r" < (?!')", " <= ", "< to <=")
            sub(r" < (?!')", " > ", "< to >")
            sub(r" > ", " >= ", "> to >=")
            sub(r" <= ", " < ", "<= to <")
            sub(r" && ", " || ", "&& to ||")
            sub(r" \|\| ", " && ", "|| to &&")
            sub(r"\+= ", "-= ", "+= to -=")
            sub(r"-= ", "+= ", "-= to +=")
            sub(r" \+ 1\b", " + 2", "+ 1 to + 2")
            sub(r" \+ 1\b", "", "no + 1")
            sub(r" - 1\b", "", "no - 1")
            sub(r" << ", " >> ", "<< to >>")
            sub(r" >> ", " << ", ">> to <<")
            sub(r" \| ", " & ", "| to &") if "=>" not in l else None
            sub(r" & ", " | ", "& to |")
            sub(r"([=(\[ ])!(?=[a-z$(*])", r"\1", "no !")
            sub(r"\btrue\b", "false", "true to false")
            sub(r"\bfalse\b", "true", "false to true")
            sub(r"(?<![\w.\"])(\d+)(?![\w.\"])", lambda m: str(int(m.group(1)) + 1), "n + 1") if False else None
            for m in re.finditer(r"(?<![\w.\"#{:])(0b[01]+|\d+)(?![\w.\"}])", code):
                n = int(m.group(1), 0)
                add(i, l[:m.start()] + str(n + 1) + l[m.end():], "%s + 1" % m.group(1))
                if n > 1:
                    add(i, l[:m.start()] + str(n - 1) + l[m.end():], "%s - 1" % m.group(1))
            for k in KINDS:
                for m in re.finditer(r"\b(?:ErrorKind::)?%s\b" % k, code):
                    if "=>" in l or "ErrorKind::$k" in l or s in (k + ",",) and f.endswith("error.rs"):
                        continue
                    pre = "ErrorKind::" if m.group(0).startswith("ErrorKind") else ""
                    other = {"ApiUsage": "SchemaNonConformance", "SchemaNonConformance": "ApiUsage"}.get(k, "ApiUsage")
                    add(i, l[:m.start()] + pre + other + l[m.end():], "%s to %s" % (k, other))
            # statements of one line
            if s.endswith(";") and not s.startswith(("let ", "return", "}", ")", "mod ", "pub ", "extern")) and \
                    s.count("(") == s.count(")") and not s.startswith((".", "?")) and "=>" not in s:
                add(i, "", "statement deleted")
            if s.endswith("?;") and not s.startswith(("let ", ".", "}", ")")) and s.count("(") == s.count(")"):
                add(i, l.replace(s, "let _ = " + s[:-2] + ";"), "error ignored")
            m = re.match(r"(\s*)\.(do_if_err|map_err|trim_start_matches|take|min)\(.*\)(\?)?(;)?$", l)
            if m:
                add(i, m.group(1) + (m.group(3) or "") + (m.group(4) or ""), "call dropped")
            m = re.match(r"(\s*)if (.*) \{$", l)
            if m and " let " not in " " + m.group(2):
                add(i, "%sif false {" % m.group(1), "if false")
                add(i, "%sif true {" % m.group(1), "if true")
            m = re.match(r"(\s*)(ensure)!\($", l)
            if m:
                j = i
                while not re.match(r"^%s\);?$" % m.group(1), lines[j]):
                    j += 1
                add(i, "", "ensure deleted", upto=j)
            m = re.search(r"with_(type|none|transparent)_layer(::<[^(]*>)?\(\)", code)
            if m and "fn " not in l:
                add(i, l[:m.start()] + ("with_none_layer()" if m.group(1) != "none" else "clone()") + l[m.end():], "layer")
            # names and literals of the schemas that are declared
            for m in re.finditer(r"\bto_le_bytes\b", code):
                add(i, l[:m.start()] + "to_be_bytes" + l[m.end():], "endian")
            for m in re.finditer(r"\bfrom_le_bytes\b", code):
                add(i, l[:m.start()] + "from_be_bytes" + l[m.end():], "endian")
            m = re.match(r"(\s*)for _ in (\S+)\.\.(.*) \{$", l)
            if m:
                add(i, "%sfor _ in %s + 1..%s {" % m.groups(), "one round less")
            # adjacent lines of a list swapped
            if re.match(r"\s*(\(\w+: .*\)|\w+\(.*\)|\(%.*\)),$", l) and i + 1 < end and re.match(r"\s*(\(\w+: .*\)|\w+\(.*\)|\(%.*\)),$", lines[i + 1]) \
                    and lines[i + 1] != l and f.endswith("known_schema.rs"):
                add(i, lines[i + 1] + "\n" + l, "swapped", upto=i + 1)
    return out


def sh(cmd, cwd, env=None, timeout=300):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -99, "timeout"


ORDER = ["C04", "C03", "C09", "C17", "C14", "C12", "C19", "C27", "C05", "C06", "C07", "C08", "C01", "C02", "C15", "C16", "C18", "C20",
         "C21", "C22", "C23", "C25", "C29", "C11", "C28", "C10", "C24"]
WRITTEN = ["C13", "C30", "C26"]


class Copy:
    def __init__(self, n):
        self.d = "/tmp/mut/w%d" % n
        os.makedirs(self.d, exist_ok=True)
        for name, src in (("repo", REPO), ("verif", "/verif")):
            if not os.path.exists(os.path.join(self.d, name)):
                sh(["git", "clone", "-q", src, os.path.join(self.d, name)], "/tmp")
        r = os.path.join(self.d, "repo")
        subprocess.run(["cp", os.path.join(REPO, "Cargo.lock"), r])
        t = os.path.join(self.d, "verif/harness/Cargo.toml")
        s = open(t).read().replace('"/repo/', '"%s/' % r)
        open(t, "w").write(s)
        self.env = {"BINSCHEMA_REPO": r, "CARGO_NET_OFFLINE": "true"}
        self.binenv = dict(self.env, CARGO_TARGET_DIR=os.path.join(self.d, "verif/work/target"))

    def build(self):
        return sh(["cargo", "build", "--offline", "-q", "--features", "catalog"], os.path.join(self.d, "verif/harness"), self.binenv)

    def one(self, m):
        r = os.path.join(self.d, "repo")
        p = os.path.join(r, m["file"])
        lines = open(p).read().split("\n")
        assert "\n".join(lines[m["line"] - 1:m["upto"]]) == m["old"], m
        lines[m["line"] - 1:m["upto"]] = [m["new"]]
        open(p, "w").write("\n".join(lines))
        try:
            rc, out = sh(["cargo", "build", "--offline", "-q", "-p", "binschema", "-p", "binschema_derive"], r, self.env)
            if rc:
                return "does not compile"
            rc, out = sh(["cargo", "test", "--offline", "-q", "--workspace"], r, self.env, 120)
            if rc:
                return "tests"
            rc, out = self.build()
            if rc:
                return "harness does not build: " + out[-300:]
            exe = os.path.join(self.d, "verif/work/target/debug/mon")
            for pid in ([] if m["file"] == DERIVE else ORDER):
                o = os.path.join(self.d, "out.json")
                if os.path.exists(o):
                    os.remove(o)
                rc, out = sh(["bash", "-c", 'ulimit -v 12000000; exec "$@"', "x", exe, "run", pid, "--count", COUNT, "--secs", "25", "--seed", "3", "--progress",
                              os.path.join(self.d, "prog"), "--out", o], self.d, None, 60)
                if rc not in (0,):
                    if rc == 3 or rc == 1:
                        try:
                            v = json.load(open(o))["violations"]
                            return "%s %s" % (pid, v[0]["sig"] if v else "?")
                        except Exception:
                            pass
                    return "%s rc %d" % (pid, rc)
                try:
                    v = json.load(open(o))["violations"]
                    v = [x for x in v if not x["sig"].startswith("stack-overflow")]
                    if v:
                        return "%s %s" % (pid, v[0]["sig"])
                except Exception:
                    pass
            for pid in WRITTEN:
                rc, out = sh([sys.executable, "check.py", pid, "--tier", "quick", "--count", "30000", "--seed", "3"], os.path.join(self.d, "verif"), self.env, 600)
                if rc:
                    return "%s rc %d%s" % (pid, rc, "" if rc == 1 else " " + out[-600:])
            return "SURVIVED"
        finally:
            sh(["git", "checkout", "-q", "--", "."], r)


COUNT = "1500"


def main():
    ms = mutants()
    if sys.argv[1] == "list":
        by = {}
        for m in ms:
            by[m["file"]] = by.get(m["file"], 0) + 1
        print(len(ms), by)
        return
    out = open(sys.argv[2], "a")
    workers = int(sys.argv[3]) if len(sys.argv) > 3 else 4
    ms = ms[int(sys.argv[4]) if len(sys.argv) > 4 else 0:int(sys.argv[5]) if len(sys.argv) > 5 else None]
    lock = threading.Lock()
    todo = list(enumerate(ms))[::-1]

    def work(n):
        c = Copy(n)
        while True:
            with lock:
                if not todo:
                    return
                k, m = todo.pop()
            t = time.time()
            try:
                res = c.one(m)
            except Exception as e:
                res = "ERROR %r" % e
            with lock:
                out.write(json.dumps({"n": k, "file": m["file"].split("src/")[1], "line": m["line"], "how": m["how"], "old": m["old"].strip()[:160],
                                      "new": m["new"].strip()[:160], "result": res, "s": round(time.time() - t)}) + "\n")
                out.flush()
    ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()

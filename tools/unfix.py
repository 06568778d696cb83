#!/usr/bin/env python3
"""Take each repair listed in known_findings.txt back, one at a time, and see
that its property's check reports the violation again.  Uses /repo, and
leaves it as it was: run it when nothing else does."""
import os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def git(*a, **k):
    return subprocess.run(["git", "-C", "/repo"] + list(a), capture_output=True, text=True, **k)


def main():
    fixed = re.findall(r"^fixed: property=(C\d+) ([0-9a-f]+)", open(os.path.join(VERIF, "known_findings.txt")).read(), re.M)
    if git("status", "--porcelain", "-uno").stdout.strip():
        sys.exit("/repo is not clean")
    bad = 0
    for pid, commit in fixed:
        if sys.argv[1:] and commit not in sys.argv[1:]:
            continue
        diff = git("show", commit).stdout
        r = git("apply", "-R", "--3way", "-", input=diff)
        if r.returncode:
            # later repairs rewrote these lines: take those back, too
            git("reset", "-q", "--hard", "HEAD")
            later = git("rev-list", commit + "..HEAD").stdout.split()
            files = set(git("show", "--name-only", "--format=", commit).stdout.split())
            for c in later:
                if files & set(git("show", "--name-only", "--format=", c).stdout.split()):
                    git("apply", "-R", "--3way", "-", input=git("show", c).stdout)
            r = git("apply", "-R", "--3way", "-", input=diff)
        if r.returncode:
            print(commit, pid, "cannot be taken back alone")
            git("reset", "-q", "--hard", "HEAD")
            bad += 1
            continue
        try:
            p = subprocess.run([sys.executable, "check.py", pid, "--tier", "quick"], cwd=VERIF, capture_output=True, text=True)
        finally:
            git("reset", "-q", "--hard", "HEAD")
        hit = re.search(r"^VIOLATION property=%s " % pid, p.stdout, re.M) is not None
        sigs = re.findall(r"^  \[([^\]]*)\]", p.stdout, re.M)
        print(commit, pid, "exit", p.returncode, "reported" if hit else "NOT REPORTED", sigs[:3], flush=True)
        bad += not hit
    return bad


sys.exit(main())

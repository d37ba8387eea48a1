#!/usr/bin/env python3
"""mut.py ID[,ID..] [label]: run a check against the mutants (must alarm) and refactorings (must stay quiet) in tools/mut/<ID>.py
MUT / REF = [(label, [(path, old, new), ...]), ...]; each is applied to a scratch copy of /repo."""
import concurrent.futures as cf
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def load(i):
    s = importlib.util.spec_from_file_location("m", os.path.join(HERE, "mut", i + ".py"))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return getattr(m, "MUT", []), getattr(m, "REF", [])


def one(pid, label, edits):
    d = tempfile.mkdtemp(prefix="mut")
    try:
        subprocess.run("cd /repo && git archive HEAD | tar x -C " + d, shell=True, check=True)
        for p, old, new in edits:
            f = os.path.join(d, p)
            s = open(f).read()
            if old not in s:
                return label, "TEXT NOT FOUND: " + old[:60], ""
            open(f, "w").write(s.replace(old, new, 1))
        comp = subprocess.run("for f in src/*.c; do case $f in *_test.c) ;; *) gcc -w -std=gnu11 -Iinclude -Isrc -D_METAC_OFF_ -fsyntax-only $f || exit 1;; esac; done",
                              shell=True, cwd=d, capture_output=True, text=True)
        if comp.returncode:
            return label, "DOES NOT COMPILE " + comp.stderr[:300], ""
        p = subprocess.run([sys.executable, os.path.join(HERE, "..", "check.py"), pid], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=os.path.join(d, ".evidence")))
        lines = [l for l in p.stdout.split("\n") if "[" in l and "VIOLATION" not in l]
        return label, p.returncode, (lines[0] if lines else p.stdout[-300:] + p.stderr[-500:] if p.returncode else "")
    finally:
        shutil.rmtree(d)


def main():
    ids = sys.argv[1].split(",")
    sel = sys.argv[2:]
    for pid in ids:
        mut, ref = load(pid)
        jobs = [("M", a, b) for a, b in mut] + [("R", a, b) for a, b in ref]
        if sel:
            jobs = [j for j in jobs if j[1] in sel]
        with cf.ThreadPoolExecutor(3) as ex:
            res = list(ex.map(lambda j: (j[0],) + one(pid, j[1], j[2]), jobs))
        for t, l, rc, out in res:
            good = rc == (1 if t == "M" else 0)
            print("%s %s %-9s %s: rc=%s %s" % ("ok  " if good else "FAIL", pid, "mutant" if t == "M" else "refactor", l, rc, out[:220] if out else ""))


main()

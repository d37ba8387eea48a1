#!/usr/bin/env python3
"""refall.py [-c ID,ID] [FILE[:label] ...]: run every registered check against every refactoring (REF of tools/mut/*.py); all have to stay quiet."""
import concurrent.futures as cf
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def load(f):
    s = importlib.util.spec_from_file_location("m", f)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return getattr(m, "REF", [])


def prepare(edits):
    d = tempfile.mkdtemp(prefix="ref")
    subprocess.run("cd /repo && git archive HEAD | tar x -C " + d, shell=True, check=True)
    for p, old, new in edits:
        f = os.path.join(d, p)
        s = open(f).read()
        if old not in s:
            return d, "TEXT NOT FOUND: " + old[:80]
        open(f, "w").write(s.replace(old, new, 1))
    c = subprocess.run("for f in src/*.c; do case $f in *_test.c) ;; *) gcc -w -std=gnu11 -Iinclude -Isrc -D_METAC_OFF_ -fsyntax-only $f || exit 1;; esac; done",
                       shell=True, cwd=d, capture_output=True, text=True)
    return d, ("DOES NOT COMPILE " + c.stderr[:400]) if c.returncode else None


def run(d, pid):
    p = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), pid], capture_output=True, text=True,
                       env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=os.path.join(d, ".evidence")))
    lines = [l for l in p.stdout.split("\n") if "[" in l and "VIOLATION" not in l]
    return pid, p.returncode, ("\n      ".join(l[:260] for l in lines[:3]) if lines else p.stdout[-300:] + p.stderr[-600:])


def main():
    a = sys.argv[1:]
    ids = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
    if a and a[0] == "-c":
        ids, a = a[1].split(","), a[2:]
    names = sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(HERE, "mut", "*.py")))
    todo = []
    for n in names:
        for label, e in load(os.path.join(HERE, "mut", n + ".py")):
            if not a or n in a or n + ":" + label in a:
                todo.append((n + ":" + label, e))
    with cf.ThreadPoolExecutor(7) as ex:
        for i in range(0, len(todo), 4):
            part = [(l, prepare(e)) for l, e in todo[i:i + 4]]
            fut = [(l, err, [] if err else [ex.submit(run, d, p) for p in ids]) for l, (d, err) in part]
            for l, err, fs in fut:
                bad = [r for r in (f.result() for f in fs) if r[1] != 0]
                print("%s %s %s" % ("FAIL" if err or bad else "ok  ", l, err or ""), flush=True)
                for p, rc, t in bad:
                    print("   %s rc=%s %s" % (p, rc, t), flush=True)
            for _, (d, _) in part:
                shutil.rmtree(d)


main()

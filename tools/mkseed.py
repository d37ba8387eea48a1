#!/usr/bin/env python3
"""mkseed.py: (re)creates seeded/<id>/ from tools/seeds/<id>.py (edits, demo source, texts); patch is made against /repo HEAD"""
import sys, os, subprocess, json, shutil, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
def sh(c, cwd="/repo"): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
def main():
    names = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(HERE + "/seeds") if f.endswith(".py"))
    for n in names:
        spec = importlib.util.spec_from_file_location(n, f"{HERE}/seeds/{n}.py"); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        assert not sh("git status --porcelain").stdout.strip(), "repo dirty"
        for path, old, new in m.EDITS:
            s = open("/repo/" + path).read()
            assert s.count(old) == 1, (n, path, s.count(old), old)
            open("/repo/" + path, "w").write(s.replace(old, new))
        p = sh("git diff").stdout
        sh("git checkout -- .")
        d = f"/verif/seeded/{n}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(p)
        for f, t in m.FILES.items(): open(f"{d}/{f}", "w").write(t.lstrip("\n"))
        for f in getattr(m, "LIB", ["md.h", "fi.h", "fi.c", "lib.sh"]): shutil.copy(f"{HERE}/seedlib/{f}", d)
        json.dump({"property": m.PROPERTY, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, open(d + "/meta.json", "w"), indent=1)
        print("made", n)
main()

#!/usr/bin/env python3
"""tryseed.py ID [--check C01,..]: build, test and demonstrate a planted bug in a scratch copy, then run checks on /repo"""
import sys, os, subprocess, json, shutil, tempfile
def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    nochk = "--nocheck" in sys.argv
    only = [a.split("=")[1].split(",") for a in sys.argv if a.startswith("--check=")]
    for i in ids or sorted(os.listdir("/verif/seeded")):
        d = f"/verif/seeded/{i}"
        meta = json.load(open(d + "/meta.json"))
        side = tempfile.mkdtemp(prefix="seed_")
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy(f"{d}/{f}", side)
        def demo(): 
            r = sh(f"timeout 300 bash {side}/demo.sh", cwd="/repo"); return r.returncode, (r.stdout + r.stderr)[-300:]
        res = {}
        if sh("git status --porcelain", cwd="/repo").stdout.strip(): sys.exit("repo dirty")
        res["clean"] = demo()
        a = sh(f"git apply {d}/patch.diff", cwd="/repo")
        if a.returncode: print(i, "patch does not apply", a.stderr); continue
        try:
            b = sh("bash /opt/vp/build.sh"); res["build"] = b.returncode
            t = sh(f"bash /opt/vp/test.sh {side}/o.json"); o = json.load(open(f"{side}/o.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            res["failed"] = o["failed"]; res["passed"] = len(o["passed"])
            res["patched"] = demo()
            if not nochk:
                for p in (only[0] if only else [meta["property"]]):
                    c = sh(f"python3 check.py {p}", cwd="/verif")
                    res["check " + p] = (c.returncode, [l[:300] for l in c.stdout.splitlines() if "VIOLATION" in l or l.startswith(("rule","  "))][:4])
        finally:
            sh("git checkout -- .", cwd="/repo"); shutil.rmtree(side)
        sh("bash /opt/vp/build.sh")
        ok = res["clean"][0] == 0 and res["build"] == 0 and not res["failed"] and res["patched"][0] != 0
        print(i, "GOOD" if ok else "BAD", meta["property"], json.dumps(res))
main()

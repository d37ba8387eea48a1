#!/usr/bin/env python3
"""sweep.py OPERATOR [STEP [START]]: every STEP-th mutant a simple operator makes of the C library (a release dropped or doubled, a NULL test
dropped, a traversal step dropped or doubled), judged by the checks built on the dataflow engine in one run; prints the survivors."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = "entry entry_cdecl entry_db entry_tag hashmap iterator printf_format value value_base_type value_deep value_string value_with_args".split()
REL = r"^\s*(free|metac_[a-z_]*(delete|cleanup|free)[a-z_]*|_[a-z_]*delete|hashmapFree)\s*\(.*;\s*$"
IT = r"^\s*metac_recursive_iterator_(done|fail|set_state)\s*\(.*;\s*$"
OPS = {
    "drop": (REL, lambda l: re.sub(r"\S.*", ";", l)),
    "twice": (REL, lambda l: l + " " + l.strip()),
    "nocheck": (r"^\s*if \(.*== NULL.*\{\s*$", lambda l: re.sub(r"if \((.*)\) \{", r"if (0 && (\1)) {", l)),
    "itdrop": (IT, lambda l: re.sub(r"\S.*", ";", l)),
    "ittwice": (IT, lambda l: l + " " + l.strip()),
}


def worker():
    sys.path.insert(0, os.path.join(HERE, "..", "lib"))
    from p_null import Aborts
    import p_null
    import p_own
    from run import Run
    import run
    R = Run(limit=40, required=p_own.required(), extra=[Aborts])
    out = {}
    for k, v in R.findings.items():
        for pid, (kinds, rule) in p_own.RULES.items():
            if v[0] in kinds:
                out.setdefault(pid, []).append("%s %s" % (v[2], v[3][:100]))
    from result import Result
    r = Result("", "")
    p_own.fields(R, r)
    for f in r.findings:
        out.setdefault("C01", []).append(f.text)
    p_null.Run = lambda **k: R
    for f in p_null.check("C04", "quick").findings:
        out.setdefault("C04", []).append(f.text)
    print("RESULT " + json.dumps(out))


def main():
    if sys.argv[1] == "--worker":
        return worker()
    op = sys.argv[1]
    step = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    start = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    rx, edit = OPS[op]
    sites = []
    for f in SRC:
        for k, l in enumerate(open("/repo/src/%s.c" % f).read().split("\n")):
            if re.match(rx, l):
                sites.append((f, k, l))
    print(len(sites), "sites", flush=True)
    for f, k, l in sites[start::step]:
        d = tempfile.mkdtemp(prefix="swp")
        try:
            subprocess.run("cd /repo && git archive HEAD | tar x -C " + d, shell=True, check=True)
            p = os.path.join(d, "src", f + ".c")
            s = open(p).read().split("\n")
            s[k] = edit(s[k])
            open(p, "w").write("\n".join(s))
            c = subprocess.run("gcc -w -std=gnu11 -Iinclude -Isrc -D_METAC_OFF_ -fsyntax-only src/%s.c" % f, shell=True, cwd=d, capture_output=True)
            if c.returncode:
                continue
            w = subprocess.run([sys.executable, os.path.abspath(__file__), "--worker"], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/.evidence"))
            m = re.search(r"RESULT (.*)", w.stdout)
            res = json.loads(m.group(1)) if m else {"broken": [w.stderr[-200:]]}
            print("%s %s:%d %s => %s" % ("caught  " if res else "SURVIVED", f, k + 1, l.strip()[:90], ",".join(sorted(res)) or "-"), flush=True)
        finally:
            shutil.rmtree(d)


main()

#!/usr/bin/env python3
"""plant.py SPEC.py: SPEC defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)].
Applies each edit to /repo, runs the tests and the property's check, saves the bug, runs its demo on both trees."""
import subprocess, sys, os, json, runpy
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
B = runpy.run_path(sys.argv[1])["BUGS"]
only = sys.argv[2:]
for b in B:
    if only and b["id"] not in only: continue
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    try:
        for f, o, n in b["edits"]:
            p = "/repo/docx-core/src/" + f; s = open(p).read(); assert s.count(o) >= 1, (b["id"], f, o)
            open(p, "w").write(s.replace(o, n, 1))
        t = sh("cd /repo && bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/plant.json")
        tests = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:]
        c = sh(f"cd /verif && python3 check.py {b['prop']}")
        viol = [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "ERROR", "failing input", "failed obl", "UNDEC"))]
        r = subprocess.run([sys.executable, "/verif/tools/mkseed.py", b["id"], b["prop"], b["needs"], b["breaks"]], input=b["demo"], text=True, capture_output=True)
        assert r.returncode == 0, r.stderr
    finally:
        sh("git -C /repo checkout -- .")
    d0 = sh(f"cd /repo && bash /verif/seeded/{b['id']}/demo.sh")
    sh(f"git -C /repo apply /verif/seeded/{b['id']}/patch.diff")
    try: d1 = sh(f"cd /repo && bash /verif/seeded/{b['id']}/demo.sh")
    finally: sh("git -C /repo checkout -- .")
    print(f"== {b['id']} tests: {tests} | check rc={c.returncode} | demo clean={d0.returncode} patched={d1.returncode}")
    for l in viol[:6]: print("    ", l[:260])
    if d0.returncode: print("    clean demo:", (d0.stdout + d0.stderr)[-600:])
    if d1.returncode == 3: print("    demo build:", (d1.stdout + d1.stderr)[-600:])
sh("cd /repo && bash /opt/vp/build.sh")

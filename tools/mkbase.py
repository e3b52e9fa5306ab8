#!/usr/bin/env python3
"""mkbase.py [UNIT..]: records the function keys each unit extracts from the current tree (units/<unit>.keys),
how many closures they have, and their bodies with and without regard to statement order.
check.py uses the list only to tell what is new or reordered in the tree it is given."""
import json, os, subprocess, sys, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("SRC", "/repo/docx-core/src")
us = sys.argv[1:] or sorted({u for c in json.load(open(R + "/checks.json")).values() for u in c["units"]})
os.makedirs(R + "/work", exist_ok=True)
for u in us:
    m = R + "/work/base.json"
    subprocess.run([R + "/target/debug/vx", "--src", SRC, "--unit", f"{R}/units/{u}.rs", "--out", R + "/work/base.rs", "--map", m], check=True)
    j = json.load(open(m))
    open(f"{R}/units/{u}.keys", "w").write("\n".join(sorted({"%s\t%d\t%s\t%s" % (f["fn"], f["closures"], f["shape"], f["text"]) for f in j["fns"]})) + "\n")
    print(u, len(j["fns"]), "missing", j["missing"], "lost", j["lost"])

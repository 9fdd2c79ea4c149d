#!/bin/bash
# replay.sh PROPERTY ENTRY INPUTFILE : run one solver model against a native build of /repo's current sources
cd "$(dirname "$0")" && exec python3 - "$@" <<'P'
import sys, os, tempfile, shutil, concurrent.futures as cf
sys.argv = sys.argv; sys.path.insert(0, ".")
import run
from registry import PROPS
pid, entry, inp = sys.argv[1:4]
e = [x for x in PROPS[pid]["entries"] if x["entry"] == entry][0]
for l in open(inp):
    if l.startswith("# defines "): defs = l.split()[2:]; break
else: defs = (e["quick"] or e["thorough"]).split()
tmp = tempfile.mkdtemp(prefix="vp_replay_")
try:
    u = run.Unit(e["file"], e.get("src", []), defs, tmp, e.get("extra", []), e.get("libs", []))
    with cf.ThreadPoolExecutor(8) as ex: exe = u.native(ex, entry)
    vals = [l.split(None, 1) for l in open(inp) if l.strip() and not l.startswith("#")]
    kind, lab, obs = run.run_native(exe, [(k, v.strip()) for k, v in vals], os.path.join(tmp, "in"))
    print("outcome: %s %s" % (kind, lab)); sys.exit(0 if kind == "ok" else 1)
finally: shutil.rmtree(tmp, ignore_errors=True)
P

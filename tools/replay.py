#!/usr/bin/env python3
"""replay.py <file>: execute a reported history again and show what the specification says."""
import json, shutil, sys, tempfile
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent))
import build as B, mbv

d = json.load(open(sys.argv[1]))
c = mbv.Case(d["id"])
c.lines, c.ev = d["lines"], d["calls"]
h = d["how"]
exe = B.build([h["harness"]], extra=tuple(h["extra"]), variant=h.get("variant", ""), libextra=h["libextra"])[h["harness"]]
w = Path(tempfile.mkdtemp(prefix="mbv-replay-"))
try:
    m = mbv.merge(c, mbv.run_harness(exe, [c], w, env=h["env"], shards=1)[c.id])
    acc, rej, _ = mbv.validate([m], w, h["module"])
finally:
    shutil.rmtree(w, ignore_errors=True)
upto = rej[c.id][0] if rej else len(m["ev"])
for i, e in enumerate(m["ev"][:upto], 1):
    if e["c"] == "ins":
        print(i, "instructions")
        for x in e["l"]:
            print("     ", x["op"], *("%s=%s" % (k, x[k]) for k in "rabkc"))
    else:
        print(i, {k: v for k, v in e.items() if k not in ("o", "k", "s", "rc", "err")})
    print("    reported:", {k: e[k] for k in ("rc", "err", "o", "k", "s")})
print("REJECTED " + str(rej[c.id]) if rej else "conforms")
sys.exit(1 if rej else 0)

#!/usr/bin/env python3
"""shrink.py <replay file>: smaller history that the specification still rejects (debugging aid)."""
import json, shutil, sys, tempfile
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent))
import build as B, mbv

d = json.load(open(sys.argv[1]))
h = d["how"]
exe = B.build([h["harness"]], extra=tuple(h["extra"]), variant=h.get("variant", ""), libextra=h["libextra"])[h["harness"]]
w = Path(tempfile.mkdtemp(prefix="mbv-shrink-"))


def split(lines, ev):
    out, i = [], 0
    for e in ev:
        k = len(e["l"]) if e["c"] == "ins" else 0
        out.append((lines[i:i + 1 + k], e))
        i += 1 + k
    return out


def mk(cid, items):
    c = mbv.Case(cid)
    for l, e in items:
        if e["c"] == "ins":
            l = ["ins %d" % len(e["l"])] + l[1:]
        c.lines += l
        c.ev.append(e)
    return c


def test(variants):
    """which variants are still rejected"""
    cs = [mk("s%d" % i, v) for i, v in enumerate(variants)]
    shutil.rmtree(w / "t", ignore_errors=True)
    try:
        r = mbv.run_harness(exe, cs, w / "t", env=h["env"])
        ms = [mbv.merge(c, r[c.id]) for c in cs]
    except mbv.HarnessError:
        ms = []
        for c in cs:
            try:
                r = mbv.run_harness(exe, [c], w / "t", env=h["env"], shards=1)
                ms.append(mbv.merge(c, r[c.id]))
            except mbv.HarnessError:
                pass
    if not ms:
        return {}
    acc, rej, _ = mbv.validate(ms, w, h["module"], timeout=120)
    return {int(k[1:]): v for k, v in rej.items()}


items = split(d["lines"], d["calls"])
import re
kind = re.search(r"\((\w+)\)", d["verdict"]).group(1)
why = d["verdict"].split(": ", 1)[1].split(",")[0]
items = items[:int(re.search(r"event (\d+)", d["verdict"]).group(1))]


def atoms(its):
    return [(i, None) for i, (l, e) in enumerate(its) if e["c"] not in ("new", "on", "on7", "off")] + \
           [(i, j) for i, (l, e) in enumerate(its) if e["c"] == "ins" for j in range(len(e["l"]))]


def without(its, drop):
    out = []
    for i, (l, e) in enumerate(its):
        if (i, None) in drop:
            continue
        if e["c"] == "ins":
            keep = [j for j in range(len(e["l"])) if (i, j) not in drop]
            if not keep:
                continue
            l, e = l[:1] + [l[1 + j] for j in keep], dict(e, l=[e["l"][j] for j in keep])
        out.append((l, e))
    return out


same = lambda v: v[1] == kind and ("domain" not in v[2]) and v[2][:12] == why[:12]
n = 2
while True:
    at = atoms(items)
    if n > len(at):
        break
    size = -(-len(at) // n)
    cand = [without(items, set(at[i:i + size])) for i in range(0, len(at), size)]
    # an event that fails must stay the last one
    ok = {k: v for k, v in test(cand).items() if same(v)}
    if ok:
        items = cand[sorted(ok)[0]]
        n = max(2, n - 1)
    else:
        if size == 1:
            break
        n = min(len(at), n * 2)
c = mk("s0", items)
ms = mbv.merge(c, mbv.run_harness(exe, [c], w / "f", env=h["env"], shards=1)["s0"])
print("\n".join(c.lines))
print(ms["ev"][-1])
print(test([items]))
shutil.rmtree(w, ignore_errors=True)

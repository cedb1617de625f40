"""Model-based verification plumbing: run scripts through a harness, hand the recorded
histories to TLC, and turn the outcome into a verdict, a replay and an evidence file."""
import json, os, re, shutil, subprocess, sys, time, random, hashlib
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
import build as B

VERIF = B.VERIF
SPEC = VERIF / "spec"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8


def java_dir():
    src = SPEC / "Num.java"
    d = B.CACHE / "java" / B.sha(src.read_bytes())
    if not (d / "Num.class").exists():
        tmp = d.with_name(d.name + ".tmp%d" % os.getpid())
        tmp.mkdir(parents=True, exist_ok=True)
        subprocess.run(["javac", "-cp", JARS.split(":")[0], "-d", str(tmp), str(src)], check=True)
        if not d.exists():
            try:
                tmp.rename(d)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)
    return d


class Case:
    """A history: script lines for the harness and the matching call records for TLC."""

    def __init__(self, cid):
        self.id = cid
        self.lines = []
        self.ev = []

    def add(self, line, ev, extra=()):
        self.lines.append(line)
        self.lines.extend(extra)
        self.ev.append(ev)

    # --- calls
    def new(self):
        self.add("new", {"c": "new"})

    def cur(self, tag):
        self.add("cur %d" % tag, {"c": "cur", "tag": tag})

    def on(self, tag, keep=0, bufs=None):
        if bufs:
            self.add("on7 %d %d %d %d %d %d 0" % ((tag, keep) + tuple(bufs)), {"c": "on7", "tag": tag, "keep": keep})
        else:
            self.add("on %d %d" % (tag, keep), {"c": "on", "tag": tag, "keep": keep})

    def off(self, flag=0):
        self.add("off %d" % flag, {"c": "off", "flag": flag})

    def clr(self, tag):
        self.add("clr %d" % tag, {"c": "clr", "tag": tag})

    def ins(self, l):
        if l:
            self.add("ins %d" % len(l), {"c": "ins", "l": [dict(zip(("op", "r", "a", "b", "k", "c"), x)) for x in l]},
                     ["%s %d %d %d %d %s" % tuple(x) for x in l])

    def fwd(self, kind, tag, m, n, x, X=(), d=0, p=1, keep=0, parts=None):
        a = " ".join(x)
        b = " ".join(X)
        np_ = len(parts) if parts else keep
        line = "fwd %s %d %d %d %d %d %d %s %s" % (kind, tag, m, n, d, p, np_, a, b)
        if parts:
            line += " " + " ".join(map(str, parts))
        self.add(line, {"c": "fwd", "kind": kind, "tag": tag, "m": m, "n": n, "d": d, "p": p, "keep": keep, "x": list(x), "X": list(X)})

    def rev(self, kind, tag, m, n, d=0, q=1, u=()):
        self.add("rev %s %d %d %d %d %d %d %s" % (kind, tag, m, n, d, q, len(u), " ".join(u)),
                 {"c": "rev", "kind": kind, "tag": tag, "m": m, "n": n, "d": d, "q": q, "u": list(u)})

    def drv(self, kind, tag, m, n, x, q=0, v=(), u=()):
        # script order: see harness core.h
        order = {"lagra_hess_vec": list(v) + list(u), "vec_jac": list(u)}.get(kind.rstrip("_"), list(v))
        self.add("drv %s %d %d %d %d %s %s" % (kind, tag, m, n, q, " ".join(x), " ".join(order)),
                 {"c": "drv", "kind": kind, "tag": tag, "m": m, "n": n, "q": q, "x": list(x), "v": list(v), "u": list(u)})

    def setp(self, tag, v):
        self.add("setp %d %d %s" % (tag, len(v), " ".join(v)), {"c": "setp", "tag": tag, "v": list(v)})

    def tl(self, mode, l, m, n, x, X=(), d=1, p=1, rep=0):
        self.add("tl %d %s %d %d %d %d %d %s %s" % (len(l), mode, m, n, d, p, rep, " ".join(x), " ".join(X)),
                 {"c": "tl", "mode": mode, "m": m, "n": n, "d": d, "p": p, "rep": rep, "x": list(x), "X": list(X),
                  "l": [dict(zip(("op", "r", "a", "b", "k", "c"), i)) for i in l]},
                 ["%s %d %d %d %d %s" % tuple(i) for i in l])

    def call(self, name, args="", **ev):
        self.add("%s %s" % (name, args), dict({"c": name}, **ev))

    def script(self):
        return "\n".join(["case " + self.id] + self.lines) + "\n"


class HarnessError(Exception):
    pass


def run_harness(exe, cases, work, env=None, shards=NCPU, timeout=800):
    """Runs the cases; returns {id: [reported outputs] or error}"""
    work.mkdir(parents=True, exist_ok=True)
    (work / "script.txt").write_text("".join(c.script() for c in cases))
    e = dict(os.environ, OMP_NUM_THREADS="1", MALLOC_PERTURB_="165", **(env or {}))
    shards = max(1, min(shards, len(cases)))

    def go(i):
        wd = work / ("w%d" % i)
        wd.mkdir(exist_ok=True)
        out = work / ("out%d.txt" % i)
        out.write_text("")
        r = subprocess.run([str(exe), str(work / "script.txt"), str(out), str(wd), str(i), str(shards)],
                           env=e, capture_output=True, text=True, timeout=timeout)
        if r.returncode:
            raise HarnessError("harness exit %d: %s" % (r.returncode, r.stderr[-2000:]))
        return out

    with ThreadPoolExecutor(shards) as ex:
        outs = list(ex.map(go, range(shards)))
    res = {}
    for o in outs:
        cur = None
        for line in o.read_text(errors="replace").split("\n"):
            if line.startswith("case "):
                cur = []
                res[line[5:].strip()] = cur
            elif line.startswith("{"):
                try:
                    cur.append(json.loads(line))
                except ValueError:
                    pass  # a line cut short by a crash
            elif line.startswith("crash "):
                cur.append({"rc": -99, "err": "crash", "o": [], "k": [], "s": [line]})
            elif line.startswith("harness "):
                raise HarnessError("case %s: %s" % (list(res)[-1], line))
    for c in cases:
        if c.id not in res:
            raise HarnessError("no output for case " + c.id)
    return res


def merge(case, outs):
    ev = []
    for e, o in zip(case.ev, outs):
        ev.append(dict(e, **{"rc": o["rc"], "err": o["err"], "o": o["o"], "k": o["k"], "s": o["s"]}))
        if o["err"] == "crash":
            break
    else:
        if len(outs) > len(case.ev) and outs[len(case.ev)]["err"] == "crash":
            # died after the last call (e.g. while cleaning up)
            ev.append({"c": "exit", "rc": -99, "err": "crash", "o": [], "k": [], "s": []})
        elif len(outs) < len(case.ev):
            raise HarnessError("case %s: %d outputs for %d calls" % (case.id, len(outs), len(case.ev)))
    return {"id": case.id, "ev": ev}


class TLCError(Exception):
    pass


def tlc(module, cfg, env=None, workers=NCPU, timeout=850, extra=(), heap="6g", cwd=None):
    meta = Path(os.environ.get("TMPDIR", "/tmp")) / ("tlcmeta.%d.%d" % (os.getpid(), random.getrandbits(30)))
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % min(4, workers), "-cp",
           "%s:%s" % (java_dir(), JARS), "tlc2.TLC", "-workers", str(workers), "-metadir", str(meta),
           "-noGenerateSpecTE", "-config", cfg, *extra, module]
    try:
        r = subprocess.run(cmd, cwd=str(cwd or SPEC), env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


STAT_RE = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc_stats(out):
    m = STAT_RE.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def validate(merged, work, module="AdolcTrace", workers=NCPU, timeout=850):
    """Checks histories against the specification; returns (accepted, rejected, stats).
    A recorded history on which the specification cannot even be evaluated (results of the wrong
    shape, say) is not one of its behaviours: it is rejected as such, the others are decided."""
    work.mkdir(parents=True, exist_ok=True)
    tr = work / "trace.ndjson"
    acc, rej = {}, {}
    left = list(merged)
    gen = dist = 0
    for attempt in range(12):
        with open(tr, "w") as f:
            for m in left:
                f.write(json.dumps(m) + "\n")
        rc, txt = tlc(module + ".tla", module + ".cfg", env={"TRACE": str(tr)}, workers=workers, timeout=timeout)
        (work / "tlc.out").write_text(txt)
        # PrintT may wrap long tuples over several lines
        for m in re.finditer(r'<<\s*"ACCEPT",\s*"([^"]*)",\s*(\d+),\s*(\d+),\s*(\d+)\s*>>', txt):
            acc[m.group(1)] = (int(m.group(3)), int(m.group(4)))
        for m in re.finditer(r'<<\s*"REJECT",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)",(.*?)>>\s*>>', txt, re.S):
            rej[m.group(1)] = (int(m.group(2)), m.group(3), " ".join(m.group(4).split()))
        st = tlc_stats(txt)
        gen, dist = gen + st[0], dist + st[1]
        rest = [m for m in left if m["id"] not in acc and m["id"] not in rej]
        if rc == 0 and not rest:
            return acc, rej, (gen, dist)
        # the behaviour printed with an evaluation error names the history
        i = txt.rfind("The behavior up to this point is:")
        cs = re.findall(r"^/\\ c = (\d+)$", txt[i:] if i >= 0 else "", re.M)
        ls = re.findall(r"^/\\ l = (\d+)$", txt[i:] if i >= 0 else "", re.M)
        if rc in (75, 255, 150, 12, 1, 13) and cs and int(cs[-1]) <= len(left):
            m = left[int(cs[-1]) - 1]
            why = re.search(r"Attempted[^\n]*|[^\n]*xception[^\n]*", txt)
            l = int(ls[-1])
            rej[m["id"]] = (l, m["ev"][l - 1]["c"] if l <= len(m["ev"]) else "?", "not in the specification's domain: " + (why.group(0)[:200] if why else "evaluation error"))
            acc.pop(m["id"], None)
            left = [x for x in rest if x["id"] != m["id"]]
            if not left:
                return acc, rej, (gen, dist)
            continue
        raise TLCError("TLC exit %d, undecided histories %s\n%s" % (rc, [m["id"] for m in rest][:5], txt[-6000:]))
    return acc, rej, (gen, dist)

#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: build the harnesses from /repo's working tree, execute the
histories of the property, let TLC decide them against the specification, report.

exit 0: every explored history conforms (known findings are listed); 1: VIOLATION; 2: no answer."""
import json, os, random, shutil, sys, time, traceback, tempfile
from collections import Counter
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent))
import build as B
import mbv

VERIF = B.VERIF
KF = VERIF / "KNOWN_FINDINGS.txt"


def known_findings(pid):
    """lines 'known: property=<id> case=<history> why=<verdict prefix> :: <what fails>'"""
    out = {}
    if KF.exists():
        for line in KF.read_text().splitlines():
            if line.startswith("known: property=%s " % pid):
                head, _, desc = line.partition(" :: ")
                w = dict(x.split("=", 1) for x in head[7:].split(" ", 2))
                out[w["case"]] = (w["why"], desc)
    return out


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.work = Path(tempfile.mkdtemp(prefix="mbv-%s-" % pid, dir=os.environ.get("TMPDIR", "/tmp")))
        self.states = self.trans = self.valid = self.values = self.skipped = self.events = 0
        self.calls, self.ops = Counter(), Counter()
        self.samples, self.rejected, self.notes = [], [], []
        self.level_extra = {}
        self.ng = 0

    thorough = property(lambda s: s.tier == "thorough")

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def group(self, harness, cases, module="AdolcTrace", variant="", extra=(), libextra=None, env=None, det=True, chunk=1500, shards=8, name=None):
        """execute the cases with a harness program, validate with a trace specification"""
        if not cases:
            return
        exe = B.build([harness], extra=extra, variant=variant, libextra=libextra)[harness]
        for lo in range(0, len(cases), chunk):
            part = cases[lo:lo + chunk]
            self.ng += 1
            w = self.work / ("g%d" % self.ng)
            res = mbv.run_harness(exe, part, w, env=env, shards=shards)
            merged = [mbv.merge(c, res[c.id]) for c in part]
            acc, rej, st = mbv.validate(merged, w, module)
            self.states += st[1]
            self.trans += st[0]
            self.valid += len(acc)
            self.values += sum(a[0] for a in acc.values())
            self.skipped += sum(a[1] for a in acc.values())
            for m in merged:
                self.events += len(m["ev"])
                for e in m["ev"]:
                    self.calls[e["c"] + (":" + e["kind"] if "kind" in e else "")] += 1
                    for x in e.get("l", ()):
                        self.ops[x["op"]] += 1
            if part and len(self.samples) < 3:
                c = part[len(part) // 2]
                self.samples.append({"history": c.id, "specification": module, "script": c.lines[:60]})
            byid = {c.id: (c, m) for c, m in zip(part, merged)}
            how = dict(harness=harness, module=module, variant=variant, extra=list(extra), libextra=libextra and list(libextra), env=env)
            known = [cid for cid in rej if cid in self.kf]
            fresh = [cid for cid in rej if cid not in self.kf]
            again = {}
            if det and fresh:
                # rejected histories are executed and decided once more (the shortest ones)
                fresh = sorted(fresh, key=lambda cid: len(byid[cid][0].lines))[:max(0, 24 - len(self.rejected))]
                m2, left = {}, list(fresh)
                for attempt in range(int(det)):
                    # several threads running freely may need more than one attempt
                    if left:
                        r2 = mbv.run_harness(exe, [byid[cid][0] for cid in left], w / ("again%d" % attempt), env=env, shards=shards)
                        mm = {cid: mbv.merge(byid[cid][0], r2[cid]) for cid in left}
                        _, rj, _ = mbv.validate(list(mm.values()), w / ("again%d" % attempt), module)
                        m2.update(mm)
                        again.update(rj)
                        left = [cid for cid in left if cid not in again]
            for cid in known + fresh:
                c, m = byid[cid]
                why = rej[cid]
                if det and cid in fresh:
                    if cid not in again:
                        self.notes.append("history %s: rejection did not repeat" % cid)
                        continue
                    why, m = again[cid], m2[cid]
                self.rejected.append((c, m, why, how))
            shutil.rmtree(w, ignore_errors=True)

    def model(self, module, cfg=None, env=None, timeout=600, workers=8, extra=()):
        """exhaustive exploration of a model; any TLC error is an error of the specification"""
        rc, out = mbv.tlc(module + ".tla", (cfg or module) + ".cfg", env=env, timeout=timeout, workers=workers, extra=extra)
        st = mbv.tlc_stats(out)
        if rc != 0:
            raise mbv.TLCError("model %s/%s: TLC exit %d\n%s" % (module, cfg, rc, out[-3000:]))
        self.states += st[1]
        self.trans += st[0]
        self.level_extra.setdefault("models", []).append({"module": module, "config": cfg or module, "generated": st[0], "distinct": st[1]})
        return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import checks
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    ctx.kf = known_findings(pid)
    code = 0
    for old in (VERIF / "evidence" / "replay").glob(pid + "-*.json"):
        old.unlink()
    try:
        checks.CHECKS[pid](ctx)
        ed = VERIF / "evidence"
        ed.mkdir(exist_ok=True)
        viol = 0
        for c, m, why, how in ctx.rejected:
            text = "%s event %d (%s): %s" % (c.id, why[0], why[1], why[2])
            k = ctx.kf.get(c.id)
            if k and (why[1] + " " + why[2]).startswith(k[0].replace("~", " ")):
                print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
                continue
            viol += 1
            rp = ed / "replay" / ("%s-%s.json" % (pid, c.id))
            rp.parent.mkdir(exist_ok=True)
            rp.write_text(json.dumps(dict(property=pid, seed=seed, tier=tier, verdict=text, how=how, id=c.id, lines=c.lines, calls=c.ev, recorded=m["ev"])))
            if viol <= 10:
                print("history rejected by the specification: " + text[:600], flush=True)
                print("VIOLATION property=%s replay=%s" % (pid, rp))
        cov = {"states": ctx.states, "transitions": ctx.trans, "traces_validated_against_impl": ctx.valid,
               "events": ctx.events, "values_compared": ctx.values, "values_undetermined": ctx.skipped,
               "calls": dict(ctx.calls), "operations": dict(ctx.ops), "samples": ctx.samples or ["none"]}
        cov.update(ctx.level_extra)
        (ed / (pid + ".json")).write_text(json.dumps({
            "property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
            "assumptions": checks.ASSUMPTIONS + ctx.notes, "wall_s": round(time.time() - t0, 2), "violations": viol}, indent=1))
        print("%s %s: %d histories conform, %d rejected (%d reported), %d events, %d values compared (%d undetermined), TLC states %d, %.1f s"
              % (pid, tier, ctx.valid, len(ctx.rejected), viol, ctx.events, ctx.values, ctx.skipped, ctx.states, time.time() - t0))
        code = 1 if viol else 0
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        if not os.environ.get("MBV_KEEP"):
            shutil.rmtree(ctx.work, ignore_errors=True)
        else:
            print("work", ctx.work)
    sys.exit(code)


if __name__ == "__main__":
    main()

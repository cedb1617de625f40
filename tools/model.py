"""Exhaustive exploration of a small instance of the specification by TLC, and replay of every
transition of its state graph into the real library."""
import json, re
import mbv


def case_of(cid, calls):
    """script of a sequence of calls of the specification"""
    c = mbv.Case(cid)
    for e in calls:
        k = e["c"]
        if k == "new":
            c.new()
        elif k == "cur":
            c.cur(e["tag"])
        elif k == "on":
            c.on(e["tag"], e["keep"])
        elif k == "off":
            c.off(e["flag"])
        elif k == "clr":
            c.clr(e["tag"])
        elif k == "ins":
            c.ins([(x["op"], x["r"], x["a"], x["b"], x["k"], x["c"]) for x in e["l"]])
        elif k == "fwd":
            c.fwd(e["kind"], e["tag"], e["m"], e["n"], e["x"], e["X"], d=e["d"], p=e["p"], keep=e["keep"])
        elif k == "rev":
            c.rev(e["kind"], e["tag"], e["m"], e["n"], d=e["d"], q=e["q"], u=e["u"])
        elif k == "drv":
            c.drv(e["kind"], e["tag"], e["m"], e["n"], e["x"], q=e["q"], v=e["v"], u=e["u"])
        elif k == "setp":
            c.setp(e["tag"], e["v"])
        elif k in ("nparam",):
            c.call(k, str(e["tag"]), tag=e["tag"])
        elif k in ("curtag", "tags"):
            c.call(k)
        else:
            raise ValueError(k)
    return c


def paths(out):
    return [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^<<"PATH", "((?:[^"\\]|\\.)*)">>$', out, re.M)]


def explore(ctx, name, cfg, probe=True, limit=None):
    """TLC enumerates the model (checking its invariants); every transition becomes a history"""
    out = ctx.model("AdolcMC", cfg, workers=1)
    ps = paths(out)
    if not ps:
        raise mbv.TLCError("model %s produced no behaviours" % cfg)
    cases = []
    for i, p in enumerate(ps):
        c = case_of("%s%d" % (name, i), p)
        cases.append(c)
    ctx.level_extra.setdefault("transitions_replayed", {})[cfg] = len(cases)
    ctx.group("core", cases)
    return out

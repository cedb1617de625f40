"""The histories explored for each property, and which specification decides them."""
import random
import json
from fractions import Fraction
import gen, mbv, model
from gen import tok

ASSUMPTIONS = [
    "reals are represented in the specification's evaluation by doubles with running error bounds; values whose bound is too large are not compared",
    "library and harness are compiled with g++ -O1 and _GLIBCXX_ASSERTIONS from /repo's working tree; ColPack as installed",
]
CHECKS = {}
MC = "TLA+ specification; TLC explores all short call histories, each replayed into the library; TLC trace validation of random histories"
TECHNIQUE = {"P19": "TLA+ specification; TLC explores every interleaving of the calls of small threads, replayed into the library; TLC trace validation of histories of several threads, in given orders and running freely", "P05": MC, "P07": MC, "P20": MC}
NOTES = {"P19": "threads running freely are started call by call together; a rejected history is run up to eight times again before it is reported. The order within a call is not controlled.",
         "P05": "in addition every transition of the small protocol model (one tape, depth 6) is replayed.",
         "P07": "in addition every transition of the two-tape model (depth 7) is replayed.",
         "P20": "in addition every transition of the misuse model (depth 6) is replayed, followed by a probe of all tapes."}
NOT_APPLICABLE = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


# ---------------------------------------------------------------- building blocks
def num(rng, span=8, den=4):
    return tok(rng.choice(range(-span, span + 1)) / den)


def nums(rng, k, zero=0.1):
    return ["0.0" if rng.random() < zero else num(rng) for _ in range(k)]


class Prog:
    """a recorded program together with the points it is evaluated at"""

    def __init__(self, rng, W, n=None, m=None, size=None, npts=2, base=0, den=4, span=12, pts=None):
        self.n = n or rng.randrange(1, 4)
        self.m = m or rng.randrange(1, 4)
        if not pts and den == 4 and span == 12 and rng.random() < 0.15:
            den, span = 1, 1  # zeros and ones
        self.pts = pts or [[rng.choice(range(-span, span + 1)) / den + 0.0 for _ in range(self.n)] for _ in range(npts)]
        W = dict(W)
        g = gen.Gen(rng, self.pts, base)
        g.maxp = W.pop("maxp", 4)
        g.allow = W.pop("allow", None)
        g.slots = W.pop("slots", [])
        g.loopkinds = W.pop("loopkinds", g.loopkinds)
        g.maxdep = self.m - 1 if "early" in W or "misc" in W else 0
        if "param" in W:
            g.mkparam()
        lazy = 1 if "late" in W and self.n > 1 else 0
        for _ in range(self.n - lazy):
            g.ind()
        g.body(size or rng.randrange(3, 18), W)
        while g.ni < self.n:
            g.ind()
        if not g.v:
            g.ind()
        g.dependents(self.m - g.nd)
        self.ins = g.take()
        self.ptok = g.ptok
        self.g = g
        self.last = g.next

    def x(self, i):
        return [tok(v) for v in self.pts[i]]

    def params(self, i):
        return [t[i] for t in self.ptok]

    def record(self, c, tag, keep=0):
        c.on(tag, keep)
        c.ins(self.ins)
        c.off()


SMOOTH = dict(arith=5, unary=6, power=3, inplace=4, assign=2)
ALL = dict(arith=4, unary=4, power=2, inplace=3, assign=2, kink=1, cond=1, rounding=0.5, branch=1, vcopy=0.4, block=0.5, late=0.5, early=0.5)
BRANCHY = dict(arith=3, unary=1, inplace=2, assign=1, kink=5, cond=3, rounding=2, branch=3, vcopy=0.3, block=0.3)
VECTOR = dict(misc=0.5, arith=3, unary=1, assign=1, inplace=1, vector=10, vcond=2, cond=3, kink=0.5, late=0.3)
PARAM = dict(arith=2, unary=2, param=8, inplace=1, assign=0.5, branch=0.4, kink=0.5, power=0.5)
PARAMS = dict(PARAM, param=10, maxp=24)
EVERY = dict(arith=4, unary=4, power=2, inplace=3, assign=2, misc=0.7, kink=1, cond=1, rounding=0.5, branch=0.7, vcopy=0.4, block=0.5, late=0.5, early=0.5, param=2, vector=3, vcond=0.4)


def forward(c, rng, tag, P, pi, kinds, dmax=4, pmax=3, keep=None):
    """one forward sweep of a random kind; returns (degree kept or None, directions)"""
    m, n, xs = P.m, P.n, P.x(pi)
    kind = rng.choice([k for k in kinds if not (k == "f0m1" and m != 1)])
    d = rng.randrange(1, dmax + 1)
    p = rng.randrange(1, pmax + 1)
    if kind in ("zos", "fx0", "fxk"):
        k = rng.randrange(0, 2) if keep is None else min(keep, 1)
        c.fwd(kind, tag, m, n, xs, keep=k)
        return (k - 1, 1) if k else None
    if kind == "fos":
        k = rng.randrange(0, 3) if keep is None else min(keep, 2)
        c.fwd(kind, tag, m, n, xs, nums(rng, n), d=1, keep=k)
        return (k - 1, 1) if k else None
    if kind in ("hos", "f0", "f0m1"):
        k = rng.randrange(0, d + 2) if keep is None else d + 1
        c.fwd(kind, tag, m, n, xs, nums(rng, n * d), d=d, keep=k)
        return (k - 1, 1) if k else None
    if kind in ("fov", "ffov"):
        c.fwd(kind, tag, m, n, xs, nums(rng, n * p), d=1, p=p)
    elif kind == "fovoff":
        c.fwd(kind, tag, m, n, xs, nums(rng, n * p), d=1, p=p, keep=rng.randrange(0, 3))
    elif kind in ("hov", "fhov"):
        c.fwd(kind, tag, m, n, xs, nums(rng, n * p * d), d=d, p=p)
    elif kind == "hovwk":
        k = rng.randrange(0, d + 2) if keep is None else d + 1
        c.fwd(kind, tag, m, n, xs, nums(rng, n * p * d), d=d, p=p, keep=k)
        return (k - 1, p) if k else None
    else:
        parts = []
        left = n
        while left:
            q = rng.randrange(1, left + 1)
            parts.append(q)
            left -= q
        if kind == "pzos":
            c.fwd(kind, tag, m, n, xs, parts=parts)
        elif kind == "pfos":
            c.fwd(kind, tag, m, n, xs, nums(rng, n), d=1, parts=parts)
        elif kind == "phos":
            c.fwd(kind, tag, m, n, xs, nums(rng, n * d), d=d, parts=parts)
        elif kind == "pfov":
            c.fwd(kind, tag, m, n, xs, nums(rng, n * p), d=1, p=p, parts=parts)
        else:
            c.fwd(kind, tag, m, n, xs, nums(rng, n * p * d), d=d, p=p, parts=parts)
    return None


FWD = ["zos", "fx0", "fxk", "fos", "hos", "f0", "f0m1", "fov", "ffov", "fovoff", "hov", "fhov", "hovwk", "pzos", "pfos", "phos", "pfov", "phov"]
KEEPERS = ["zos", "fx0", "fxk", "fos", "hos", "f0", "f0m1", "hovwk"]
REV0 = ["fos", "r1", "r1s", "fov", "rf", "rf2", "rfs"]
REVH = ["hos", "r0", "r0s", "hosti", "hov", "rv", "rvs", "ri", "hovnz", "rvnz", "hovti", "hovtinz", "hosov"]


def reverse(c, rng, tag, P, kept, kinds=None, d=None):
    """a reverse sweep suited to what is kept (or of degree d regardless)"""
    m, n = P.m, P.n
    kd, kp = kept if kept else (d, 1)
    d = kd if d is None else d
    if kinds is None:
        kinds = REV0 if d == 0 else ["hosov"] if kp > 1 else REVH
    kind = rng.choice([k for k in kinds if not (k in ("r1s", "rfs", "r0s", "rvs") and m != 1)])
    q = rng.randrange(1, 4)
    if kind in ("fos", "r1", "r1s"):
        c.rev(kind, tag, m, n, d=0, u=nums(rng, m))
    elif kind in ("fov", "rf", "rf2", "rfs"):
        c.rev(kind, tag, m, n, d=0, q=q, u=nums(rng, q * m))
    elif kind in ("hos", "r0", "r0s"):
        c.rev(kind, tag, m, n, d=d, u=nums(rng, m))
    elif kind == "hosti":
        c.rev(kind, tag, m, n, d=d, u=nums(rng, m * (d + 1)))
    elif kind == "ri":
        c.rev(kind, tag, m, n, d=d, q=m, u=nums(rng, m * m))
    elif kind in ("hov", "rv", "rvs", "hovnz", "rvnz"):
        c.rev(kind, tag, m, n, d=d, q=q, u=nums(rng, q * m))
    elif kind in ("hovti", "hovtinz"):
        c.rev(kind, tag, m, n, d=d, q=q, u=nums(rng, q * m * (d + 1)))
    else:
        c.rev("hosov", tag, m, n, d=d, q=kp, u=nums(rng, m * (d + 1)))


DRV1 = ["function", "gradient", "jacobian", "large_jacobian", "vec_jac", "vec_jac1", "jac_vec", "hessian", "hessian2", "hess_vec", "hess_mat", "lagra_hess_vec"]
DRVM = ["function", "jacobian", "large_jacobian", "vec_jac", "vec_jac1", "jac_vec", "lagra_hess_vec"]


def driver(c, rng, tag, P, pi, kinds=None):
    m, n, xs = P.m, P.n, P.x(pi)
    kind = rng.choice(kinds or (DRV1 if m == 1 else DRVM))
    if kind == "large_jacobian":
        c.drv(kind, tag, m, n, xs, q=rng.randrange(0, n + 2))
    elif kind in ("vec_jac", "vec_jac1"):
        c.drv("vec_jac", tag, m, n, xs, q=0, u=nums(rng, m))
        if kind == "vec_jac1":
            c.drv("vec_jac", tag, m, n, xs, q=1, u=nums(rng, m))
    elif kind in ("jac_vec", "hess_vec"):
        c.drv(kind, tag, m, n, xs, v=nums(rng, n))
    elif kind == "hess_mat":
        q = rng.randrange(1, 4)
        c.drv(kind, tag, m, n, xs, q=q, v=nums(rng, n * q))
    elif kind == "lagra_hess_vec":
        c.drv(kind, tag, m, n, xs, v=nums(rng, n), u=nums(rng, m))
    else:
        c.drv(kind, tag, m, n, xs)


# ---------------------------------------------------------------- P01
@check("P01")
def p01(ctx):
    rng, cases = ctx.rng, []
    for i in range(ctx.scale(700, 6000)):
        P = Prog(rng, rng.choice([SMOOTH, SMOOTH, ALL, EVERY]), size=rng.randrange(1, 20))
        c = mbv.Case("fwd%d" % i)
        c.new()
        P.record(c, 0)
        for pi in range(len(P.pts)):
            if P.ptok:
                c.setp(0, P.params(pi))
            for _ in range(5):
                forward(c, rng, 0, P, pi, FWD, dmax=5)
        cases.append(c)
    ctx.group("core", cases)


# ---------------------------------------------------------------- P02
@check("P02")
def p02(ctx):
    rng, cases = ctx.rng, []
    for i in range(ctx.scale(700, 6000)):
        P = Prog(rng, rng.choice([SMOOTH, SMOOTH, ALL, EVERY]), size=rng.randrange(1, 20), npts=2)
        c = mbv.Case("rev%d" % i)
        c.new()
        keep = rng.random() < 0.2
        P.record(c, 0, 1 if keep else 0)
        if keep:
            reverse(c, rng, 0, P, (0, 1))
        for pi in range(len(P.pts)):
            if P.ptok:
                c.setp(0, P.params(pi))
            for _ in range(3):
                k = forward(c, rng, 0, P, pi, KEEPERS, dmax=4, keep=9 if rng.random() < 0.8 else 1)
                if k:
                    for _ in range(rng.randrange(1, 3)):
                        reverse(c, rng, 0, P, k)
        cases.append(c)
    ctx.group("core", cases)


# ---------------------------------------------------------------- P03
@check("P03")
def p03(ctx):
    rng, cases = ctx.rng, []
    for i in range(ctx.scale(600, 5000)):
        nt = rng.randrange(1, 3)
        Ps = [Prog(rng, rng.choice([SMOOTH, ALL, EVERY]), n=rng.randrange(1, 7), m=rng.choice([1, 1, 2, 3, 5]), size=rng.randrange(2, 16), npts=3) for _ in range(nt)]
        c = mbv.Case("drv%d" % i)
        for t, P in enumerate(Ps):
            c.new()
        for t, P in enumerate(Ps):
            P.record(c, t, rng.choice([0, 0, 1]))
        for _ in range(rng.randrange(4, 9)):
            t = rng.randrange(nt)
            P = Ps[t]
            pi = rng.randrange(len(P.pts))
            if P.ptok:
                c.setp(t, P.params(pi))
            driver(c, rng, t, P, pi)
        cases.append(c)
    ctx.group("core", cases)


# ---------------------------------------------------------------- P04
@check("P04")
def p04(ctx):
    rng, cases = ctx.rng, []
    for i in range(ctx.scale(700, 6000)):
        # a coarse grid makes ties and branch switches frequent
        P = Prog(rng, rng.choice([BRANCHY, BRANCHY, ALL, EVERY]), npts=4, den=rng.choice([1, 2, 4]), span=rng.choice([2, 4, 8]), size=rng.randrange(2, 16))
        c = mbv.Case("ret%d" % i)
        c.new()
        mm = rng.random() < 0.2
        if mm:
            c.call("minmax", "0 1", tag=0, flag=True)
        P.record(c, 0)
        for pi in range(len(P.pts)):
            if P.ptok:
                c.setp(0, P.params(pi))
            forward(c, rng, 0, P, pi, ["zos", "fx0"])
            k = forward(c, rng, 0, P, pi, FWD, dmax=3)
            if k:
                reverse(c, rng, 0, P, k)
            driver(c, rng, 0, P, pi)
        cases.append(c)
    ctx.group("core", cases)


# ---------------------------------------------------------------- P05
def any_keep(c, rng, t, P, pi):
    """a forward sweep with any degree, number of directions and keep"""
    return forward(c, rng, t, P, pi, rng.choice([KEEPERS, KEEPERS, FWD]), dmax=3, pmax=3, keep=9 if rng.random() < 0.5 else None)


def any_reverse(c, rng, t, P, kept):
    if kept and rng.random() < 0.6:
        reverse(c, rng, t, P, kept)
    else:
        d = rng.choice([0, 0, 1, 2, 3])
        reverse(c, rng, t, P, (d, rng.choice([1, 1, 2, 3])), d=d, kinds=REV0 if d == 0 else REVH)


@check("P05")
def p05(ctx):
    model.explore(ctx, "Kept", ctx.scale("KeptQ", "KeptT"))
    rng, cases = ctx.rng, []
    for i in range(ctx.scale(500, 5000)):
        c = mbv.Case("kept%d" % i)
        nt = rng.randrange(1, 3)
        Ps = [Prog(rng, rng.choice([SMOOTH, ALL]), n=rng.randrange(1, 4), m=rng.randrange(1, 3), size=rng.randrange(2, 9)) for _ in range(nt)]
        for _ in Ps:
            c.new()
        kept = [None] * nt
        for t, P in enumerate(Ps):
            k = rng.randrange(0, 2)
            P.record(c, t, k)
            kept[t] = (0, 1) if k else None
        for _ in range(rng.randrange(4, 12)):
            t = rng.randrange(nt)
            P = Ps[t]
            w = rng.random()
            if w < 0.4:
                k = any_keep(c, rng, t, P, rng.randrange(len(P.pts)))
                kept[t] = k or kept[t]
            elif w < 0.9:
                any_reverse(c, rng, t, P, kept[t])
            elif w < 0.95:
                driver(c, rng, t, P, rng.randrange(len(P.pts)))
            else:
                c.setp(t, P.params(0))
        cases.append(c)
    ctx.group("core", cases)


# ---------------------------------------------------------------- P06
SIZES = ([3, 4, 5, 8, 20], [60, 61, 64, 70, 100], [7, 8, 9, 16], [1, 2, 3, 5, 8, 13])


CSIZES = ([20, 31, 32, 33, 64, 70], [60, 61, 64, 70, 100], [7, 8, 9, 16], [1, 2, 3, 4, 5, 8, 13])


def paged(rng, c, W, nrec, dmax, size, nt=None, sizes=SIZES):
    """recordings with small buffers, by .adolcrc and by trace_on, evaluated every way"""
    if rng.random() < 0.5:
        c.call("rcfile", " ".join(str(rng.choice(s)) for s in sizes))
    nt = nt or rng.randrange(1, 3)
    for _ in range(nt):
        c.new()
    base = 0
    for _ in range(nrec):
        t = rng.randrange(nt)
        P = Prog(rng, rng.choice(W), size=rng.randrange(*size), base=base)
        base = P.last
        keep = 1 if rng.random() < 0.4 else 0
        bufs = [rng.choice(s + [1000]) for s in sizes] if rng.random() < 0.5 else None
        c.on(t, keep, bufs)
        c.ins(P.ins)
        c.off(rng.choice([0, 0, 1]))
        if keep:
            reverse(c, rng, t, P, (0, 1))
        for pi in range(2):
            if P.ptok:
                c.setp(t, P.params(pi))
            for _ in range(3):
                k = forward(c, rng, t, P, pi, FWD, dmax=dmax)
                if k:
                    reverse(c, rng, t, P, k)
            driver(c, rng, t, P, pi)


@check("P06")
def p06(ctx):
    rng, cases = ctx.rng, []
    for i in range(ctx.scale(500, 4000)):
        c = mbv.Case("page%d" % i)
        paged(rng, c, [SMOOTH, ALL, EVERY, PARAMS], rng.randrange(1, 4), 3, (4, 40))
        cases.append(c)
    # long programs: many blocks of every buffer, one or two sweeps each
    for i in range(ctx.scale(60, 400)):
        c = mbv.Case("long%d" % i)
        if rng.random() < 0.5:
            c.call("rcfile", " ".join(str(rng.choice(s)) for s in SIZES))
        c.new()
        P = Prog(rng, rng.choice([SMOOTH, ALL, PARAMS]), size=rng.randrange(100, 250))
        keep = rng.randrange(2)
        c.on(0, keep, [rng.choice(s) for s in SIZES])
        c.ins(P.ins)
        c.off(rng.randrange(2))
        if keep:
            reverse(c, rng, 0, P, (0, 1))
        k = forward(c, rng, 0, P, 1, KEEPERS, dmax=3, keep=9)
        if k:
            reverse(c, rng, 0, P, k)
        driver(c, rng, 0, P, 0)
        cases.append(c)
    ctx.group("core", cases)
    # the same with blocks transferred in several chunks
    cases = []
    for i in range(ctx.scale(150, 2000)):
        c = mbv.Case("chunk%d" % i)
        paged(rng, c, [SMOOTH, ALL, EVERY, PARAMS], rng.randrange(1, 4), 3, (15, 60), sizes=CSIZES)
        cases.append(c)
    ctx.group("core", cases, variant="chunk")


# ---------------------------------------------------------------- P07
def chunks(rng, ins, k):
    """cut a program into consecutive pieces, not inside the body of a branch"""
    ok, skip = [], 0
    for i, x in enumerate(ins):
        if skip <= 0 and i:
            ok.append(i)
        skip -= 1
        if x[0] in ("br", "brc", "cbr", "brp", "pbr"):
            skip = max(skip, int(x[1]))
    cut = sorted(rng.sample(ok, min(k, len(ok)))) if ok else []
    cut = [0] + cut + [len(ins)]
    return [ins[a:b] for a, b in zip(cut, cut[1:])]


@check("P07")
def p07(ctx):
    model.explore(ctx, "Tapes", ctx.scale("TapesQ", "TapesT"))
    rng, cases = ctx.rng, []
    for i in range(ctx.scale(350, 3500)):
        c = mbv.Case("tapes%d" % i)
        nt = rng.randrange(2, 5)
        for _ in range(nt):
            c.new()
        base = [0] * nt
        done = [None] * nt          # last recorded program
        kept = [None] * nt
        stack = []                  # suspended recordings (tape, program, rest, keep)
        for _ in range(rng.randrange(10, 26)):
            w = rng.random()
            if stack and w < 0.35:  # continue the innermost recording
                t, P, rest, keep = stack[-1]
                if rest:
                    c.ins(rest.pop(0))
                else:
                    c.off(rng.choice([0, 0, 1]))
                    stack.pop()
                    done[t], kept[t] = P, (0, 1) if keep else None
            elif w < 0.55 and len(stack) < 3:
                t = rng.choice([x for x in range(nt) if x not in [s[0] for s in stack]] or [None])
                if t is None:
                    continue
                P = Prog(rng, rng.choice([SMOOTH, ALL, EVERY]), size=rng.randrange(2, 12), base=base[t])
                base[t] = P.last
                keep = rng.randrange(2)
                c.on(t, keep, [rng.choice(s + [1000]) for s in SIZES] if rng.random() < 0.15 else None)
                stack.append((t, P, chunks(rng, P.ins, rng.randrange(0, 3)), keep))
                done[t] = None
            else:
                ts = [t for t in range(nt) if done[t]]
                if not ts:
                    continue
                t = rng.choice(ts)
                P = done[t]
                pi = rng.randrange(len(P.pts))
                if P.ptok and rng.random() < 0.5:
                    c.setp(t, P.params(pi))
                    kept[t] = None
                if kept[t] and rng.random() < 0.5:
                    reverse(c, rng, t, P, kept[t])
                elif rng.random() < 0.3:
                    driver(c, rng, t, P, pi)
                    kept[t] = None
                else:
                    kept[t] = forward(c, rng, t, P, pi, rng.choice([KEEPERS, FWD]), dmax=3) or kept[t]
            if rng.random() < 0.05:
                c.call("tags")
        while stack:
            t, P, rest, keep = stack.pop()
            for r in rest:
                c.ins(r)
            c.off()
            done[t] = P
        for t in range(nt):
            if done[t]:
                P = done[t]
                k = forward(c, rng, t, P, 0, ["zos", "hos"], keep=9, dmax=2)
                reverse(c, rng, t, P, k)
        cases.append(c)
    ctx.group("core", cases)


# ---------------------------------------------------------------- P09
@check("P09")
def p09(ctx):
    rng, cases = ctx.rng, []
    for i in range(ctx.scale(450, 4500)):
        P = Prog(rng, rng.choice([PARAM, PARAM, PARAMS, dict(PARAM, branch=1, cond=1, vector=2)]), size=rng.randrange(3, 18), npts=3)
        c = mbv.Case("par%d" % i)
        if rng.random() < 0.3:
            c.call("rcfile", " ".join(str(rng.choice(s)) for s in SIZES))
        c.new()
        keep = rng.randrange(2)
        P.record(c, 0, keep)
        c.call("nparam", "0", tag=0)
        if keep:
            reverse(c, rng, 0, P, (0, 1))
        for pi in rng.sample(range(3), 3):
            if rng.random() < 0.85:
                c.setp(0, P.params(pi))
            # parameters persist over several evaluations
            for _ in range(2):
                k = forward(c, rng, 0, P, pi, FWD, dmax=3)
                if k:
                    reverse(c, rng, 0, P, k)
            driver(c, rng, 0, P, pi)
        cases.append(c)
    ctx.group("core", cases)


# ---------------------------------------------------------------- P15
FIRST = {"new", "ind", "dep", "neg", "pos", "add", "sub", "mul", "div", "addc", "subc", "mulc", "divc", "cadd", "csub", "cmul", "cdiv",
         "eqa", "eqs", "eqm", "eqd", "eqac", "eqsc", "eqmc", "eqdc", "eqp", "eqmp", "incpre", "decpre", "incpost", "decpost",
         "asg", "asgc", "copy", "newc", "kill", "move", "exp", "log", "sqrt", "sin", "cos", "sinh", "cosh", "powc", "cpow", "fabs", "ldexp",
         "erfs", "erfcs", "cond", "cond2", "condeq", "condeq2", "br", "brc", "cbr"}
HOV = FIRST | {"ldexpr", "cldexp", "frexp"}
TLALL = HOV | {"strio", "tan", "asin", "acos", "atan", "tanh", "asinh", "acosh", "atanh", "cbrt", "log10s", "pow", "atan2", "ceil", "floor",
               "fmin", "fmax", "fminc", "cfmin", "fmaxc", "cfmax"}
TLW = dict(arith=4, unary=5, power=3, inplace=3, assign=2, kink=1.5, cond=1, rounding=0.5, branch=1, late=0.5, early=0.5, scaling=0.5, misc=0.7)
TLS = dict(arith=4, unary=4, power=2, inplace=3, assign=2, scaling=0.4)


def at_point(P, pi):
    """the program with the point it is executed at written into it"""
    out, k = [], 0
    for i in P.ins:
        if i[0] == "ind":
            i = i[:5] + (P.x(pi)[k],)
            k += 1
        out.append(i)
    return out


def unprinted(l):
    """where printing keeps the value only"""
    return [("copy",) + i[1:] if i[0] == "strio" else i for i in l]


@check("P15")
def p15(ctx):
    rng, low, high = ctx.rng, [], []
    for i in range(ctx.scale(500, 5000)):
        c = mbv.Case("tl%d" % i)
        for _ in range(2):
            coarse = rng.random() < 0.4
            P = Prog(rng, dict(TLW, allow=TLALL), n=rng.randrange(1, 6), size=rng.randrange(1, 20), npts=3, **(dict(den=rng.choice([1, 2]), span=4) if coarse else {}))
            for pi in range(3):
                l, p = at_point(P, pi), rng.randrange(1, 5)
                c.tl("vec", l, P.m, P.n, P.x(pi), nums(rng, P.n * p), p=p)
                c.tl("pat", unprinted(l), P.m, P.n, P.x(pi), rep=rng.choice([0, 0, 1, 7]))
                if rng.random() < 0.4:
                    c.tl("jac", unprinted(l), P.m, P.n, P.x(pi))
        low.append(c)
    for i in range(ctx.scale(150, 1500)):
        # smooth programs with a sparse structure: the pattern is found once and used again
        c = mbv.Case("tlj%d" % i)
        for _ in range(2):
            P = Prog(rng, dict(TLS, allow=TLALL), n=rng.randrange(1, 12), m=rng.randrange(1, 8), size=rng.randrange(1, 20), npts=3)
            for pi in range(3):
                c.tl("jac", at_point(P, pi), P.m, P.n, P.x(pi), rep=min(pi, 1))
        low.append(c)
    ctx.group("tl", low)
    for i in range(ctx.scale(400, 4000)):
        c = mbv.Case("tlh%d" % i)
        for _ in range(2):
            coarse = rng.random() < 0.3
            P = Prog(rng, dict(TLW, allow=HOV), n=rng.randrange(1, 5), size=rng.randrange(1, 18), npts=2, **(dict(den=rng.choice([1, 2]), span=4) if coarse else {}))
            for pi in range(2):
                p, d = rng.randrange(1, 4), rng.randrange(1, 5)
                c.tl("hov", at_point(P, pi), P.m, P.n, P.x(pi), nums(rng, P.n * p * d), p=p, d=d)
        high.append(c)
    ctx.group("tlh", high)


# ---------------------------------------------------------------- P13
SPW = dict(arith=5, unary=3, power=1, inplace=3, assign=2, kink=1, cond=1, rounding=0.3, branch=0.5, vcopy=0.4, block=0.5, late=0.3, param=0.5)


def wide(rng, n, m, size):
    """a program of many independents, each used by few operations"""
    return Prog(rng, dict(arith=6, unary=2, inplace=3, assign=1, kink=0.3, cond=0.4), n=n, m=m, size=size, npts=2)


def jacpat(c, rng, tag, P, pi, capi=None, sm=None, cfm=None):
    sm = rng.randrange(2) if sm is None else sm
    cfm = rng.randrange(2) if cfm is None else cfm
    dr = rng.randrange(3)
    nox = int(cfm == 0 and rng.random() < 0.3)
    capi = rng.randrange(2) if capi is None else capi
    x = P.x(pi)
    c.call("jp", "%d %d %d %d %d %d %d %d %s" % (capi, tag, P.m, P.n, sm, cfm, dr, nox, " ".join(x)),
           tag=tag, m=P.m, n=P.n, sm=sm, cfm=cfm, dir=dr, nox=bool(nox), x=x)


def hesspat(c, rng, tag, P, pi, cfm=None):
    cfm = rng.randrange(4) if cfm is None else cfm
    nox = int(cfm in (0, 2) and rng.random() < 0.3)
    x = P.x(pi)
    c.call("hp", "%d %d %d %d %d %s" % (rng.randrange(2), tag, P.n, cfm, nox, " ".join(x)), tag=tag, m=1, n=P.n, cfm=cfm, nox=bool(nox), x=x)


def sparsejac(c, rng, tag, P, pi, rep, opt, mem=-1):
    sm, cfm, dr, cm, capi = opt
    x = P.x(pi)
    c.call("sj", "%d %d %d %d %d %d %d %d %d %d %s" % (capi, tag, P.m, P.n, rep, sm, cfm, dr, cm, mem, " ".join(x)),
           capi=capi, tag=tag, m=P.m, n=P.n, rep=rep, sm=sm, cfm=cfm, dir=dr, cm=cm, mem=mem, x=x)


def sparsehess(c, rng, tag, P, pi, rep, opt, mem=-1):
    cfm, rcm, capi = opt
    x = P.x(pi)
    c.call("sh", "%d %d %d %d %d %d %d %s" % (capi, tag, P.n, rep, cfm, rcm, mem, " ".join(x)),
           tag=tag, m=1, n=P.n, rep=rep, cfm=cfm, mem=mem, x=x)


def bits(c, rng, tag, P, pi):
    kind = rng.choice("fr")
    tight, p = rng.randrange(2), rng.choice([1, 1, 2, 3])
    k = P.n if kind == "f" else P.m
    sets = [sorted(rng.sample(range(32 * p), rng.randrange(0, 4))) for _ in range(k)]
    x = P.x(pi)
    via = rng.choice([0, 0, 1, 1, 2, 3 if rng.random() < 0.1 else 1])  # also the interface that selects the mode at run time
    if via == 2 and (tight or kind == "r"):
        via = 1
    c.call("bits", "%s %d %d %d %d %d %d %s %s" % (kind, tag, P.m, P.n, p, tight, via, " ".join(x), " ".join("%d %s" % (len(b), " ".join(map(str, b))) for b in sets)),
           kind=kind, tag=tag, m=P.m, n=P.n, p=p, tight=tight, via=via, x=x, b=sets)


@check("P13")
def p13(ctx):
    rng, small, large = ctx.rng, [], []
    for i in range(ctx.scale(280, 4500)):
        c = mbv.Case("sp%d" % i)
        c.new()
        c.new()
        coarse = rng.random() < 0.3
        PS = []
        for tag in range(2):
            hess = rng.random() < 0.5
            P = Prog(rng, rng.choice([SPW] * 7 + [EVERY, VECTOR, VECTOR]), n=rng.randrange(1, 7), m=1 if hess else rng.randrange(1, 7), size=rng.randrange(1, 22), npts=3, base=1000 * tag,
                     **(dict(den=rng.choice([1, 2]), span=4) if coarse else {}))
            P.record(c, tag)
            PS.append(P)
        oj, oh = {}, {}
        compress, recover = [rng.randrange(2) for _ in PS], [rng.randrange(2) for _ in PS]
        for _ in range(rng.randrange(5, 12)):
            tag = rng.randrange(2)
            P, pi = PS[tag], rng.randrange(3)
            w = rng.choice(["jp", "sj", "sj", "bits", "rep"] + (["hp", "sh", "sh"] if P.m == 1 else []))
            if w == "jp":
                jacpat(c, rng, tag, P, pi)
                if rng.random() < 0.3:
                    o, capi = rng.randrange(2), rng.randrange(2)
                    c.call("seedj", "%d %d" % (capi, o), m=P.m, n=P.n, opt=o)
            elif w == "hp":
                hesspat(c, rng, tag, P, pi)
                if rng.random() < 0.3:
                    o, capi = rng.randrange(2), rng.randrange(2)
                    c.call("seedh", "%d %d" % (capi, o), n=P.n, opt=o)
            elif w == "bits":
                bits(c, rng, tag, P, pi)
            elif w == "sj" or (w == "rep" and P.m > 1):
                rep = int(w == "rep" or rng.random() < 0.3)
                if not rep or tag not in oj:
                    oj[tag] = (rng.randrange(2), rng.randrange(2), rng.randrange(3), compress[tag], rng.randrange(2))
                sparsejac(c, rng, tag, P, pi, rep, oj[tag], mem=rng.choice([-1, -1, -1, -1, rng.randrange(0, 8)]))
            else:
                rep = int(w == "rep" or rng.random() < 0.3)
                if not rep or tag not in oh:
                    oh[tag] = (rng.randrange(4), recover[tag], rng.randrange(2))
                sparsehess(c, rng, tag, P, pi, rep, oh[tag], mem=rng.randrange(0, 8) if rep and rng.random() < 0.15 else -1)
        small.append(c)
    for i in range(ctx.scale(110, 1500)):
        # elements of vectors selected by variables, at points that select others
        c = mbv.Case("spv%d" % i)
        c.new()
        P = Prog(rng, rng.choice([VECTOR, dict(VECTOR, kink=2), dict(VECTOR, vcond=6), dict(VECTOR, vcond=6, branch=1)]), n=rng.randrange(1, 5), m=rng.choice([1, 1, 2, 3]), size=rng.randrange(4, 20), npts=4,
                 den=rng.choice([1, 2, 4]), span=rng.choice([3, 4, 8]))
        P.record(c, 0)
        oj = oh = None
        for _ in range(rng.randrange(4, 9)):
            pi = rng.randrange(4)
            w = rng.choice(["jp", "jp", "sj", "bits"] + (["hp", "sh", "hp"] if P.m == 1 else []))
            if w == "jp":
                jacpat(c, rng, 0, P, pi, cfm=1)
            elif w == "hp":
                hesspat(c, rng, 0, P, pi, cfm=rng.choice([1, 1, 3]))
            elif w == "bits":
                bits(c, rng, 0, P, pi)
            elif w == "sj":
                rep = int(oj is not None and rng.random() < 0.3)
                oj = oj if rep else (rng.randrange(2), 1, rng.randrange(3), rng.randrange(2), rng.randrange(2))
                sparsejac(c, rng, 0, P, pi, rep, oj)
            else:
                rep = int(oh is not None and rng.random() < 0.3)
                oh = oh if rep else (rng.choice([1, 3]), rng.randrange(2), rng.randrange(2))
                sparsehess(c, rng, 0, P, pi, rep, oh)
        small.append(c)
    ctx.group("sparse", small)
    for i in range(ctx.scale(36, 600)):
        # around the boundaries of the words of bits
        c = mbv.Case("spw%d" % i)
        c.new()
        n, m = rng.choice([(33, 3), (32, 40), (31, 2), (64, 5), (65, 3), (5, 33), (3, 65), (40, 32), (70, 1), (96, 2), (97, 4), (34, 34)])
        P = wide(rng, n, m, rng.randrange(20, 60))
        P.record(c, 0)
        for _ in range(4):
            jacpat(c, rng, 0, P, rng.randrange(2), sm=rng.choice([0, 1, 1]))
        bits(c, rng, 0, P, rng.randrange(2))
        o = (rng.randrange(2), rng.randrange(2), rng.randrange(3), rng.randrange(2), rng.randrange(2))
        sparsejac(c, rng, 0, P, 0, 0, o)
        sparsejac(c, rng, 0, P, 1, 1, o)
        large.append(c)
    ctx.group("sparse", large)
    # the same with strips of one word
    ctx.group("sparse", large[:len(large) // 2], variant="strip")


# ---------------------------------------------------------------- P17
@check("P17")
def p17(ctx):
    rng, cases = ctx.rng, []
    for i in range(ctx.scale(450, 4500)):
        P = Prog(rng, rng.choice([VECTOR, VECTOR, dict(VECTOR, param=2), dict(cond=8, arith=3, assign=2, unary=1)]), npts=4,
                 den=rng.choice([1, 2, 4]), span=rng.choice([3, 4, 8]), size=rng.randrange(3, 18))
        c = mbv.Case("vec%d" % i)
        c.new()
        P.record(c, 0)
        for pi in range(len(P.pts)):
            if P.ptok:
                c.setp(0, P.params(pi))
            for _ in range(2):
                k = forward(c, rng, 0, P, pi, FWD, dmax=3)
                if k:
                    reverse(c, rng, 0, P, k)
            driver(c, rng, 0, P, pi)
        cases.append(c)
    ctx.group("core", cases)


# ---------------------------------------------------------------- P20
def misuse(c, rng, t, P, nt):
    """one call that violates a precondition (or happens not to)"""
    m, n, xs = P.m, P.n, P.x(0)
    w = rng.randrange(9)
    if w == 0:
        t = rng.choice([nt, nt + 3, 99, -1])
        rng.choice([lambda: c.on(t), lambda: c.cur(t), lambda: c.fwd("zos", t, m, n, xs), lambda: c.drv("gradient" if m == 1 else "function", t, m, n, xs),
                    lambda: c.setp(t, ["1.0"]), lambda: c.rev("fos", t, m, n, u=nums(rng, m)), lambda: c.call("nparam", str(t), tag=t)])()
    elif w == 1:
        dm, dn = rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1)])
        if m + dm < 1 or n + dn < 1:
            dm, dn = 1, 1
        Q = type("Q", (), {})()
        Q.m, Q.n, Q.x = m + dm, n + dn, lambda i: (xs + ["1.0"])[:n + dn]
        rng.choice([lambda: forward(c, rng, t, Q, 0, FWD), lambda: reverse(c, rng, t, Q, (0, 1)), lambda: driver(c, rng, t, Q, 0)])()
    elif w == 2:
        c.fwd("zos", t, m, n, xs, keep=rng.choice([2, 3, -1]))
    elif w == 3:
        c.fwd("fos", t, m, n, xs, nums(rng, n), d=1, keep=rng.choice([3, 4, -1]))
    elif w == 4:
        d = rng.randrange(1, 4)
        c.fwd("hos", t, m, n, xs, nums(rng, n * d), d=d, keep=rng.choice([d + 2, d + 3, -1]))
    elif w == 5:
        c.on(t, rng.randrange(2))
        c.on(t, 0, [rng.choice([8, 1000]), 100, 20, 20] if rng.random() < 0.3 else None)
        rng.choice([lambda: forward(c, rng, t, P, 0, FWD), lambda: reverse(c, rng, t, P, (0, 1)), lambda: driver(c, rng, t, P, 0), lambda: c.setp(t, ["1.0"])])()
        return "rec"
    elif w == 6:
        c.setp(t, nums(rng, len(P.ptok) + rng.choice([1, 2, -1]) if P.ptok else 1))
    elif w == 7:
        c.off()
    else:
        d = rng.randrange(0, 4)
        reverse(c, rng, t, P, (d, 1), d=d, kinds=REV0 if d == 0 else REVH)


@check("P20")
def p20(ctx):
    model.explore(ctx, "Misuse", ctx.scale("MisuseQ", "MisuseT"))
    rng, cases = ctx.rng, []
    for i in range(ctx.scale(350, 3500)):
        c = mbv.Case("mis%d" % i)
        if rng.random() < 0.2:
            c.call("rcfile", " ".join(str(rng.choice(s)) for s in SIZES))
        nt = rng.randrange(1, 3)
        Ps = [Prog(rng, rng.choice([SMOOTH, ALL, EVERY]), n=rng.randrange(1, 4), m=rng.randrange(1, 3), size=rng.randrange(2, 10)) for _ in range(nt)]
        for _ in Ps:
            c.new()
        for t, P in enumerate(Ps):
            P.record(c, t, rng.randrange(2))
        for _ in range(rng.randrange(2, 6)):
            t = rng.randrange(nt)
            if misuse(c, rng, t, Ps[t], nt) == "rec":
                P = Ps[t] = Prog(rng, SMOOTH, size=5, base=Ps[t].last)
                c.ins(P.ins)
                c.off()
            for t, P in enumerate(Ps):
                pi = rng.randrange(2)
                if P.ptok:
                    c.setp(t, P.params(pi))
                k = forward(c, rng, t, P, pi, ["zos", "hos", "hovwk"], keep=9, dmax=2)
                reverse(c, rng, t, P, k)
        cases.append(c)
    ctx.group("core", cases)


# ---------------------------------------------------------------- P18
CALLOW = (FIRST - {"cpow", "cond", "cond2", "condeq", "condeq2", "eqp", "eqmp", "incpost", "decpost"}) | {
    "tan", "asin", "acos", "atan", "tanh", "asinh", "acosh", "atanh", "log10s", "pow", "ceil", "floor", "val",
    "fmin", "fmax", "fminc", "cfmin", "fmaxc", "cfmax", "mkp", "newp"}
CW = dict(arith=5, unary=6, power=2, inplace=4, assign=2, kink=2, rounding=0.6, branch=1.2, late=0.4, early=0.4, scaling=0.4, cparam=0.4)
CFWD = {"f0": ["forward1"], "f0m1": ["forward2"], "fx0": ["forward3"], "fxk": ["forward4"], "fhov": ["forward5"], "ffov": ["forward6"],
        "zos": ["zos_"], "hos": ["hos_"], "fov": ["fov_"], "hov": ["hov_"]}
CREV = {"r0": ["reverse1"], "r0s": ["reverse2"], "r1": ["reverse3"], "r1s": ["reverse4"], "rv": ["reverse5"], "rvs": ["reverse6"], "rf": ["reverse7"],
        "rf2": ["reverse8"], "rfs": ["reverse9"], "ri": ["reverse10"], "fos": ["fos_"], "hos": ["hos_"], "hosti": ["hosti_"], "fov": ["fov_"],
        "hov": ["hov_"], "hovti": ["hovti_"]}
CDRV = ["function", "gradient", "jacobian", "vec_jac", "jac_vec", "hessian", "hess_vec", "lagra_hess_vec"]


class CCase(mbv.Case):
    """calls the C entry points"""
    rng = None

    def name(self, kind, table):
        return self.rng.choice(table[kind]) if kind in table and self.rng.random() < 0.85 else kind

    def fwd(self, kind, *a, **k):
        super().fwd(self.name(kind, CFWD), *a, **k)

    def rev(self, kind, *a, **k):
        super().rev(self.name(kind, CREV), *a, **k)

    def drv(self, kind, *a, **k):
        super().drv(kind + "_" if kind in CDRV and self.rng.random() < 0.6 else kind, *a, **k)

    def ins(self, l):
        r = self.rng
        out = []
        for i in l:
            if i[0] == "asgc":
                i = i[:4] + (r.randrange(2),) + i[5:]
            elif i[0] == "kill":  # possibly with another (or the same) tape current
                i = i[:2] + (r.choice(self.others),) + i[3:4] + (r.randrange(2),) + i[5:]
            out.append(i)
        super().ins(out)


CF = [k for k in FWD if k in CFWD]
CK = [k for k in KEEPERS if k in CFWD]
CR0 = [k for k in REV0 if k in CREV]
CRH = [k for k in REVH if k in CREV]


@check("P18")
def p18(ctx):
    rng, cases = ctx.rng, []
    for i in range(ctx.scale(400, 4000)):
        c = CCase("c%d" % i)
        c.rng = rng
        nt = rng.randrange(1, 4)
        c.others = [-1] + list(range(nt))
        coarse = rng.random() < 0.3
        Ps = [Prog(rng, dict(CW, allow=CALLOW), size=rng.randrange(2, 18), npts=3, **(dict(den=rng.choice([1, 2]), span=4) if coarse else {})) for _ in range(nt)]
        for _ in Ps:
            c.new()
        for t, P in enumerate(Ps):
            if rng.random() < 0.2:
                c.call("minmax", "%d 1" % t, tag=t, flag=True)
            k = rng.randrange(2)
            P.record(c, t, k)
            if k:
                reverse(c, rng, t, P, (0, 1), kinds=CR0)
            c.call("numid", str(t), tag=t)
        for _ in range(rng.randrange(2, 7)):
            t = rng.randrange(nt)
            P = Ps[t]
            pi = rng.randrange(len(P.pts))
            if P.ptok:
                c.setp(t, P.params(pi))
            k = forward(c, rng, t, P, pi, CF, dmax=3)
            if k:
                reverse(c, rng, t, P, k, kinds=CR0 if k[0] == 0 else CRH)
            driver(c, rng, t, P, pi)
        if rng.random() < 0.3:
            P = Ps[0]
            P.record(c, 0)
            forward(c, rng, 0, P, 0, CF)
        cases.append(c)
    for i in range(ctx.scale(200, 2000)):
        c = mbv.Case("ctl%d" % i)
        for _ in range(2):
            coarse = rng.random() < 0.4
            P = Prog(rng, dict(CW, cparam=0, allow=CALLOW - {"mkp", "newp"}), n=rng.randrange(1, 6), size=rng.randrange(1, 20), npts=3, **(dict(den=rng.choice([1, 2]), span=4) if coarse else {}))
            for pi in range(3):
                p = rng.randrange(1, 5)
                c.tl("vec", at_point(P, pi), P.m, P.n, P.x(pi), nums(rng, P.n * p), p=p)
        cases.append(c)
    ctx.group("cif", cases)


# ---------------------------------------------------------------- P16
class Square(Prog):
    """n dependents, each a multiple of one independent plus part of a random program"""

    def __init__(self, rng, W, n, **k):
        super().__init__(rng, W, n=n, m=1, **k)
        dep = [i for i in self.ins if i[0] == "dep"]
        body = [i for i in self.ins if i[0] != "dep"]
        out, nind, q = [], 0, self.last + 50
        for i in body:
            out.append(i)
            if i[0] == "ind":
                out.append(("copy", q + nind, i[1], 0, 0, "0.0"))
                nind += 1
        live = self.g.live()
        perm = list(range(n))
        rng.shuffle(perm)
        for j in range(n):
            r = q + 20 + j
            out.append(("mulc", r, q + perm[j], 0, 0, tok(rng.choice([1, 2, -2, 3, 0.5, -1.5, 0 if rng.random() < 0.2 else 1]) + 0.0)))
            if live and rng.random() < 0.75:
                s = rng.choice(live)
                if rng.random() < 0.4:
                    out.append(("mulc", q + 40 + j, s, 0, 0, tok(rng.choice([0.5, 0.25, -1.0]))))
                    s = q + 40 + j
                out.append(("eqa", r, s, 0, 0, "0.0"))
            out.append(("dep", r, 0, 0, rng.choice([0, 0, 1]), "0.0"))
        self.ins = out
        self.m = n


MILD = dict(arith=6, unary=2, power=1, inplace=4, assign=2)
POLY = dict(arith=6, inplace=4, assign=2)
KINKY = dict(arith=5, unary=2, power=1, inplace=3, assign=1, kink=2, cond=1, branch=1)


def multi(rng, d, p):
    k = rng.randrange(0, d + 1)
    j = [rng.randrange(1, p + 1) for _ in range(k)] + [0] * (d - k)
    rng.shuffle(j)
    return j


def access(c, rng, d, p, times):
    for _ in range(times):
        j = multi(rng, d, p)
        if rng.random() < 0.25:
            c.call("taddr", "%d %s" % (d, " ".join(map(str, j))), d=d, multi=j)
        else:
            how = rng.randrange(3)
            c.call("tval", "%d %d %s" % (how, d, " ".join(map(str, j))), multi=j)


def expansion(c, rng, t, P, x, dmax=4):
    """a Taylor expansion of an ODE solution, possibly in two steps"""
    n = P.n
    deg = rng.randrange(1, dmax + 1)
    kind = rng.choice(["c", "full", "notau", "nodol", "short", "f"])
    dol = rng.randrange(0, deg + 1) if kind in ("c", "full", "notau", "f") and rng.random() < 0.5 else 0
    tau = "1.0" if kind in ("notau", "short") else tok(rng.choice([1.0, 0.5, -0.5, 2.0]))
    X = [a for i in range(n) for a in [x[i]] + nums(rng, dol)]
    c.call("forode", "%s %d %d %s %d %d %s" % (kind, t, n, tau, dol, deg, " ".join(X)), kind=kind, tag=t, n=n, m=n, tau=tau, dol=dol, deg=deg, X=X)
    return deg if dol < deg else None


@check("P16")
def p16(ctx):
    rng, cases = ctx.rng, []
    for i in range(ctx.scale(160, 1500)):
        c = mbv.Case("ten%d" % i)
        nt = rng.randrange(1, 3)
        Ps = [Prog(rng, rng.choice([MILD, POLY, KINKY]), n=rng.randrange(1, 4), size=rng.randrange(2, 12), den=2, span=4) for _ in range(nt)]
        for _ in Ps:
            c.new()
        for t, P in enumerate(Ps):
            P.record(c, t)
        for _ in range(rng.randrange(1, 4)):
            t = rng.randrange(nt)
            P = Ps[t]
            p = rng.randrange(1, 4)
            d = rng.randrange(1, 5 if p < 3 else 4)
            pi = rng.randrange(len(P.pts))
            S = nums(rng, P.n * p, 0.3) if rng.random() < 0.7 else [tok(1.0 if a == b else 0.0) for a in range(P.n) for b in range(p)]
            c.call("ten", "%d %d %d %d %d %s %s" % (t, P.m, P.n, d, p, " ".join(P.x(pi)), " ".join(S)), tag=t, m=P.m, n=P.n, d=d, p=p, x=P.x(pi), S=S)
            access(c, rng, d, p, rng.randrange(2, 6))
        cases.append(c)
    for i in range(ctx.scale(200, 2000)):
        c = mbv.Case("inv%d" % i)
        nt = rng.randrange(1, 3)
        Ps = [Square(rng, rng.choice([MILD, POLY, KINKY]), n=rng.randrange(1, 4), size=rng.randrange(1, 8), den=2, span=4) for _ in range(nt)]
        for _ in Ps:
            c.new()
        for t, P in enumerate(Ps):
            P.record(c, t)
        mixed = rng.random() < 0.4
        for _ in range(rng.randrange(2, 8) + 3 * mixed):
            t = rng.randrange(nt) if not mixed else 0
            P = Ps[t]
            n = P.n
            pi = rng.randrange(len(P.pts))
            x = P.x(pi)
            if mixed:  # points that share coordinates with earlier ones
                x = [P.x(rng.randrange(2))[k] for k in range(n)]
            w = 0.5 if mixed and rng.random() < 0.7 else rng.random()
            if w < 0.12:  # a new recording: nothing computed before may be used
                Ps[t] = Q = Square(rng, MILD, n=rng.choice([n, n, n, 1, 2]), size=rng.randrange(1, 6), den=2, span=4, base=1000 * len(c.ev))
                if Q.n == n:  # evaluated at the points of its predecessor
                    Q.pts = P.pts + Q.pts[:1]
                Ps[t].record(c, t)
            elif w < 0.6:
                mode = rng.choice([0, 1, 2, 2, 2] + [2] * 8 * mixed)
                b = nums(rng, n)
                c.call("jsolv", "%d %d %d %s %s" % (t, n, mode, " ".join(x), " ".join(b)), tag=t, n=n, m=n, mode=mode, x=x, b=b)
            elif w < 0.75:
                d = rng.randrange(1, 5)
                Y = nums(rng, n * d)
                c.call("itp", "%d %d %d %s %s" % (t, n, d, " ".join(x), " ".join(Y)), tag=t, n=n, m=n, d=d, x=x, Y=Y)
            elif w < 0.9:
                p = rng.randrange(1, 3)
                d = rng.randrange(1, 4)
                S = nums(rng, n * p, 0.3)
                c.call("iten", "%d %d %d %d %s %s" % (t, n, d, p, " ".join(x), " ".join(S)), tag=t, n=n, m=n, d=d, p=p, x=x, S=S)
                access(c, rng, d, p, 2)
            else:
                forward(c, rng, t, P, pi, ["zos", "hos"], dmax=3)
        cases.append(c)
    for i in range(ctx.scale(80, 800)):
        # systems at points that share coordinates with the ones before
        c = mbv.Case("jsolv%d" % i)
        P = Square(rng, rng.choice([POLY, POLY, MILD]), n=rng.randrange(2, 4), size=rng.randrange(3, 9), den=2, span=4)
        c.new()
        P.record(c, 0)
        for _ in range(9):
            x, b = [P.x(rng.randrange(2))[k] for k in range(P.n)], nums(rng, P.n)
            mode = rng.choice([1, 2, 2, 2, 2, 2, 2, 2])
            c.call("jsolv", "0 %d %d %s %s" % (P.n, mode, " ".join(x), " ".join(b)), tag=0, n=P.n, m=P.n, mode=mode, x=x, b=b)
        cases.append(c)
    for i in range(ctx.scale(200, 2000)):
        c = mbv.Case("ode%d" % i)
        nt = rng.randrange(1, 3)
        Ps = [Square(rng, rng.choice([MILD, POLY, KINKY]), n=rng.randrange(1, 4), size=rng.randrange(1, 8), den=2, span=4) for _ in range(nt)]
        for _ in Ps:
            c.new()
        for t, P in enumerate(Ps):
            P.record(c, t)
        for _ in range(rng.randrange(2, 7)):
            t = rng.randrange(nt)
            P = Ps[t]
            n = P.n
            x = P.x(rng.randrange(len(P.pts)))
            w = rng.random()
            if w < 0.5:
                deg = expansion(c, rng, t, P, x)
                if deg and rng.random() < 0.5:
                    reverse(c, rng, t, P, (deg - 1, 1))
            elif w < 0.7:
                deg = rng.randrange(0, 4)
                kind = rng.choice(["c", "full", "notau", "f"])
                tau = "1.0" if kind == "notau" else tok(rng.choice([1.0, 0.5, -2.0]))
                usenz = 0 if kind == "f" else rng.randrange(2)
                nz = [rng.choice([0, 0, 1, 2, 3]) for _ in range(n * n)]
                A = [a for z in nz for a in nums(rng, deg + 1)] if not usenz else \
                    [a for z in nz for a in (["0.0"] * (deg + 1) if z == 0 else [num(rng)] + ["0.0"] * deg if z == 1 else nums(rng, deg + 1))]
                c.call("accode", "%s %d %s %d %d %s %s" % (kind, n, tau, deg, usenz, " ".join(A), " ".join(map(str, nz)) if usenz else ""),
                       kind=kind, n=n, tau=tau, deg=deg, A=A)
            else:
                deg = rng.randrange(2, 5)
                tau = tok(rng.choice([1.0, 0.5, -2.0]))
                c.call("jacode", "%d %d %s %d %d %s" % (t, n, tau, deg, rng.randrange(3), " ".join(x)), tag=t, n=n, m=n, tau=tau, deg=deg, x=x)
        cases.append(c)
    ctx.group("taylor", cases)


@check("P22")
def p22(ctx):
    rng, cases = ctx.rng, []
    for i in range(ctx.scale(400, 4000)):
        c = mbv.Case("lie%d" % i)
        n = rng.randrange(1, 4)
        F = [Square(rng, rng.choice([MILD, POLY, POLY, KINKY]), n=n, size=rng.randrange(1, 8), den=2, span=4) for _ in range(rng.randrange(1, 3))]
        H = [Prog(rng, rng.choice([MILD, POLY, KINKY]), n=n, m=rng.choice([1, 1, 2, 3]), size=rng.randrange(1, 10), den=2, span=4) for _ in range(rng.randrange(1, 3))]
        Ps = F + H
        for P in Ps:
            P.pts = F[0].pts
            c.new()
        order = list(range(len(Ps)))
        rng.shuffle(order)
        for t in order:
            Ps[t].record(c, t)
        for _ in range(rng.randrange(2, 7)):
            t = rng.randrange(len(F))
            kind = rng.choice(["scalar", "cscalar", "scalarv", "cscalarv", "gradient", "cgradient", "gradientv", "cgradientv", "covector", "bracket", "covector", "bracket"])
            square = kind in ("covector", "bracket")
            th = rng.choice([k for k in range(len(Ps)) if (k < len(F) if square else True)])
            h = Ps[th]
            if kind in ("scalar", "cscalar", "gradient", "cgradient") and h.m != 1:
                kind += "v"
            d = rng.choice([0, 1, 1, 2, 2, 3, 3, 4])
            if n == 1 and rng.random() < 0.08:
                d = 14
            x = F[0].x(rng.randrange(len(F[0].pts)))
            if rng.random() < 0.08:
                h2 = rng.choice(Ps)
                forward(c, rng, Ps.index(h2), h2, 0, ["zos", "fos", "hos"], dmax=3)
            c.call("lie", "%s %d %d %d %d %d %s" % (kind, t, th, n, h.m, d, " ".join(x)), kind=kind, tag=t, tagh=th, n=n, m=h.m, d=d, x=x)
        cases.append(c)
    ctx.group("taylor", cases)


# ---------------------------------------------------------------- P14
class Without(set):
    """every operation but these"""
    def __contains__(self, x):
        return not set.__contains__(self, x)


# pow(adouble, adouble) and atan2 are recorded through absolute values of their own
ABSY = dict(allow=Without(["pow", "powp", "ppow", "atan2"]), arith=5, unary=1, inplace=3, assign=2, kink=6, cond=0.5, power=0.3)
ABSV = dict(ABSY, branch=1, rounding=0.5, param=1, late=0.5, early=0.5, vcopy=0.3)
PLK = ["zos", "zosk", "fos", "fov", "sfos", "sfov", "sfosd", "rfos", "rfov", "rsig", "anf", "anfq", "anfc", "dag", "pat", "sanf", "sanfm", "sanfr", "sanfrm"]


@check("P14")
def p14(ctx):
    rng, cases = ctx.rng, []

    def plcall(c, t, P, kind, pi, dsw=0, x=None, X=None):
        p = rng.randrange(1, 4) if kind in ("fov", "sfov", "rfov") else 1
        x = x or P.x(pi)
        X = X or nums(rng, P.n * p, 0.3)
        w = [rng.choice(["1.0", "-1.0", "0.5", "-2.0", "3.0", "0.0"]) for _ in range(8)]
        m = 1 if kind == "dag" else P.m
        c.call("pl", "%s %d %d %d %d %d %s %s %s" % (kind, t, m, P.n, dsw, p, " ".join(x), " ".join(X), " ".join(w)),
               kind=kind, tag=t, m=m, n=P.n, dsw=dsw, p=p, x=x, X=X, w=w)

    # directional gradients of functions that are linear in absolute values, often at their kinks
    LIN = dict(allow={"fabs", "fmin", "fmax", "min", "max", "add", "sub", "addc", "cadd", "subc", "csub", "mulc", "cmul", "neg", "copy", "eqa", "eqs", "asg"}, unary=0.5, arith=5, kink=6, inplace=1, assign=1)
    for i in range(ctx.scale(160, 1600)):
        c = mbv.Case("dag%d" % i)
        n = rng.randrange(1, 5)
        P = Prog(rng, LIN, n=n, m=1, size=rng.randrange(2, 10), npts=3, den=1, span=rng.choice([1, 1, 2]))
        c.new()
        c.call("minmax", "0 1", tag=0, flag=True)
        P.record(c, 0)
        c.call("nsw", "0", tag=0)
        for _ in range(rng.randrange(4, 9)):
            x = [rng.choice([P.x(k)[j] for k in range(len(P.pts))] + ["0.0"]) for j in range(n)]
            X = [rng.choice(["0.0", "0.0", "1.0", "-1.0", "-2.0", "0.5"]) for j in range(n)]
            plcall(c, 0, P, "dag", 0, x=x, X=X)
        cases.append(c)
    for i in range(ctx.scale(500, 5000)):
        c = mbv.Case("pl%d" % i)
        nt = rng.randrange(1, 3)
        Ps = [Prog(rng, rng.choice([ABSY, ABSY, ABSV]), n=rng.randrange(1, 5), m=rng.choice([1, 1, 2, 3]), size=rng.randrange(2, 14), npts=3,
                   den=rng.choice([1, 2, 2, 4]), span=rng.choice([1, 2, 4])) for _ in range(nt)]
        mm = [rng.random() < 0.93 for _ in Ps]
        for _ in Ps:
            c.new()
        for t, P in enumerate(Ps):
            if mm[t]:
                c.call("minmax", "%d 1" % t, tag=t, flag=True)
            P.record(c, t, rng.choice([0, 0, 1]))
            c.call("nsw", "%d" % t, tag=t)
        for _ in range(rng.randrange(4, 11)):
            t = rng.randrange(nt)
            P = Ps[t]
            pi = rng.randrange(len(P.pts))
            if P.ptok and rng.random() < 0.3:
                c.setp(t, P.params(pi))
            w = rng.random()
            if w < 0.1:
                forward(c, rng, t, P, pi, ["zos", "fos", "hos"], dmax=2, keep=rng.choice([1, 1, 9]))
            elif w < 0.15:
                reverse(c, rng, t, P, (0, 1))
            else:
                kind = rng.choice([k for k in PLK if k != "dag" or P.m == 1])
                dsw = rng.choice([-1, 1, 2]) if rng.random() < 0.03 and not kind.startswith("sanfr") else 0
                if kind[0] == "r" and rng.random() < 0.6:
                    plcall(c, t, P, rng.choice(["zosk", "zosk", "anfc"]), pi)
                if kind.startswith("sanfr") and rng.random() < 0.6:
                    plcall(c, t, P, "sanf", pi)
                    pi = rng.randrange(len(P.pts))
                plcall(c, t, P, kind, pi, dsw)
        cases.append(c)
    ctx.group("pl", cases)


# ---------------------------------------------------------------- P21
@check("P21")
def p21(ctx):
    rng, cases = ctx.rng, []
    for i in range(ctx.scale(500, 5000)):
        c = mbv.Case("st%d" % i)
        nt = rng.randrange(1, 3)
        Ps = [Prog(rng, rng.choice([SMOOTH, ALL, BRANCHY, VECTOR, PARAM, EVERY, EVERY]), n=rng.randrange(1, 5), m=rng.choice([1, 1, 2, 3]),
                   size=rng.randrange(2, 22), npts=3, **(dict(den=rng.choice([1, 2]), span=4) if rng.random() < 0.4 else {})) for _ in range(nt)]
        bufs = [[] for _ in Ps]
        for _ in Ps:
            c.new()

        def record(t):
            P = Ps[t]
            if rng.random() < 0.15:
                flag = rng.random() < 0.6
                c.call("minmax", "%d %d" % (t, flag), tag=t, flag=flag)
            keep = rng.choice([0, 0, 1])
            if rng.random() < 0.5:
                bufs[t] = [rng.choice([3, 4, 7, 16, 64, 1000]), rng.choice([60, 61, 70, 100, 1000]), rng.choice([7, 8, 11, 40, 1000]), rng.choice([1, 2, 5, 20, 1000])]
                c.on(t, keep, bufs[t])
            else:
                bufs[t] = []
                c.on(t, keep)
            c.ins(P.ins)
            c.off(rng.choice([0, 0, 0, 1]))

        def stats(t):
            c.call("tstats", "%d" % t, tag=t, bufs=bufs[t])

        def doc(t):
            P = Ps[t]
            dm, dn = (rng.choice([0, 1]), rng.choice([0, 1])) if rng.random() < 0.04 else (0, 0)
            c.call("doc", "%d %d %d" % (t, P.m + dm, P.n + dn), tag=t, m=P.m + dm, n=P.n + dn, x=P.x(rng.randrange(len(P.pts))))

        for t in range(nt):
            record(t)
            if rng.random() < 0.9:
                stats(t)
                if rng.random() < 0.5:
                    forward(c, rng, t, Ps[t], 0, ["zos"], keep=1)
                    stats(t)
        for _ in range(rng.randrange(2, 8)):
            t = rng.randrange(nt)
            P = Ps[t]
            pi = rng.randrange(len(P.pts))
            w = rng.random()
            if w < 0.25:
                doc(t)
            elif w < 0.5:
                stats(t)
            elif w < 0.7:
                forward(c, rng, t, P, pi, list(FWD), dmax=3)
            elif w < 0.8:
                reverse(c, rng, t, P, (0, 1))
            elif w < 0.9:
                driver(c, rng, t, P, pi)
            elif P.ptok:
                c.setp(t, P.params(pi))
            else:
                record(t)
        doc(0)
        stats(nt - 1)
        cases.append(c)
    ctx.group("stats", cases)


# ---------------------------------------------------------------- P10
CPW = dict(arith=3, unary=2, inplace=2, assign=1, loop=4)


@check("P10")
def p10(ctx):
    ctx.model("ScheduleMC", ctx.scale("ScheduleQ", "ScheduleT"))
    rng, cases = ctx.rng, []
    # schedules of revolve
    pairs = [(l, c) for l in range(1, ctx.scale(25, 60)) for c in range(0 if l < 8 else 1, ctx.scale(7, 12))]
    pairs += [(rng.randrange(1, ctx.scale(250, 900)), rng.randrange(1, rng.choice([3, 12, 65]))) for _ in range(ctx.scale(60, 400))]
    pairs += [(40, 1000), (40, 1001), (300, 1)]
    rng.shuffle(pairs)
    for i in range(0, len(pairs), 6):
        c = mbv.Case("sched%d" % i)
        for l, k in pairs[i:i + 6]:
            c.call("revolve", "%d %d" % (l, k), steps=l, snaps=k)
        a, b = rng.randrange(-1, 14), rng.randrange(-1, 9)
        c.call("maxrange", "%d %d" % (a, b), a=a, b=b)
        a, b = rng.randrange(1, 500), rng.choice([0, 1, 2, 3, 5, 9, 1000, 1001])
        c.call("numforw", "%d %d" % (a, b), a=a, b=b)
        c.call("expense", "%d %d" % (a, b), a=a, b=b)
        cases.append(c)
    for i in range(ctx.scale(700, 6000)):
        nt = rng.choice([1, 1, 2])
        slots = list(range(2, 10))
        rng.shuffle(slots)
        timed = rng.random() < 0.25
        Ps = []
        for t in range(nt):
            W = dict(CPW, slots=slots[3 * t:3 * t + rng.choice([1, 1, 2, 3])], loopkinds=[0, 1, 2, 4, 4] if timed else [0, 1, 2, 2, 3])
            Ps.append(Prog(rng, W, n=rng.randrange(1, 4), m=rng.choice([1, 1, 2]), size=rng.randrange(2, 9), npts=rng.randrange(2, 4)))
        c = mbv.Case("loop%d" % i)
        for _ in range(10):
            c.new()
        kept = {}

        def record(t):
            keep = rng.choice([0, 0, 1])
            Ps[t].record(c, t, keep)
            kept[t] = (0, 1) if keep else None
        for t in range(nt):
            record(t)
        for _ in range(rng.randrange(3, 10)):
            t = rng.randrange(nt)
            P = Ps[t]
            pi = rng.randrange(len(P.pts))
            w = rng.random()
            if w < 0.4:
                k = forward(c, rng, t, P, pi, ["zos", "zos", "fx0", "fxk", "fos", "fos", "fov", "ffov", "fovoff"], keep=None if rng.random() < 0.5 else 1)
                kept[t] = k or kept[t]
            elif w < 0.7:
                reverse(c, rng, t, P, (0, 1))
            elif w < 0.97:
                ks = ["function", "jacobian", "vec_jac", "vec_jac1", "jac_vec"] + (["gradient"] if P.m == 1 else []) + ([] if timed else ["large_jacobian"])
                driver(c, rng, t, P, pi, ks)
            else:
                record(t)
        cases.append(c)
    for i, k in enumerate(["fine", "gap", "outgap", "nofct", "nodouble", "noinput", "mismatch"]):
        c = mbv.Case("misuse%d" % i)
        for _ in range(3):
            c.new()
        c.call("cperr", "%s 0" % k, kind=k, tag=0)
        cases.append(c)
    ctx.group("cp", cases)


# ---------------------------------------------------------------- P11
EXW = dict(arith=3, unary=2, inplace=2, assign=1, extern=4)
EXK = dict(EXW, kink=1, cond=1, branch=1)
EXP = dict(EXW, param=1)


@check("P11")
def p11(ctx):
    rng, cases = ctx.rng, []
    for i in range(ctx.scale(700, 6000)):
        nt = rng.choice([1, 1, 2])
        slots = list(range(2, 10))
        rng.shuffle(slots)
        Ps = []
        for t in range(nt):
            W = dict(rng.choice([EXW, EXW, EXK, EXP]), slots=slots[3 * t:3 * t + rng.choice([1, 1, 2, 3])])
            Ps.append(Prog(rng, W, n=rng.randrange(1, 5), m=rng.choice([1, 1, 2, 3]), size=rng.randrange(2, 10), npts=rng.randrange(2, 4)))
        c = mbv.Case("ext%d" % i)
        for _ in range(10):
            c.new()
        kept = {}

        def record(t):
            keep = rng.choice([0, 0, 1])
            Ps[t].record(c, t, keep)
            kept[t] = (0, 1) if keep else None
        for t in range(nt):
            record(t)
        for _ in range(rng.randrange(3, 10)):
            t = rng.randrange(nt)
            P = Ps[t]
            pi = rng.randrange(len(P.pts))
            w = rng.random()
            if w < 0.4:
                k = forward(c, rng, t, P, pi, ["zos", "zos", "fx0", "fxk", "fos", "fos", "fov", "ffov", "fovoff"], keep=None if rng.random() < 0.5 else 1)
                kept[t] = k or kept[t]
            elif w < 0.7:
                reverse(c, rng, t, P, (0, 1))
            elif w < 0.97:
                driver(c, rng, t, P, pi, ["function", "jacobian", "vec_jac", "vec_jac1", "jac_vec", "large_jacobian"] + (["gradient"] if P.m == 1 else []))
            else:
                record(t)
        cases.append(c)
    for i, (k, st) in enumerate([(k, st) for k in ["fine", "gap", "outgap", "zos", "fos", "fov", "fosr", "fovr"] for st in range(3)]):
        c = mbv.Case("misuse%d" % i)
        for _ in range(3):
            c.new()
        c.call("exterr", "%s 0 %d" % (k, st), kind=k, tag=0)
        cases.append(c)
    ctx.group("ext", cases)


# ---------------------------------------------------------------- P12
FPW = dict(arith=3, unary=2, inplace=2, assign=1, fixpoint=3)
FPK = dict(FPW, kink=1, cond=1, branch=1)
FPP = dict(FPW, param=1)


@check("P12")
def p12(ctx):
    rng, cases = ctx.rng, []
    for i in range(ctx.scale(600, 5000)):
        nt = rng.choice([1, 1, 2])
        slots = list(range(2, 10))
        rng.shuffle(slots)
        Ps = []
        for t in range(nt):
            W = dict(rng.choice([FPW, FPW, FPK, FPP]), slots=slots[3 * t:3 * t + rng.choice([1, 1, 2, 3])])
            Ps.append(Prog(rng, W, n=rng.randrange(1, 5), m=rng.choice([1, 1, 2, 3]), size=rng.randrange(2, 10), npts=rng.randrange(2, 4)))
        c = mbv.Case("fp%d" % i)
        for _ in range(10):
            c.new()
        kept = {}

        def record(t):
            keep = rng.choice([0, 0, 1])
            Ps[t].record(c, t, keep)
            kept[t] = (0, 1) if keep else None
        for t in range(nt):
            record(t)
        for _ in range(rng.randrange(3, 10)):
            t = rng.randrange(nt)
            P = Ps[t]
            pi = rng.randrange(len(P.pts))
            w = rng.random()
            if w < 0.4:
                k = forward(c, rng, t, P, pi, ["zos", "zos", "fx0", "fxk", "fos", "fos"], keep=None if rng.random() < 0.5 else 1)
                kept[t] = k or kept[t]
            elif w < 0.7:
                reverse(c, rng, t, P, (0, 1), ["fos"])
            elif w < 0.95:
                driver(c, rng, t, P, pi, ["function", "vec_jac", "vec_jac1", "jac_vec"] + (["gradient"] if P.m == 1 else []))
            else:
                record(t)
        cases.append(c)
    for k in ["fine", "slow", "fov", "fovr", "hos"]:
        c = mbv.Case("limits" + k)
        for _ in range(3):
            c.new()
        c.call("fperr", "%s 0" % k, kind=k, tag=0)
        cases.append(c)
    ctx.group("fp", cases)


# ---------------------------------------------------------------- P08
class Store:
    """storage of one tape, mirrored so that only meaningful requests are made"""

    def __init__(self, rng):
        self.rng = rng
        self.one = {}       # id -> value
        self.raw = set()
        self.grp = {}       # id -> [kind, values]
        self.single = False
        self.tracing = False
        self.recorded = False

    def ids(self):
        return [i for i in self.one if i not in self.raw] + [100 * g + i + 1 for g, G in self.grp.items() for i in range(len(G[1]))]

    def val(self, i):
        return self.one[i] if i < 100 else self.grp[i // 100][1][i % 100 - 1]

    def put(self, i, v):
        if i < 100:
            self.one[i] = v
        else:
            self.grp[i // 100][1][i % 100 - 1] = v

    def step(self, c):
        rng = self.rng
        D = lambda: rng.randrange(-24, 25) / 8
        call = lambda op, args, **ev: c.call("mem", (op + " " + args).strip(), op=op, **ev)
        free1 = [i for i in range(1, 30) if i not in self.one]
        freeg = [g for g in range(1, 9) if g not in self.grp]
        own = [i for i in self.one if i not in self.raw]
        vec = [g for g, G in self.grp.items() if G[0] == 0]
        op = rng.choices(["mk1", "mkg", "copy", "expr", "rm", "rmg", "asg", "asgc", "inc", "asgt", "mv", "mvnew", "swap", "push", "pushm", "front", "erase", "rev", "vcopy",
                          "wr", "rel", "gc", "ens", "trace", "eval", "look", "bad"],
                         [8, 6, 3, 3, 9, 3, 3, 2, 2, 5, 2, 2, 2, 4, 2, 2, 3, 1, 1, 3, 1, 1, 1, 2, 1, 1, 1])[0]
        small = [i for i in self.ids() if abs(self.val(i)) < 100]
        if op == "mk1" and free1:
            i, f, v = rng.choice(free1), rng.randrange(2), D()
            v = v if f == 0 else 0.0
            self.one[i] = v
            call("mk", "%d 1 %d %s" % (i, f, tok(v)), ids=[i], vals=[tok(v)], cont=False)
        elif op == "mkg" and freeg:
            g, n = rng.choice(freeg), rng.choice([1, 2, 2, 3, 3, 4, 5, 7, 9, 17])
            f = rng.choice([0, 0, 1, 1, 2, 3, 4])
            v = D() if f == 4 else 0.0
            bad = self.single and f < 3
            call("mk", "%d %d %d %s" % (100 * g, n, f, tok(v)), ids=[100 * g + j + 1 for j in range(n)], vals=[tok(v)] * n, cont=f < 3)
            if not bad:
                self.grp[g] = [1 if f == 1 else 2 if f == 2 else 0, [v] * n]
        elif op == "copy" and free1 and self.ids():
            a, b = rng.choice(free1), rng.choice(self.ids())
            self.one[a] = self.val(b)
            call("copy", "%d %d" % (a, b), a=a, b=b)
        elif op == "expr" and free1 and small:
            a, b, v = rng.choice(free1), rng.choice(small), D()
            self.one[a] = self.val(b) ** 2 + v
            call("expr", "%d %d %s" % (a, b, tok(v)), a=a, b=b, c1=tok(v))
        elif op == "rm" and self.one:
            a = rng.choice(list(self.one))
            del self.one[a]
            self.raw.discard(a)
            call("rm", str(a), a=a)
        elif op == "rmg" and self.grp:
            a = rng.choice(list(self.grp))
            del self.grp[a]
            call("rmg", str(a), a=a)
        elif op in ("asg", "swap") and self.ids():
            a, b = rng.choice(self.ids()), rng.choice(self.ids())
            if op == "swap" and a == b:
                return
            x, y = self.val(a), self.val(b)
            self.put(a, y)
            if op == "swap":
                self.put(b, x)
            call(op, "%d %d" % (a, b), a=a, b=b)
        elif op in ("asgc", "inc") and self.ids():
            a, v = rng.choice(self.ids()), D()
            self.put(a, v if op == "asgc" else self.val(a) + v)
            call(op, "%d %s" % (a, tok(v)), a=a, c1=tok(v))
        elif op == "asgt" and small:
            a, b, v = rng.choice(self.ids()), rng.choice(small), D()
            self.put(a, self.val(b) ** 2 + v)
            call(op, "%d %d %s" % (a, b, tok(v)), a=a, b=b, c1=tok(v))
        elif op == "mv" and own:
            b = rng.choice(own)
            q = [i for i in self.ids() if i != b]
            if not q:
                return
            a = rng.choice(q)
            v = self.one.pop(b)
            self.put(a, v)
            call(op, "%d %d" % (a, b), a=a, b=b)
        elif op == "mvnew" and own and free1:
            a, b = rng.choice(free1), rng.choice(own)
            self.one[a] = self.one.pop(b)
            call(op, "%d %d" % (a, b), a=a, b=b)
        elif op in ("push", "front") and vec:
            g, v = rng.choice(vec), D()
            G = self.grp[g][1]
            if len(G) > 40:
                return
            G.insert(len(G) if op == "push" else 0, v)
            call(op, "%d %s" % (g, tok(v)), a=g, c1=tok(v))
        elif op == "pushm" and vec and own:
            g, b = rng.choice(vec), rng.choice(own)
            self.grp[g][1].append(self.one.pop(b))
            call(op, "%d %d" % (g, b), a=g, b=b)
        elif op == "erase" and vec:
            g = rng.choice(vec)
            if len(self.grp[g][1]) < 2:
                return
            i = rng.randrange(len(self.grp[g][1]))
            del self.grp[g][1][i]
            call(op, "%d %d" % (g, i + 1), a=g, b=i + 1)
        elif op == "rev" and vec:
            g = rng.choice(vec)
            self.grp[g][1].reverse()
            call(op, str(g), a=g)
        elif op == "vcopy" and vec and len(self.grp) > 1:
            g = rng.choice(vec)
            k = rng.choice([x for x in self.grp if x != g])
            self.grp[g][1] = list(self.grp[k][1])
            call(op, "%d %d" % (g, k), a=g, b=k)
        elif op == "wr" and not self.single:
            gs = [(g, i) for g, G in self.grp.items() if G[0] == 2 for i in self.ids() if 0 <= self.val(i) < len(G[1])]
            if not gs:
                return
            (g, b), v = rng.choice(gs), D()
            self.grp[g][1][int(self.val(b))] = v
            call(op, "%d %d %s" % (g, b, tok(v)), a=g, b=b, c1=tok(v))
        elif op == "rel" and own and not self.tracing:
            a = rng.choice(own)
            self.raw.add(a)
            call(op, str(a), a=a)
        elif op == "gc":
            call(op, "%s %d" % (rng.choice(["0", "1", "1.5", "4", "100"]), rng.choice([0, 4, 64, 1000000])))
        elif op == "ens":
            call(op, str(rng.choice([0, 1, 2, 5, 33])), n=0)
        elif op == "trace":
            if self.tracing:
                self.tracing, self.recorded = False, True
                call("untrace", str(rng.randrange(2)))
            elif rng.random() < 0.6:
                self.tracing = True
                call("trace", str(rng.randrange(2)))
        elif op == "eval" and self.recorded and not self.tracing:
            call(op, "")
        elif op == "look":
            call(op, "")
        elif op == "bad":
            k = rng.randrange(2)
            call("type", str(k), a=k)
            if not self.one and not self.grp and k != self.single:
                self.single = k == 1


@check("P08")
def p08(ctx):
    rng, cases = ctx.rng, []
    out = ctx.model("StoreMC", ctx.scale("StoreQ", "StoreT"), workers=1)
    ps = model.paths(out)
    if not ps:
        raise mbv.TLCError("StoreMC produced no behaviours")
    if len(ps) > 30000:
        ps = rng.sample(ps, 30000)
    for n, p in enumerate(ps):
        c = mbv.Case("mgr%d" % n)
        c.new()
        c.cur(0)
        live, g = {}, 0
        names = {}
        for x in p:
            if x["op"] == "mk":
                names[x["id"]] = ("one", x["id"])
                c.call("mem", "mk %d 1 1 0" % x["id"], op="mk", ids=[x["id"]], vals=["0.0"], cont=False)
            elif x["op"] == "block":
                free = [i for i in range(1, 10) if i not in names][:x["n"]]
                # adjacent single variables: freed in any order later
                for j, i in enumerate(free):
                    names[i] = ("one", i)
                c.call("mem", "blk %d %s" % (x["n"], " ".join(map(str, free))), op="mk", ids=free, vals=["0.0"] * x["n"], cont=True)
            else:
                del names[x["id"]]
                c.call("mem", "rm %d" % x["id"], op="rm", a=x["id"])
        cases.append(c)
    ctx.level_extra.setdefault("transitions_replayed", {})["StoreMC"] = len(cases)
    for i in range(ctx.scale(500, 5000)):
        c = mbv.Case("life%d" % i)
        nt = rng.choice([1, 1, 2, 3])
        for _ in range(nt):
            c.new()
        S = [Store(rng) for _ in range(nt)]
        cur = 0
        c.cur(0)
        if rng.random() < 0.2:
            c.call("mem", "type 1", op="type", a=1)
            S[0].single = True
        for _ in range(rng.randrange(10, ctx.scale(70, 200))):
            if nt > 1 and rng.random() < 0.12 and not S[cur].tracing:
                cur = rng.randrange(nt)
                c.cur(cur)
                c.call("mem", "look", op="look")
            S[cur].step(c)
        if S[cur].tracing:
            c.call("mem", "untrace 0", op="untrace")
        cases.append(c)
    ctx.group("store", cases)


class Collect:
    """stands in for a run: collects the histories the other checks generate"""
    thorough = False

    def __init__(self, rng, seed):
        self.rng, self.seed, self.level_extra, self.notes, self.got = rng, seed, {}, [], []

    def scale(self, q, t):
        return q

    def model(self, *a, **k):
        return '<<"PATH", "[]">>\n'

    def group(self, harness, cases, **k):
        if not k.get("variant") and harness != "tlh":
            self.got += [(harness, c) for c in cases if c.ev]


def calls_of(c):
    """the script lines of each call"""
    out, i = [], 0
    while i < len(c.lines):
        w = c.lines[i].split()
        n = int(w[1]) if w[0] in ("ins", "tl") else 0
        out.append(c.lines[i:i + n + 1])
        i += n + 1
    assert len(out) == len(c.ev)
    return out


def threads(cid, mode, parts, order):
    """one history of several threads; parts: (thread, harness, case); order: the threads in the order of their calls"""
    c = mbv.Case(cid)
    c.lines = ["mode " + mode]
    todo = {}
    for p, h, x in parts:
        if x is None:
            continue
        todo.setdefault(p, [])
        todo[p] += [(["start " + h], {"c": "start"})] + list(zip(calls_of(x), x.ev)) + [(["exit"], {"c": "exit"})]
    for p in order(todo):
        ls, ev = todo[p].pop(0)
        c.lines += ["@%d %s" % (p, ls[0])] + ls[1:]
        c.ev.append(dict(ev, th=p))
    assert not any(todo.values())
    return c


def docs(c):
    return {e["tag"] for e in c.ev if e["c"] == "doc"}


def robin(todo):
    """first calls of all threads, second calls, ..."""
    n = max(map(len, todo.values()))
    return [p for k in range(n) for p in sorted(todo) if k < len(todo[p])]


@check("P19")
def p19(ctx):
    rng, cases = ctx.rng, []
    pool = {}
    for pid in sorted(CHECKS):
        if pid != "P19":
            f = Collect(random.Random("%s/%d" % (pid, ctx.seed)), ctx.seed)
            CHECKS[pid](f)
            ok = [(h, c) for h, c in f.got if not any(l.startswith("rcfile") for l in c.lines)]
            pool[pid] = [(h, c) for h, c in ok if len(c.ev) <= 40]
    # every order of the calls of two (three) threads with the same tags
    n = ctx.scale(2, 3)
    hist = []
    for p in range(n):
        c = mbv.Case("t%d" % p)
        c.new()
        P = Prog(rng, POLY, 2, 1, 4)
        P.record(c, 0, keep=p % 2)
        if n == 2:
            kept = forward(c, rng, 0, P, 0, ["fos"], 1, 1, keep=2)
            reverse(c, rng, 0, P, kept, ["hos"], 1)
        hist.append(c)
    work = ctx.work / "threads.ndjson"
    work.write_text("".join(json.dumps({"id": c.id, "ev": c.ev}) + "\n" for c in hist))
    out = ctx.model("ThreadsMC", "ThreadsMC", env={"TRACE": str(work)}, workers=1)
    ps = model.paths(out)
    if not ps:
        raise mbv.TLCError("ThreadsMC produced no behaviours")
    for i, o in enumerate(rng.sample(ps, min(len(ps), ctx.scale(200, 4000)))):
        # the threads begin with their first call and end with the last
        def order(todo, o=o):
            left = {p: len(todo[p]) for p in todo}
            r = []
            for p in o:
                p -= 1
                if left[p] == len(todo[p]):
                    r.append(p)
                    left[p] -= 1
                r.append(p)
                left[p] -= 1
                if left[p] == 1:
                    r.append(p)
            return r
        cases.append(threads("order%d" % i, "seq", [(p, "core", hist[p]) for p in range(n)], order))
    ctx.level_extra.setdefault("orders_replayed", {})["ThreadsMC"] = len(cases)
    # histories of all kinds, in threads that begin and end at different times
    kinds = sorted(pool)
    for i in range(ctx.scale(120, 2500)):
        k = rng.choice([2, 2, 3, 4])
        parts = []
        one = rng.choice(kinds) if rng.random() < 0.6 else None
        for p in range(k):
            for _ in range(rng.choice([1, 1, 2])):
                h, c = rng.choice(pool[one or rng.choice(kinds)])
                parts.append((p, h, c))

        def order(todo):
            r, left = [], {p: len(todo[p]) for p in todo}
            while any(left.values()):
                p = rng.choice([p for p in left if left[p]])
                for _ in range(min(left[p], rng.choice([1, 1, 1, 2, 5]))):
                    r.append(p)
                    left[p] -= 1
            return r
        cases.append(threads("mix%d" % i, "seq", parts, order))
    ctx.group("thr", cases)
    # all at once, the k-th calls of all threads together; similar histories meet in the same parts of the library
    cases = []
    quiet = {}
    for pid in kinds:
        quiet[pid] = [(h, c) for h, c in pool[pid] if h != "tl" and not any(l.startswith("tl ") for l in c.lines)]
    kinds = [pid for pid in kinds if len(quiet[pid]) > 20]
    for i in range(ctx.scale(5 * len(kinds), 100 * len(kinds))):
        pid = kinds[i % len(kinds)]
        k = rng.choice([3, 4])
        a = rng.choice(quiet[pid])
        like = [x for x in quiet[pid] if x[0] == a[0] and [e["c"] for e in x[1].ev][:4] == [e["c"] for e in a[1].ev][:4]]
        parts = [(0, *a)] + [(p, *rng.choice([a, rng.choice(like), rng.choice(quiet[rng.choice(kinds)])])) for p in range(1, k)]
        # descriptions are written to files named by the tag
        seen = set()
        parts = [x for x in parts if not (docs(x[2]) & seen or seen.update(docs(x[2])))]
        parts = [(p, h, c) for p, (_, h, c) in enumerate(parts)]
        if len(parts) > 1:
            cases.append(threads("free%d" % i, "free", parts, robin))
    ctx.group("thr", cases, shards=2, det=8)

"""Random straight-line programs with active variables, as instruction tuples
(op, r, a, b, k, c).  Values are mirrored in floating point only to stay inside the
domain of the operations at every point the history is going to use."""
import math
from fractions import Fraction


def tok(v):
    if isinstance(v, Fraction):
        return "%d/%d" % (v.numerator, v.denominator) if v.denominator != 1 else str(v.numerator)
    return repr(v) if isinstance(v, float) else str(v)


SAFE = 30.0
UN = {
    "sqrt": (lambda v: v > 0.05, math.sqrt), "exp": (lambda v: v < 3, math.exp), "log": (lambda v: v > 0.05, math.log),
    "sin": (lambda v: True, math.sin), "cos": (lambda v: True, math.cos), "tan": (lambda v: abs(math.cos(v)) > 0.3, math.tan),
    "asin": (lambda v: abs(v) < 0.9, math.asin), "acos": (lambda v: abs(v) < 0.9, math.acos), "atan": (lambda v: True, math.atan),
    "sinh": (lambda v: abs(v) < 3, math.sinh), "cosh": (lambda v: abs(v) < 3, math.cosh), "tanh": (lambda v: True, math.tanh),
    "asinh": (lambda v: True, math.asinh), "acosh": (lambda v: v > 1.1, math.acosh), "atanh": (lambda v: abs(v) < 0.9, math.atanh),
    "cbrt": (lambda v: abs(v) > 0.05, lambda v: math.copysign(abs(v) ** (1 / 3), v)),
    "log10s": (lambda v: v > 0.05, math.log), "erfs": (lambda v: abs(v) < 3, lambda v: math.erf(v) * 0.886226925452758),
    "erfcs": (lambda v: abs(v) < 3, lambda v: -math.erf(v) * 0.886226925452758),
    "neg": (lambda v: True, lambda v: -v), "pos": (lambda v: True, lambda v: v),
}
REL = [lambda d: d < 0, lambda d: d <= 0, lambda d: d > 0, lambda d: d >= 0, lambda d: d == 0, lambda d: d != 0]


class Gen:
    def __init__(self, rng, points, base=0):
        """points: list of input vectors (floats); values are tracked at all of them."""
        self.rng = rng
        self.pts = points
        self.np = len(points)
        self.base = base        # first register number
        self.next = base + 1
        self.v = {}             # register -> list of values, one per point
        self.dep = {}           # register -> depends on an independent
        self.out = []
        self.ni = 0
        self.nd = 0
        self.pp = {}            # parameter object -> values
        self.ptok = []          # tokens of the parameter values, in order of creation
        self.maxdep = 0
        self.maxp = 4
        self.allow = None       # operations the programs are limited to
        self.slots = []         # tapes for the steps of time loops
        self.loopkinds = [0, 1, 2, 3]
        self.handles = []       # registered external functions: (slot, style, flags, c)
        self.vec = {}           # vector -> list of value lists
        self.nextv = base + 1
        self.exact = set()      # registers computed exactly in every evaluation order

    # ---- helpers
    def emit(self, op, r=0, a=0, b=0, k=0, c=0):
        self.out.append((op, r, a, b, k, tok(c)))

    def fresh(self):
        r = self.next
        self.next += 1
        return r

    def const(self):
        r = self.rng
        w = r.random()
        if w < 0.25:
            return Fraction(r.choice([0, 1, -1, 2, -2, 1, 1]))
        return Fraction(r.choice([i for i in range(-14, 15) if i]), 4)

    def nz(self):
        while True:
            c = self.const()
            if c:
                return c

    def ok(self, vals):
        return all(math.isfinite(x) and abs(x) < SAFE for x in vals)

    def put(self, r, vals, dep, exact=False):
        self.v[r] = list(vals)
        self.dep[r] = dep
        (self.exact.add if exact else self.exact.discard)(r)

    def ind(self, k=None):
        r = self.fresh()
        k = self.rng.choice([0, 0, 0, 1]) if k is None else k
        self.emit("new", r)
        self.emit("ind", r, k=k, c=self.pts[0][self.ni])
        self.put(r, [p[self.ni] for p in self.pts], True, True)
        self.ni += 1
        return r

    def live(self):
        return list(self.v)

    def pick(self, pred=None, dep=0.8):
        """a live register satisfying pred at every point; prefers recent, dependent ones"""
        rs = [r for r in self.v if pred is None or all(pred(x) for x in self.v[r])]
        if not rs:
            return None
        if self.rng.random() < dep:
            d = [r for r in rs if self.dep[r]]
            rs = d or rs
        if self.rng.random() < 0.5:
            rs = rs[-4:]
        return self.rng.choice(rs)

    def target(self, fresh=0.75):
        """register that receives a result: fresh, or an existing one overwritten"""
        if self.rng.random() < fresh or len(self.v) < 3:
            return self.fresh()
        return self.rng.choice(self.live())

    # ---- instruction families; each returns True if it emitted something
    def arith(self):
        r = self.rng
        f = r.choice(["add", "sub", "mul", "div", "mul"])
        a, b = self.pick(), self.pick()
        if a is None:
            return False
        F = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x / y}[f]
        form = r.choice(["rr", "rr", "rc", "cr"])
        if form == "rr":
            if f == "div" and any(abs(x) < 0.2 for x in self.v[b]):
                return False
            vals = [F(x, y) for x, y in zip(self.v[a], self.v[b])]
            if not self.ok(vals):
                return False
            t = self.target()
            ex = a in self.exact and b in self.exact and f != "div"
            self.emit(f, t, a, b, r.randrange(4))
            self.put(t, vals, self.dep[a] or self.dep[b], ex)
        else:
            c = self.nz() if (f == "div" and form == "rc") else self.const()
            if form == "cr" and f == "div" and any(abs(x) < 0.2 for x in self.v[a]):
                return False
            vals = [F(x, float(c)) if form == "rc" else F(float(c), x) for x in self.v[a]]
            if not self.ok(vals):
                return False
            t = self.target()
            self.emit(f + "c" if form == "rc" else "c" + f, t, a, 0, r.randrange(2), c)
            self.put(t, vals, self.dep[a], a in self.exact and f != "div")
        return True

    def unary(self, names=None):
        f = self.rng.choice(names or list(UN))
        dom, F = UN[f]
        a = self.pick(dom)
        if a is None:
            return False
        vals = [F(x) for x in self.v[a]]
        if not self.ok(vals):
            return False
        t = self.target()
        self.emit(f, t, a, 0, self.rng.randrange(2))
        self.put(t, vals, self.dep[a], f in ("neg", "pos") and a in self.exact)
        return True

    def power(self):
        r = self.rng
        f = r.choice(["powc", "powc", "cpow", "pow", "atan2", "ldexp"])
        if f == "powc":
            c = r.choice([Fraction(2), Fraction(3), Fraction(-1), Fraction(-2), Fraction(1, 2), Fraction(-3, 2), Fraction(5, 2), Fraction(1), Fraction(0), Fraction(4)])
            integer = c.denominator == 1
            a = self.pick((lambda v: v == 0 or abs(v) > 0.1) if integer and c > 0 else (lambda v: abs(v) > 0.1) if integer else (lambda v: v > 0.1))
            if a is None:
                return False
            vals = [x ** float(c) for x in self.v[a]]
            if not self.ok(vals):
                return False
            t = self.target()
            self.emit("powc", t, a, 0, r.randrange(2), c)
            self.put(t, vals, self.dep[a])
        elif f == "cpow":
            c = r.choice([Fraction(2), Fraction(1, 2), Fraction(3), Fraction(5, 4)])
            a = self.pick(lambda v: abs(v) < 4)
            if a is None:
                return False
            t = self.target()
            vals = [float(c) ** x for x in self.v[a]]
            if not self.ok(vals):
                return False
            self.emit("cpow", t, a, 0, 0, c)
            self.put(t, vals, self.dep[a])
        elif f == "pow":
            a = self.pick(lambda v: v > 0.1)
            b = self.pick(lambda v: abs(v) < 3)
            if a is None or b is None:
                return False
            vals = [x ** y for x, y in zip(self.v[a], self.v[b])]
            if not self.ok(vals):
                return False
            t = self.target()
            self.emit("pow", t, a, b)
            self.put(t, vals, self.dep[a] or self.dep[b])
        elif f == "atan2":
            a = self.pick(lambda v: v == 0 or abs(v) > 0.1)
            b = self.pick(lambda v: v == 0 or abs(v) > 0.1)
            if a is None or b is None or any(x == 0 and y <= 0 for x, y in zip(self.v[a], self.v[b])):
                return False
            t = self.target()
            self.emit("atan2", t, a, b)
            self.put(t, [math.atan2(x, y) for x, y in zip(self.v[a], self.v[b])], self.dep[a] or self.dep[b])
        else:
            a = self.pick()
            e = r.choice([-2, -1, 0, 1, 2])
            if a is None:
                return False
            vals = [x * 2.0 ** e for x in self.v[a]]
            if not self.ok(vals):
                return False
            t = self.target()
            self.emit("ldexp", t, a, e, r.choice([0, -1]))
            self.put(t, vals, self.dep[a], a in self.exact)
        return True

    def inplace(self):
        r = self.rng
        t, a, b = self.pick(), self.pick(), self.pick()
        if t is None:
            return False
        f = r.choice(["eqa", "eqs", "eqm", "eqd", "eqac", "eqsc", "eqmc", "eqdc", "eqp", "eqmp", "eqp", "incpre", "decpre", "incpost", "decpost"])
        T, A, Bv = self.v[t], self.v[a], self.v[b]
        c = self.nz()
        cf = float(c)
        ex = t in self.exact
        if f in ("incpost", "decpost"):
            s = 1 if f == "incpost" else -1
            n = self.fresh()
            self.emit(f, n, t)
            self.put(n, T, self.dep[t], ex)
            self.put(t, [x + s for x in T], self.dep[t], ex)
            return self.ok(self.v[t])
        if f == "eqd" and any(abs(x) < 0.2 for x in A):
            return False
        vals = {"eqa": lambda: [x + y for x, y in zip(T, A)], "eqs": lambda: [x - y for x, y in zip(T, A)],
                "eqm": lambda: [x * y for x, y in zip(T, A)], "eqd": lambda: [x / y for x, y in zip(T, A)],
                "eqac": lambda: [x + cf for x in T], "eqsc": lambda: [x - cf for x in T],
                "eqmc": lambda: [x * cf for x in T], "eqdc": lambda: [x / cf for x in T],
                "eqp": lambda: [x + y * z for x, y, z in zip(T, A, Bv)], "eqmp": lambda: [x - y * z for x, y, z in zip(T, A, Bv)],
                "incpre": lambda: [x + 1 for x in T], "decpre": lambda: [x - 1 for x in T]}[f]()
        if not self.ok(vals):
            return False
        self.emit(f, t, a, b, r.randrange(2) if f in ("eqa", "eqs") else 0, c)
        dep = self.dep[t]
        if f in ("eqa", "eqs", "eqm", "eqd"):
            dep = dep or self.dep[a]
            ex = ex and a in self.exact and f != "eqd"
        if f in ("eqp", "eqmp"):
            dep = dep or self.dep[a] or self.dep[b]
            ex = ex and a in self.exact and b in self.exact
        if f == "eqdc":
            ex = False
        self.put(t, vals, dep, ex)
        return True

    def assign(self):
        r = self.rng
        f = r.choice(["asg", "asgc", "copy", "newc", "copy", "kill", "move"])
        if f == "asg":
            t, a = self.pick(), self.pick()
            if t is None:
                return False
            self.emit("asg", t, a)
            self.put(t, self.v[a], self.dep[a], a in self.exact)
        elif f == "asgc":
            t = self.pick(dep=0.3)
            if t is None:
                return False
            c = self.const()
            self.emit("asgc", t, c=c)
            self.put(t, [float(c)] * self.np, False, True)
        elif f == "copy":
            a = self.pick()
            if a is None:
                return False
            t = self.target()
            self.emit("copy", t, a)
            self.put(t, self.v[a], self.dep[a], a in self.exact)
        elif f == "newc":
            c = self.const()
            t = self.fresh()
            self.emit("newc", t, c=c)
            self.put(t, [float(c)] * self.np, False, True)
        elif f == "kill":
            if len(self.v) < 5:
                return False
            a = r.choice(self.live())
            self.emit("kill", a)
            del self.v[a]
        else:
            if len(self.v) < 3:
                return False
            a = self.pick()
            t = self.fresh()
            self.emit("move", t, a)
            self.put(t, self.v[a], self.dep[a], a in self.exact)
            del self.v[a]
        return True

    def kink(self, exact=True):
        """fabs/fmin/fmax.  The arguments are kept clear of ties unless exact."""
        r = self.rng
        f = r.choice(["fabs", "fabs", "fmin", "fmax", "min", "max"])
        a, b = self.pick(), self.pick()
        if a is None:
            return False

        def clear(vals, rs):
            return all(abs(x) > 1e-3 for x in vals) or (exact and all(q in self.exact for q in rs))
        if f == "fabs":
            if not clear(self.v[a], [a]):
                return False
            t = self.target()
            self.emit("fabs", t, a, 0, r.randrange(2))
            self.put(t, [abs(x) for x in self.v[a]], self.dep[a], a in self.exact)
            return True
        F = min if f in ("fmin", "min") else max
        form = r.choice(["rr", "rr", "rc", "cr"])
        if form == "rr":
            if a == b or not clear([x - y for x, y in zip(self.v[a], self.v[b])], [a, b]):
                return False
            t = self.target()
            self.emit(f, t, a, b, r.randrange(4))
            self.put(t, [F(x, y) for x, y in zip(self.v[a], self.v[b])], self.dep[a] or self.dep[b], a in self.exact and b in self.exact)
        else:
            c = self.const()
            if not clear([x - float(c) for x in self.v[a]], [a]):
                return False
            t = self.target()
            self.emit(f + "c" if form == "rc" else "c" + f, t, a, 0, r.randrange(2), c)
            self.put(t, [F(x, float(c)) for x in self.v[a]], self.dep[a], a in self.exact)
        return True

    def rounding(self):
        f = self.rng.choice(["ceil", "floor"])
        a = self.pick()
        if a is None or (a not in self.exact and any(abs(x - round(x)) < 1e-3 for x in self.v[a])):
            return False
        t = self.target()
        self.emit(f, t, a, 0, self.rng.randrange(2))
        self.put(t, [float(getattr(math, f)(x)) for x in self.v[a]], False, True)
        return True

    def condarg(self):
        """the condition of a conditional assignment; now and then 0 at one of the points"""
        r = self.rng
        a = self.pick()
        if a is None or r.random() < 0.7:
            return a
        ex = [q for q in self.v if q in self.exact]
        zero = [q for q in ex if 0 in self.v[q]]
        if zero and r.random() < 0.6:
            return r.choice(zero)
        if not ex:
            return a
        q = r.choice(ex)
        c = Fraction(self.v[q][r.choice([0, r.randrange(self.np)])])
        if c.denominator > 64 or abs(c) > 1000:
            return a
        t = self.target(1.0)
        self.emit("subc", t, q, 0, r.randrange(2), c)
        self.put(t, [x - float(c) for x in self.v[q]], self.dep[q], True)
        return t

    def cond(self):
        r = self.rng
        f = r.choice(["cond", "cond2", "condeq", "condeq2"])
        a = self.condarg()
        t, b, e = self.pick(), self.pick(), self.pick()
        if t is None or (a not in self.exact and any(abs(x) < 1e-3 for x in self.v[a])):
            return False
        yes = [(x >= 0 if "eq" in f else x > 0) for x in self.v[a]]
        if f.endswith("2"):
            vals = [y if q else z for q, y, z in zip(yes, self.v[b], self.v[t])]
            ex = b in self.exact and t in self.exact
            self.emit(f, t, a, b)
            dep = self.dep[t] or self.dep[b]
        else:
            vals = [y if q else z for q, y, z in zip(yes, self.v[b], self.v[e])]
            ex = b in self.exact and e in self.exact
            self.emit(f, t, a, b, e)
            dep = self.dep[b] or self.dep[e]
        self.put(t, vals, dep, ex)
        return True

    def branch(self):
        """if (a rel b) { a few operations }"""
        r = self.rng
        form = r.choice(["br", "brc", "cbr"] + (["brp", "pbr"] * 2 if self.pp else []))
        k = r.randrange(6)
        a, b = self.pick(), self.pick()
        if a is None:
            return False
        if a not in self.exact:
            return False
        c = self.const()
        if form == "br":
            if b not in self.exact:
                return False
            d = [x - y for x, y in zip(self.v[a], self.v[b])]
        elif form in ("brp", "pbr"):
            b = r.choice(list(self.pp))
            d = [(x - y) * (1 if form == "brp" else -1) for x, y in zip(self.v[a], self.pp[b])]
        elif form == "brc":
            d = [x - float(c) for x in self.v[a]]
        else:
            d = [float(c) - x for x in self.v[a]]
        o = [REL[k](x) for x in d]
        pos = len(self.out)
        self.emit(form, 0, a, b, k, c)
        # the body only overwrites existing registers so that every path leaves them live
        n = 0
        for _ in range(r.randrange(1, 3)):
            t, s = self.pick(), self.pick()
            g = r.choice(["asg", "eqa", "eqac", "asgc"])
            cc = self.const()
            nv = {"asg": self.v[s], "eqa": [x + y for x, y in zip(self.v[t], self.v[s])], "eqac": [x + float(cc) for x in self.v[t]],
                  "asgc": [float(cc)] * self.np}[g]
            if not self.ok(nv):
                continue
            self.emit(g, t, s, 0, 0, cc)
            # at the recorded point (0) the body runs iff o[0]; other points follow the recorded path
            if o[0]:
                self.put(t, nv, self.dep[t] or self.dep[s], t in self.exact and s in self.exact)
            else:
                self.exact.discard(t) if not (t in self.exact and s in self.exact) else None
            n += 1
        x = self.out[pos]
        self.out[pos] = (x[0], n, x[2], x[3], x[4], x[5])
        return True

    def misc(self):
        """values from and to a stream or taken apart; an element declared as dependent"""
        r = self.rng
        f = r.choice(["strio", "frexp"] if self.allow else ["strin", "strout", "frexp", "frexp", "wdep", "wdep"])
        if f == "wdep":
            if not self.vec or self.nd >= self.maxdep:
                return False
            v = r.choice(list(self.vec))
            ix = self.exact_index(len(self.vec[v]))
            if ix is None:
                return False
            self.emit("wdep", v, 0, ix, r.choice([0, 1]))
            self.nd += 1
            return True
        a = self.pick(dep=0.5)
        if a is None:
            return False
        if f == "strin":
            c = self.const()
            self.emit(f, a, c=c)
            self.put(a, [float(c)] * self.np, False, True)
        elif f == "strout":
            self.emit(f, a)
        elif f == "strio":
            t = self.target()
            self.emit(f, t, a)
            self.put(t, self.v[a], self.dep[a], a in self.exact)
        else:
            t = self.target()
            self.emit(f, t, a, 0, r.randrange(2))
            self.put(t, [self.v[a][0]] * self.np, False, a in self.exact)
        return True

    # ---- parameters: each has one value per evaluation point
    def mkparam(self, vals=None):
        q = self.nextv
        self.nextv += 1
        vals = vals or [self.nz() for _ in range(self.np)]
        self.emit("mkp", q, c=vals[0])
        self.pp[q] = [float(x) for x in vals]
        self.ptok.append([tok(x) for x in vals])
        return True

    def cparam(self):
        """a parameter and at once the variable that holds it"""
        if len(self.pp) >= self.maxp:
            return False
        self.mkparam()
        q = self.nextv - 1
        r = self.fresh()
        self.emit("newp", r, q)
        self.put(r, self.pp[q], False)
        return True

    def param(self):
        r = self.rng
        if not self.pp:
            return self.mkparam()
        q = r.choice(list(self.pp))
        P = self.pp[q]
        far = all(abs(x) > 0.2 for x in P)
        w = r.random()
        if w < (0.08 if self.maxp == 4 else 0.45) and len(self.pp) < self.maxp:
            return self.mkparam()
        if w < 0.45:
            f = r.choice(["add", "sub", "mul", "div"])
            F = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x / y}[f]
            form = r.choice(["rp", "pr", "pc", "cp"])
            a, c = self.pick(), self.nz()
            if a is None:
                return False
            A, C = self.v[a], [float(c)] * self.np
            left = {"rp": A, "pr": P, "pc": P, "cp": C}[form]
            right = {"rp": P, "pr": A, "pc": C, "cp": P}[form]
            if f == "div" and any(abs(x) < 0.2 for x in right):
                return False
            vals = [F(x, y) for x, y in zip(left, right)]
            if not self.ok(vals):
                return False
            t = self.target()
            self.emit({"rp": f + "p", "pr": "p" + f, "pc": f + "pc", "cp": f + "cp"}[form], t, a, q, 0, c)
            self.put(t, vals, form in ("rp", "pr") and self.dep[a], f != "div" and (form in ("pc", "cp") or a in self.exact))
            return True
        if w < 0.6:
            f = r.choice(["eqap", "eqsp", "eqmp1", "eqdp", "asgp", "newp"])
            t = self.fresh() if f == "newp" else self.pick()
            if t is None or (f == "eqdp" and not far):
                return False
            T = self.v.get(t, P)
            vals = {"eqap": [x + y for x, y in zip(T, P)], "eqsp": [x - y for x, y in zip(T, P)], "eqmp1": [x * y for x, y in zip(T, P)],
                    "eqdp": [x / y for x, y in zip(T, P)] if far else T, "asgp": P, "newp": P}[f]
            if not self.ok(vals):
                return False
            self.emit(f, t, q)
            self.put(t, vals, f not in ("asgp", "newp") and self.dep[t], f in ("asgp", "newp") or (t in self.exact and f != "eqdp"))
            return True
        if w < 0.75:
            f = r.choice(["negp", "powp", "ppow", "powpc"])
            t = self.fresh()
            if f == "negp":
                self.emit("negp", t, q)
                self.put(t, [-x for x in P], False, True)
                return True
            if f == "powpc":
                c = r.choice([Fraction(2), Fraction(3), Fraction(-1), Fraction(1, 2)])
                if any(x < 0.2 for x in P):
                    return False
                self.emit("powpc", t, 0, q, 0, c)
                self.put(t, [x ** float(c) for x in P], False)
                return self.ok(self.v[t])
            if f == "powp":
                a = self.pick(lambda v: v > 0.2)
                if a is None or any(abs(x) > 3.6 for x in P):
                    return False
                vals = [x ** y for x, y in zip(self.v[a], P)]
            else:
                a = self.pick(lambda v: abs(v) < 3)
                if a is None or any(x < 0.2 for x in P):
                    return False
                vals = [y ** x for x, y in zip(self.v[a], P)]
            if not self.ok(vals):
                return False
            self.emit(f, t, a, q)
            self.put(t, vals, self.dep[a])
            return True
        if w < 0.88:
            f = r.choice(["fminp", "pfmin", "fmaxp", "pfmax"])
            a = self.pick()
            if a is None or (a not in self.exact and any(abs(x - y) < 1e-3 for x, y in zip(self.v[a], P))):
                return False
            F = min if "min" in f else max
            t = self.target()
            self.emit(f, t, a, q)
            self.put(t, [F(x, y) for x, y in zip(self.v[a], P)], self.dep[a], a in self.exact)
            return True
        names = ["exp", "log", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "fabs", "ceil", "floor", "cbrt", "asinh", "acosh", "atanh"]
        k = r.randrange(len(names))
        f = names[k]
        if f == "fabs":
            vals = [abs(x) for x in P]
        elif f in ("ceil", "floor"):
            vals = [float(getattr(math, f)(x)) for x in P]
        else:
            if not all(UN[f][0](x) for x in P):
                return False
            vals = [UN[f][1](x) for x in P]
        if not self.ok(vals):
            return False
        t = self.target()
        self.emit("unp", t, q, 0, k)
        self.put(t, vals, False, f in ("fabs", "ceil", "floor"))
        return True

    # ---- active vectors
    def avnew(self, size=None):
        v = self.nextv
        self.nextv += 1
        n = size or self.rng.randrange(1, 5)
        self.emit("avnew", v, n)
        self.vec[v] = [[[0.0] * self.np, False, True] for _ in range(n)]
        return True

    def index(self, n):
        """a register usable as a subscript below n at every point"""
        return self.pick(lambda x: abs(x) < n, dep=0.9) if self.rng.random() < 0.7 else None

    def exact_index(self, n):
        rs = [r for r in self.v if r in self.exact and all(int(abs(x)) < n for x in self.v[r])]
        if not rs:
            return None
        d = [r for r in rs if self.dep[r]]
        return self.rng.choice(d if d and self.rng.random() < 0.8 else rs)

    def vcond(self):
        """conditional assignment to an element, or an element read afterwards"""
        return bool(self.vec) and self.vector(self.rng.choice([0.95, 0.95, 0.5]))

    def vector(self, w=None):
        r = self.rng
        if not self.vec or (len(self.vec) < 3 and r.random() < 0.06):
            return self.avnew()
        v = r.choice(list(self.vec))
        el = self.vec[v]
        n = len(el)
        w = r.random() if w is None else w
        if w < 0.22:
            i = r.randrange(n)
            if r.random() < 0.75:
                a = self.pick()
                if a is None:
                    return False
                if r.random() < 0.4:  # assign a temporary
                    self.emit("avsett", v, a, i, 0, 2)
                    el[i] = [[2 * q for q in self.v[a]], self.dep[a], a in self.exact]
                    return self.ok(el[i][0])
                self.emit("avset", v, a, i)
                el[i] = [list(self.v[a]), self.dep[a], a in self.exact]
            else:
                c = self.const()
                self.emit("avsetc", v, 0, i, 0, c)
                el[i] = [[float(c)] * self.np, False, True]
            return True
        if w < 0.3:
            i = r.randrange(n)
            t = self.target()
            self.emit("avget", t, v, i)
            self.put(t, el[i][0], el[i][1], el[i][2])
            return True
        if w < 0.33 and len(self.vec) < 3:
            q = self.nextv
            self.nextv += 1
            self.emit("avcopy", q, v)
            self.vec[q] = [[list(x[0]), x[1], x[2]] for x in el]
            return True
        if w < 0.34 and len(self.vec) < 3:
            k = r.choice([1, 2, 3])
            runs = [a for a in self.v if all(a + i in self.v for i in range(k))]
            if not runs:
                return False
            a, q = r.choice(sorted(runs)), self.nextv
            self.nextv += 1
            self.emit("avfrom", q, a, k)
            self.vec[q] = [[list(self.v[a + i]), self.dep[a + i], a + i in self.exact] for i in range(k)]
            return True
        if w < 0.345 and len(self.vec) > 1:
            q = r.choice([x for x in self.vec if x != v])
            self.emit("avass", q, v)
            self.vec[q] = [[list(x[0]), x[1], x[2]] for x in el]
            return True
        if w < 0.355 and len(self.vec) > 1:
            self.emit("avkill", v)
            del self.vec[v]
            return True
        ix = self.exact_index(n)
        if ix is None:
            return False
        I = [int(abs(x)) for x in self.v[ix]]
        cur = [el[i][0][p] for p, i in enumerate(I)]
        dep = any(e[1] for e in el)
        ex = all(e[2] for e in el)
        if w < 0.58:
            t = self.target()
            self.emit(r.choice(["rd", "rdref"]), t, v, ix)
            self.put(t, cur, dep or self.dep[ix], ex)
            return True

        def write(vals, d, e):
            for i in set(I):
                el[i] = [list(el[i][0]), el[i][1] or d, el[i][2] and e]
            for p, i in enumerate(I):
                el[i][0][p] = vals[p]
        if w < 0.92:
            f = r.choice(["wr", "wr", "wrc", "weqa", "weqs", "weqm", "weqd", "weqac", "weqsc", "weqmc", "weqdc", "winc", "wincg"] + (["wrp"] if self.pp else []))
            a, c = self.pick(), self.nz()
            if a is None:
                return False
            A, cf = self.v[a], float(c)
            k = 0
            if f == "weqd" and any(abs(x) < 0.2 for x in A):
                return False
            if f == "winc":
                k = r.randrange(4)
            if f == "wincg":
                k = 2 + r.randrange(2)
                a = self.target(0.8)
                if a == ix:
                    return False
            if f == "wrp":
                a = r.choice(list(self.pp))
                A = self.pp[a]
            s = 1 if k in (0, 2) else -1
            vals = {"wr": lambda: A, "wrp": lambda: A, "wrc": lambda: [cf] * self.np, "weqa": lambda: [x + y for x, y in zip(cur, A)], "weqs": lambda: [x - y for x, y in zip(cur, A)],
                    "weqm": lambda: [x * y for x, y in zip(cur, A)], "weqd": lambda: [x / y for x, y in zip(cur, A)], "weqac": lambda: [x + cf for x in cur],
                    "weqsc": lambda: [x - cf for x in cur], "weqmc": lambda: [x * cf for x in cur], "weqdc": lambda: [x / cf for x in cur],
                    "winc": lambda: [x + s for x in cur], "wincg": lambda: [x + s for x in cur]}[f]()
            if not self.ok(vals):
                return False
            self.emit(f, v, a, ix, k, c)
            if f == "wincg":
                self.put(a, cur, dep, ex)
                write(vals, False, True)
            elif f in ("wrp", "wrc", "winc", "weqac", "weqsc", "weqmc"):
                write(vals, False, True)
            else:
                write(vals, f != "weqdc" and self.dep[a], f not in ("weqd", "weqdc") and a in self.exact)
            return True
        if w < 0.93 and self.ni < len(self.pts[0]):
            self.emit("wind", v, 0, ix, r.choice([0, 1]), self.pts[0][self.ni])
            write([p[self.ni] for p in self.pts], True, True)
            self.ni += 1
            return True
        if w < 0.97:
            f = r.choice(["wcond", "wcondeq", "wcond2", "wcondeq2"])
            a = self.condarg()
            b, e = self.pick(), self.pick()
            if a is None or (a not in self.exact and any(abs(x) < 1e-3 for x in self.v[a])) or (max(b, e) > 999 and not f.endswith("2")):
                return False
            yes = [(x >= 0 if "eq" in f else x > 0) for x in self.v[a]]
            if f.endswith("2"):
                vals = [y if q else z for q, y, z in zip(yes, self.v[b], cur)]
                self.emit(f, v, a, ix, b)
                write(vals, self.dep[b], b in self.exact)
            else:
                vals = [y if q else z for q, y, z in zip(yes, self.v[b], self.v[e])]
                self.emit(f, v, a, ix, b * 1000 + e)
                write(vals, self.dep[b] or self.dep[e], b in self.exact and e in self.exact)
            return True
        a, b = self.pick(), self.pick(lambda x: x > 0.1)
        if a is None or b is None:
            return False
        vals = []
        for p in range(self.np):
            z = 0
            for i, e in enumerate(el):
                dd = self.v[a][p] - e[0][p] * self.v[b][p]
                if abs(dd) < 1e-3 and not (ex and a in self.exact and b in self.exact):
                    return False
                if dd > 0:
                    z = i + 1
            vals.append(float(z))
        t = self.target()
        self.emit("avlook", t, v, a, b)
        self.put(t, vals, False, True)
        return True

    def vcopy(self):
        """a block of adjacent registers copied at once"""
        rs = sorted(self.v)
        runs = [(r, k) for r in rs for k in (2, 3) if all(r + i in self.v for i in range(k))]
        if not runs:
            return False
        a, k = self.rng.choice(runs)
        t = self.next
        self.next += k
        self.emit("vcopy", t, a, k)
        for i in range(k):
            self.put(t + i, self.v[a + i], self.dep[a + i], a + i in self.exact)
        return True

    def block(self):
        """vector operations; the blocks are used before they are overwritten"""
        rs = sorted(self.v)
        k = self.rng.choice([2, 2, 3])
        runs = [r for r in rs if all(r + i in self.v for i in range(k))]
        if not runs:
            return False
        o = self.rng.choice(["vover", "vaxpy", "vdot"])
        a, b = self.rng.choice(runs), self.rng.choice(runs)
        A, Bv = [self.v[a + i] for i in range(k)], [self.v[b + i] for i in range(k)]
        P = range(len(self.pts))
        s = self.rng.randrange(k)
        dep = any(self.dep[a + i] or self.dep[b + i] for i in range(k))
        if o == "vover":
            res = [[A[i][p] * A[(i + 1) % k][p] + A[(i + s) % k][p] for p in P] for i in range(k)]
        elif o == "vaxpy":
            res = [[Bv[i][p] * Bv[(i + 1) % k][p] + A[0][p] * A[i][p] + Bv[i][p] for p in P] for i in range(k)]
        else:
            res = [[sum(A[i][p] * Bv[i][p] for i in range(k)) for p in P]]
        if not all(self.ok(v) for v in res):
            return False
        t = self.next
        self.next += len(res)
        if o == "vover":
            self.emit(o, t, a, k, s)
        else:
            self.emit(o, t, a, b, k)
        for i, v in enumerate(res):
            self.put(t + i, v, dep)
        return True

    def loop(self):
        """a checkpointed time loop over a block of adjacent registers"""
        rng = self.rng
        if not self.slots:
            return False
        K = rng.choice([1, 2, 2, 3])
        runs = [r for r in sorted(self.v) if all(r + i in self.v for i in range(K)) and any(self.dep[r + i] for i in range(K))]
        if not runs:
            return False
        a = rng.choice(runs)
        kind = rng.choice(self.loopkinds)
        steps = rng.choice([1, 1, 2, 3, 4, 5, 6, 8, 11, rng.randrange(1, 25)])
        cps = rng.choice([1, 1, 2, 2, 3, 4, 8, 30])
        c = Fraction(rng.choice([-4, -3, -2, -1, 1, 2, 3, 4]), 8)
        inp, ret = rng.random() < 0.5, rng.random() < 0.3
        res = [[] for _ in range(K)]
        for p in range(len(self.pts)):
            s = [self.v[a + i][p] for i in range(K)]
            y = list(s)
            for n in range(steps):
                z = y
                N = [z[(i + 1) % K] for i in range(K)]
                f = float(c)
                y = [f * z[i] - z[i] * N[i] / 8 + 0.25 if kind == 0 else math.sin(N[i]) + f * z[i] if kind == 1 else
                     (f * N[i] + z[i] * z[0] / 8 - 0.5 if z[0] > 0 else f * z[i] - N[i] * z[0] / 8 + 0.5) if kind == 2 else
                     abs(z[i]) - 1 + f * N[i] if kind == 3 else f * z[i] + (n + 1) * N[i] / 4 for i in range(K)]
                if not self.ok(y):
                    return False
            for i in range(K):
                res[i].append(s[i] * s[(i + 1) % K] + (y[i] if inp else y[i] * s[i]))
        if not all(self.ok(v) for v in res):
            return False
        t = self.next
        self.next += K
        slot = self.slots.pop()
        self.emit("cp", t, a, K, steps + 100 * cps + 10000 * kind + 100000 * (inp + 2 * ret) + 1000000 * slot, c)
        dep = any(self.dep[a + i] for i in range(K))
        for i, v in enumerate(res):
            self.put(t + i, v, dep)
        return True

    def extern(self):
        """a call of an external function over a block of adjacent registers"""
        rng = self.rng
        n, m = rng.choice([1, 1, 2, 2, 3, 4]), rng.choice([1, 1, 2, 2, 3])
        runs = [r for r in sorted(self.v) if all(r + i in self.v for i in range(n)) and any(self.dep[r + i] for i in range(n))]
        if not runs:
            return False
        a = rng.choice(runs)
        if self.handles and (not self.slots or rng.random() < 0.5):
            h = rng.choice(self.handles)
        elif self.slots:
            chg, nest = rng.random() < 0.3, rng.random() < 0.4
            fl = chg + 2 * nest + (8 if not chg and rng.random() < 0.5 else 0) + (16 if not nest and rng.random() < 0.5 else 0) + (32 if rng.random() < 0.4 else 0)
            h = (self.slots.pop(), rng.randrange(6), fl, Fraction(rng.choice([-4, -3, -2, -1, 1, 2, 3, 4]), 8))
            self.handles.append(h)
        else:
            return False
        slot, style, fl, c = h
        prior = not fl & 32 and rng.random() < 0.5
        v = rng.randrange(4)
        w = 1 + (v * (v + 1) // 2 if style not in (0, 2) else 0)
        res = []
        for j in range(m):
            vals = []
            for p in range(len(self.pts)):
                s = lambda i: self.v[a + i % n][p]
                y = float(c) * s(j) * s(j + 1) + (j + 1) * w * s(j)
                vals.append(y + s(j) * s(j + 1) + (s(j) / 2 + 1 if fl & 1 else s(j)) * y + (4 * s(j) ** 2 if prior else 0))
            if not self.ok(vals):
                return False
            res.append(vals)
        t = self.next
        self.next += m
        self.emit("ext", t, a, n, m + 10 * style + 100 * (fl + 4 * prior) + 10000 * v + 100000 * slot, c)
        for j in range(m):
            self.put(t + j, res[j], any(self.dep[a + i] for i in range(n)))
        return True

    def fixpoint(self):
        """a fixed-point iteration over a block of adjacent registers"""
        rng = self.rng
        du, dx = rng.choice([1, 1, 2, 2, 3]), rng.choice([1, 1, 2, 2, 3])
        runs = [r for r in sorted(self.v) if all(r + i in self.v and max(map(abs, self.v[r + i])) <= 6 for i in range(du)) and any(self.dep[r + i] for i in range(du))]
        if self.handles and (not self.slots or rng.random() < 0.3):
            slot, kind, c, du, dx = rng.choice(self.handles)
            runs = [r for r in sorted(self.v) if all(r + i in self.v and max(map(abs, self.v[r + i])) <= 6 for i in range(du)) and any(self.dep[r + i] for i in range(du))]
        elif self.slots and runs:
            slot, kind, c = self.slots.pop(), rng.choice([0, 0, 1, 2, 3]), Fraction(rng.choice([-4, -3, -2, -1, 1, 2, 3, 4]), 8)
            self.handles.append((slot, kind, c, du, dx))
        if not runs or not self.handles:
            return False
        a, fl = rng.choice(runs), rng.randrange(16)
        res = [[] for _ in range(dx)]
        f = float(c)
        for q in range(len(self.pts)):
            u = [self.v[a + i][q] for i in range(du)]
            p = lambda i: u[i % dx % du] * u[(i % dx % du + 1) % du] / 4 + u[i % dx % du] / 2 + i % dx % du / 4
            x = []
            for i in range(dx):
                w = u[i % du]
                if kind == 0:
                    x.append(sum(f ** j * p(i + j) for j in range(dx)) / (1 - f ** dx))
                elif kind == 2:
                    x.append(math.sqrt(1 / (1 + w * w) + 0.25))
                elif kind == 1 or i == 0:
                    x.append(math.sqrt(w * w + 1))
                else:
                    x.append(x[i - 1] * w / 4 / (1 - f))
            for i in range(dx):
                w = u[i % du]
                res[i].append(w * u[(i + 1) % du] + (4 * w * w if fl & 2 else 0) + x[i] * w)
        if not all(self.ok(v) for v in res):
            return False
        t = self.next
        self.next += dx
        self.emit("fp", t, a, du, dx + 10 * kind + 100 * slot + 1000 * fl, c)
        for i in range(dx):
            self.put(t + i, res[i], any(self.dep[a + j] for j in range(du)))
        return True

    def late(self):
        """an independent declared in the middle of the program"""
        if self.ni >= len(self.pts[0]):
            return False
        if self.rng.random() < 0.6 or len(self.v) < 3:
            self.ind()
        else:
            r = self.rng.choice(self.live())
            self.emit("ind", r, k=self.rng.choice([0, 1]), c=self.pts[0][self.ni])
            self.put(r, [p[self.ni] for p in self.pts], True, True)
            self.ni += 1
        return True

    def early(self):
        """a dependent declared before the end; the variable may be used again"""
        r = self.pick()
        if r is None or self.nd >= self.maxdep:
            return False
        self.emit("dep", r, k=self.rng.choice([0, 0, 1]))
        self.nd += 1
        return True

    def scaling(self):
        """multiplication by powers of two with active exponents"""
        r = self.rng
        a, b = self.pick(), self.pick(lambda v: abs(v) < 4)
        if a is None or b is None:
            return False
        if r.random() < 0.5:
            c = self.nz()
            vals = [float(c) * 2.0 ** x for x in self.v[b]]
            t = self.target()
            self.emit("cldexp", t, b, 0, 0, c)
            dep = self.dep[b]
        else:
            vals = [x * 2.0 ** y for x, y in zip(self.v[a], self.v[b])]
            t = self.target()
            self.emit("ldexpr", t, a, b)
            dep = self.dep[a] or self.dep[b]
        self.put(t, vals, dep)
        return self.ok(vals)

    # ---- program
    def dependents(self, m, k=None, reuse=False):
        rs = [r for r in self.v if self.dep[r]] or self.live()
        self.rng.shuffle(rs)
        rs = rs[:m] if len(rs) >= m or not rs else rs + [None] * (m - len(rs))
        for r in rs:
            if r is None:
                # dependents must be distinct variables
                s = self.pick()
                r = self.fresh()
                self.emit("copy", r, s)
                self.put(r, self.v[s], self.dep[s], s in self.exact)
            self.emit("dep", r, k=(self.rng.choice([0, 0, 1]) if k is None else k))
            self.nd += 1

    def body(self, nops, weights):
        fams = list(weights)
        ws = [weights[f] for f in fams]
        done = tries = 0
        while done < nops and tries < nops * 20:
            tries += 1
            mark = len(self.out)
            snap = (dict(self.v), dict(self.dep), set(self.exact), self.next, self.nextv, dict(self.pp), list(self.ptok),
                    {k: [[list(e[0]), e[1], e[2]] for e in x] for k, x in self.vec.items()}, self.ni, self.nd, list(self.slots), list(self.handles))
            if getattr(self, self.rng.choices(fams, ws)[0])() and (self.allow is None or all(i[0] in self.allow for i in self.out[mark:])):
                done += 1
            else:
                del self.out[mark:]
                self.v, self.dep, self.exact, self.next, self.nextv, self.pp, self.ptok, self.vec, self.ni, self.nd, self.slots[:], self.handles[:] = snap

    def take(self):
        o, self.out = self.out, []
        return o

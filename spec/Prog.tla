------------------------------- MODULE Prog -------------------------------
(***************************************************************************)
(* Meaning of the straight-line programs users write with active           *)
(* variables.  A register holds a jet                                      *)
(*     [v |-> series, t |-> tangents]                                      *)
(* v: the Taylor series of the variable along the current input path;      *)
(* t: <<>> if the variable depends on no independent, else one entry per   *)
(*    independent, <<>> (no dependence) or the series of the partial       *)
(*    derivative along the path.  The tangents are the exact Jacobian      *)
(*    series A(t): both forward derivatives (A(0) X) and all reverse       *)
(*    derivatives (U^T A(t)) are read off them.                            *)
(*                                                                         *)
(* The same Step gives the meaning of recording (degree 0, no tangents,    *)
(* branches decided here and noted in cv) and of evaluating the recorded   *)
(* instruction list at another point (branches compared with cv, result    *)
(* reported through the return code).                                      *)
(***************************************************************************)
EXTENDS Series, FiniteSets

JC(c, d) == [v |-> SConst(c, d), t |-> <<>>]
JNaR(x) == [v |-> SNaR(Len(x.v) - 1), t |-> x.t]

(* ---- tangents --------------------------------------------------------- *)
TMul(f, t) == IF t = <<>> THEN <<>> ELSE TLCEval([i \in 1..Len(t) |-> IF t[i] = <<>> THEN <<>> ELSE SMul(f, t[i])])
TMap(F(_), t) == IF t = <<>> THEN <<>> ELSE TLCEval([i \in 1..Len(t) |-> IF t[i] = <<>> THEN <<>> ELSE F(t[i])])
TZip(F(_, _), s, t) ==
  IF s = <<>> THEN t ELSE IF t = <<>> THEN s ELSE
  TLCEval([i \in 1..Len(t) |-> IF s[i] = <<>> THEN t[i] ELSE IF t[i] = <<>> THEN s[i] ELSE F(s[i], t[i])])
TAdd(s, t) == TZip(SAdd, s, t)
TNeg(t) == TMap(SNeg, t)
TNaR(t) == TMap(LAMBDA s : SNaR(Len(s) - 1), t)

(* ---- smooth operations ------------------------------------------------- *)
JNeg(x) == [v |-> SNeg(x.v), t |-> TNeg(x.t)]
JAdd(x, y) == [v |-> SAdd(x.v, y.v), t |-> TAdd(x.t, y.t)]
JSub(x, y) == [v |-> SSub(x.v, y.v), t |-> TAdd(x.t, TNeg(y.t))]
JMul(x, y) == [v |-> SMul(x.v, y.v), t |-> TAdd(TMul(y.v, x.t), TMul(x.v, y.t))]
JDiv(x, y) ==
  LET q == SDiv(x.v, y.v)
      r == SRecip(y.v)
  IN  [v |-> q, t |-> TAdd(TMul(r, x.t), TMul(SNeg(SMul(q, r)), y.t))]
JScale(c, x) == [v |-> SScale(c, x.v), t |-> TMap(LAMBDA s : SScale(c, s), x.t)]
JShift(x, c) == [v |-> SShift(x.v, c), t |-> x.t]
(* outside its domain a function has neither values nor derivatives *)
JUn(f, x) == LET p == UnPair(f, x.v) IN
             IF NIs(p[1][1]) THEN [v |-> p[1], t |-> TMul(p[2], x.t)]
             ELSE [v |-> SNaR(Len(x.v) - 1), t |-> TNaR(x.t)]
(* x^0 at zero: the value is one; what its derivatives are is left open *)
PowOpen(x, c) == NExact(c) /\ NSign(c) = 0 /\ NExact(x.v[1]) /\ NSign(x.v[1]) = 0
JPowC(x, c) ==
  IF PowOpen(x, c) THEN [v |-> [k \in DOMAIN x.v |-> IF k = 1 THEN S1 ELSE NaR], t |-> TNaR(x.t)] ELSE
  [v |-> SPowC(x.v, c),
   t |-> IF x.t = <<>> THEN <<>> ELSE IF NExact(c) /\ NSign(c) = 0 THEN TMul(SZero(x.v), x.t)
         ELSE TMul(SScale(c, SPowC(x.v, NSub(c, S1))), x.t)]
JExp(x) == JUn("exp", x)
JPow(x, y) == JExp(JMul(JUn("log", x), y))
JCPow(c, x) == JExp(JScale(NFun("log", c), x))
JAtan2(y, x) ==
  LET r2 == SAdd(SSqr(x.v), SSqr(y.v))
      g == SDiv(SSub(SMul(x.v, SD(y.v)), SMul(y.v, SD(x.v))), r2)
  IN  [v |-> SInt(NAtan2(y.v[1], x.v[1]), g),
       t |-> TAdd(TMul(SDiv(x.v, r2), y.t), TMul(SNeg(SDiv(y.v, r2)), x.t))]
(* frozen: value kept, no derivative (rounding functions) *)
JStep(f, x) == [v |-> SConst(NFun(f, x.v[1]), Len(x.v) - 1), t |-> TMap(SZero, x.t)]

(* ---- kinks -------------------------------------------------------------- *)
(* sign of a series for small positive values of its variable *)
FirstSign(s) == FoldLeft(LAMBDA a, c : IF a /= 0 THEN a ELSE NSign(c), 0, s)
JAbs(x) ==
  LET g == FirstSign(x.v)
      g0 == NSign(x.v[1])
  IN  [v |-> CASE g = 1 -> x.v [] g = -1 -> SNeg(x.v) [] g = 0 -> SZero(x.v) [] OTHER -> SNaR(Len(x.v) - 1),
       t |-> CASE g0 = 1 -> x.t [] g0 = -1 -> TNeg(x.t) [] OTHER -> TNaR(x.t)]
JMin(x, y, same) ==
  LET dif == SSub(x.v, y.v)
      g == FirstSign(dif)
      g0 == NSign(dif[1])
      w == IF g \in {-1, 0} THEN x.v ELSE IF g = 1 THEN y.v ELSE SNaR(Len(x.v) - 1)
  IN  [v |-> w,
       t |-> IF same THEN x.t ELSE CASE g0 = -1 -> x.t [] g0 = 1 -> y.t [] OTHER -> TNaR(TAdd(x.t, y.t))]

Min2(a, b) == IF a < b THEN a ELSE b
Min2N(a, b) == IF NCmp(a, b) = 1 THEN b ELSE a

(* ---- comparisons -------------------------------------------------------- *)
(* relation w on the sign g of (left - right) *)
Holds(w, g) == CASE w = 0 -> g < 0 [] w = 1 -> g <= 0 [] w = 2 -> g > 0 [] w = 3 -> g >= 0 [] w = 4 -> g = 0 [] w = 5 -> g /= 0
(* A recorded comparison is stored as the relation that held; a tie is
   reported only for the relations that include equality. *)
Stored(w, o) == CASE w = 0 -> (IF o THEN 0 ELSE 3) [] w = 1 -> (IF o THEN 1 ELSE 2) [] w = 2 -> (IF o THEN 2 ELSE 1)
                  [] w = 3 -> (IF o THEN 3 ELSE 0) [] w = 4 -> (IF o THEN 4 ELSE 5) [] w = 5 -> (IF o THEN 5 ELSE 4)

(* ---- machine ------------------------------------------------------------ *)
Machine(R, V, P, par, xs, d, rec, mm) ==
  [R |-> R, V |-> V, P |-> P, np |-> IF rec THEN Len(par) ELSE 0, par |-> par, xs |-> xs, ni |-> 0, d |-> d, rec |-> rec, mm |-> mm,
   out |-> <<>>, rc |-> 3, stop |-> FALSE, unk |-> FALSE, err |-> FALSE, skip |-> 0, exe |-> <<>>,
   on |-> <<>>, oi |-> <<>>, sw |-> <<>>, nan |-> FALSE, weak |-> FALSE, noho |-> FALSE, tie |-> FALSE, pl |-> <<>>]

(* nan: some intermediate value is not a real number; nothing is claimed about adjoints then *)
Set(st, r, j) == [st EXCEPT !.R = (r :> j) @@ @, !.nan = @ \/ ~NIs(j.v[1])]
Rc(st, c) == [st EXCEPT !.rc = Min2(@, c)]
(* a kink met exactly, whether or not the path crosses it *)
Tie(st, b) == IF b THEN [st EXCEPT !.tie = TRUE] ELSE st
Unk(st) == [st EXCEPT !.unk = TRUE]
(* composed of internal conditional assignments, which may lower the code further *)
Weak(st) == [st EXCEPT !.weak = TRUE]
(* offered by the first-order sweeps only *)
NoHo(st) == [st EXCEPT !.noho = TRUE]
Rec(st, x, cv) == IF st.rec THEN [st EXCEPT !.exe = Append(@, x @@ [cv |-> cv])] ELSE st

(* a kink evaluated with sign g0 at the base point, gd along the path.
   pl = <<n, n + s>>: the k-th absolute value counts as an independent of its own, number n + k *)
Abs(st, x, r, j) ==
  LET g0 == NSign(j.v[1])
      g == FirstSign(j.v)
      a == IF st.pl = <<>> THEN JAbs(j)
           ELSE [v |-> JAbs(j).v, t |-> [i \in 1..st.pl[2] |-> IF i = st.pl[1] + Len(st.sw) + 1 THEN SConst(S1, st.d) ELSE <<>>]]
      s1 == Rec(Set([Tie(st, g0 = 0) EXCEPT !.sw = Append(@, j)], r, a), x, IF g0 = -1 THEN 0 ELSE 1)
  IN  IF st.rec THEN IF g0 = 2 THEN Unk(s1) ELSE s1
      ELSE IF g0 = 2 \/ g = 2 THEN Unk(s1)
      ELSE IF (g0 = -1 /\ x.cv = 1) \/ (g0 = 1 /\ x.cv = 0) THEN Rc(s1, 2)
      ELSE IF g0 = 0 /\ g /= 0 THEN Rc(s1, 1) ELSE s1
MinOp(st, x, r, a, b, neg, same) ==
  LET g0 == NCmp(a.v[1], b.v[1])
      w == JMin(a, b, same)
      s1 == Rec(Set(Tie(st, g0 \in {0, 2}), r, IF neg THEN JNeg(w) ELSE w), x, IF g0 = 1 THEN 0 ELSE 1)
  IN  IF g0 = 2 /\ ~same THEN Unk(s1)
      ELSE IF st.rec THEN s1
      ELSE IF (g0 = 1 /\ x.cv = 1) \/ (g0 = -1 /\ x.cv = 0) THEN Rc(s1, 2)
      ELSE IF g0 = 0 /\ ~same THEN Rc(s1, 1) ELSE s1
(* min expressed through the absolute value, as for abs-normal forms *)
MinAbs(st, x, r, a, b, neg) ==
  LET s1 == Abs(st, x, r, JSub(a, b))
      w == JScale(SHalf, JSub(JAdd(a, b), s1.R[r]))
  IN  Set(s1, r, IF neg THEN JNeg(w) ELSE w)
Minimum(st, x, r, a, b, same) == IF st.mm THEN MinAbs(st, x, r, a, b, FALSE) ELSE MinOp(st, x, r, a, b, FALSE, same)
Maximum(st, x, r, a, b) == IF st.mm THEN MinAbs(st, x, r, JNeg(a), JNeg(b), TRUE) ELSE MinOp(st, x, r, JNeg(a), JNeg(b), TRUE, FALSE)

(* conditional assignment: strict / non-strict test of c; two = both branches given *)
CondRc(st, x, g, eq, two) ==
  LET yes == IF eq THEN g >= 0 ELSE g > 0
      was == IF eq THEN x.cv >= 0 ELSE x.cv > 0
      s1 == IF yes /= was /\ (yes \/ two) THEN Rc(st, 2) ELSE st
  IN  IF g = 0 /\ ~eq THEN Rc(s1, 0) ELSE s1
Cond(st, x, c, eq, two, Assign(_, _)) ==
  LET g == NSign(c.v[1])
      s0 == Rec(Tie(st, g = 0), x, g)
      s1 == IF st.rec THEN s0 ELSE CondRc(s0, x, g, eq, two)
  IN  IF g = 2 THEN Unk(s1) ELSE Assign(s1, IF eq THEN g >= 0 ELSE g > 0)

(* a branch on the sign of dif = left - right *)
Branch(st, x, w, dif, n) ==
  LET g == NSign(dif.v[1]) IN
  IF g = 2 THEN [Unk(st) EXCEPT !.stop = TRUE]
  ELSE IF st.rec THEN
     LET o == Holds(w, g)
         s1 == [Rec(st, x, Stored(w, o)) EXCEPT !.oi = Append(@, IF o THEN 1 ELSE 0)]
     IN  IF o THEN s1 ELSE [s1 EXCEPT !.skip = n]
  ELSE IF ~Holds(x.cv, g) THEN [st EXCEPT !.rc = -1, !.stop = TRUE]
  ELSE IF g = 0 /\ x.cv \in {1, 3, 4} THEN Rc(st, 0) ELSE st

IndexOf(j) == NTrunc(IF NSign(j.v[1]) = -1 THEN NNeg(j.v[1]) ELSE j.v[1]) + 1
IndexOk(j) == NIs(j.v[1]) /\ (NExact(j.v[1]) \/ NIs(NFun("floor", j.v[1])))

BinOps == {"add", "sub", "mul", "div"}
BinF(f, x, y) == CASE f = "add" -> JAdd(x, y) [] f = "sub" -> JSub(x, y) [] f = "mul" -> JMul(x, y) [] f = "div" -> JDiv(x, y)
(* composed names: <<result name, operation, left kind, right kind>>;
   r register, c constant, p parameter *)
BinName == [n \in {"add", "sub", "mul", "div", "addc", "subc", "mulc", "divc", "cadd", "csub", "cmul", "cdiv",
                   "addp", "subp", "mulp", "divp", "padd", "psub", "pmul", "pdiv",
                   "addpc", "subpc", "mulpc", "divpc", "addcp", "subcp", "mulcp", "divcp"} |->
   CASE n = "add" -> <<"add", "r", "r">> [] n = "sub" -> <<"sub", "r", "r">> [] n = "mul" -> <<"mul", "r", "r">> [] n = "div" -> <<"div", "r", "r">>
     [] n = "addc" -> <<"add", "r", "c">> [] n = "subc" -> <<"sub", "r", "c">> [] n = "mulc" -> <<"mul", "r", "c">> [] n = "divc" -> <<"div", "r", "c">>
     [] n = "cadd" -> <<"add", "c", "r">> [] n = "csub" -> <<"sub", "c", "r">> [] n = "cmul" -> <<"mul", "c", "r">> [] n = "cdiv" -> <<"div", "c", "r">>
     [] n = "addp" -> <<"add", "r", "p">> [] n = "subp" -> <<"sub", "r", "p">> [] n = "mulp" -> <<"mul", "r", "p">> [] n = "divp" -> <<"div", "r", "p">>
     [] n = "padd" -> <<"add", "p", "r">> [] n = "psub" -> <<"sub", "p", "r">> [] n = "pmul" -> <<"mul", "p", "r">> [] n = "pdiv" -> <<"div", "p", "r">>
     [] n = "addpc" -> <<"add", "p", "c">> [] n = "subpc" -> <<"sub", "p", "c">> [] n = "mulpc" -> <<"mul", "p", "c">> [] n = "divpc" -> <<"div", "p", "c">>
     [] n = "addcp" -> <<"add", "c", "p">> [] n = "subcp" -> <<"sub", "c", "p">> [] n = "mulcp" -> <<"mul", "c", "p">> [] n = "divcp" -> <<"div", "c", "p">>]
BinNames == DOMAIN BinName

UnpName == <<"exp", "log", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh",
             "fabs", "ceil", "floor", "cbrt", "asinh", "acosh", "atanh">>

(* one step of a time loop on the state y; n = number of the step, from 0 *)
LoopStep(kind, C, y, n) ==
  LET K == Len(y)
      d == Len(y[1].v) - 1
      nx(i) == y[(i % K) + 1]
      cst(a) == JC(a, d)
      eighth == NDiv(S1, NInt(8))
      quarter == NDiv(S1, NInt(4))
      g == NSign(y[1].v[1])
  IN  [i \in 1..K |->
        CASE kind = 0 -> JShift(JSub(JScale(C, y[i]), JScale(eighth, JMul(y[i], nx(i)))), quarter)
          [] kind = 1 -> JAdd(JUn("sin", nx(i)), JScale(C, y[i]))
          [] kind = 2 -> IF g = 2 THEN JNaR(y[i])
                         ELSE IF g = 1 THEN JShift(JAdd(JScale(C, nx(i)), JScale(eighth, JMul(y[i], y[1]))), NNeg(SHalf))
                         ELSE JShift(JSub(JScale(C, y[i]), JScale(eighth, JMul(nx(i), y[1]))), SHalf)
          [] kind = 3 -> JAdd(JShift(JAbs(y[i]), NNeg(S1)), JScale(C, nx(i)))
          [] OTHER -> JAdd(JScale(C, y[i]), JScale(NMul(NInt(n + 1), quarter), nx(i)))]
Loop(kind, C, y, steps) == FoldLeft(LAMBDA z, n : TLCEval(LoopStep(kind, C, z, n - 1)), y, [n \in 1..steps |-> n])

(* ---- fixed points of x = F(x, u), where F(x, u)_i is
     0: c x_(i+1) + p_i(u), p_i(u) = u_i u_(i+1)/4 + u_i/2 + i/4, indices modulo the dimensions
     1: (x_i + (u_i^2 + 1)/x_i)/2
     2: x_i - (x_i^2 - w_i)/2, w_i = 1/(1 + u_i^2) + 1/4
     3: as 1 for i = 0, else c x_i + x_(i-1) u_i/4                                *)
JBlur(x) == [v |-> TLCEval([i \in DOMAIN x.v |-> NBlur(x.v[i])]),
             t |-> TMap(LAMBDA s : TLCEval([i \in DOMAIN s |-> NBlur(s[i])]), x.t)]
RECURSIVE NIPow(_, _), FixTri(_, _, _, _, _)
NIPow(c, k) == IF k = 0 THEN S1 ELSE NMul(c, NIPow(c, k - 1))
FixTri(c, dx, du, u, x) ==
  IF Len(x) = dx THEN x
  ELSE FixTri(c, dx, du, u, Append(x, JScale(NDiv(S1, NMul(NInt(4), NSub(S1, c))), JMul(x[Len(x)], u[Len(x) % du]))))
FixedPoint(kind, c, dx, du, u, d) ==
  LET p(i) == LET a == u[(i % dx) % du] IN
              JShift(JAdd(JScale(NDiv(S1, NInt(4)), JMul(a, u[(((i % dx) % du) + 1) % du])), JScale(NDiv(S1, S2), a)),
                     NDiv(NInt((i % dx) % du), NInt(4)))
      root(i) == JUn("sqrt", JShift(JMul(u[i % du], u[i % du]), S1))
      half(i) == JUn("sqrt", JShift(JDiv(JC(S1, d), JShift(JMul(u[i % du], u[i % du]), S1)), NDiv(S1, NInt(4))))
  IN  CASE kind = 0 -> [i \in 0..(dx - 1) |->
             JScale(NDiv(S1, NSub(S1, NIPow(c, dx))),
                    FoldLeft(LAMBDA s, j : JAdd(s, JScale(NIPow(c, j - 1), p(i + j - 1))), JC(S0, d), [j \in 1..dx |-> j]))]
        [] kind = 1 -> [i \in 0..(dx - 1) |-> root(i)]
        [] kind = 2 -> [i \in 0..(dx - 1) |-> half(i)]
        [] OTHER -> LET x == FixTri(c, dx, du, u, <<root(0)>>) IN [i \in 0..(dx - 1) |-> x[i + 1]]

Step(st, x) ==
  IF st.stop \/ st.err \/ st.unk THEN st
  ELSE IF st.skip > 0 THEN [st EXCEPT !.skip = @ - 1]
  ELSE
  LET o == x.op
      d == st.d
      C == NConv(x.c)
      g(i) == st.R[i]
      par(i) == JC(st.par[st.P[i]], d)
      opnd(kind, i) == CASE kind = "r" -> g(i) [] kind = "c" -> JC(C, d) [] kind = "p" -> par(i)
      plain(j) == Rec(Set(st, x.r, j), x, 0)
      setV(w, i, j) == [w EXCEPT !.V[x.r][i] = j, !.nan = @ \/ ~NIs(j.v[1])]
      vec(w) == st.V[w]
      idx == IndexOf(g(x.b))
      inRange(w) == idx >= 1 /\ idx <= Len(vec(w))
      upd(j) == IF ~IndexOk(g(x.b)) THEN Unk(st) ELSE IF ~inRange(x.r) THEN [st EXCEPT !.err = TRUE]
                ELSE Rec(setV(st, idx, j), x, 0)
      old == vec(x.r)[idx]
  IN
  CASE o = "cbrt" -> NoHo(plain(JUn(o, g(x.a))))
    [] o \in UnOps -> plain(JUn(o, g(x.a)))
    [] o \in BinNames -> LET b == BinName[o]
                             l == IF b[2] = "p" THEN x.b ELSE x.a
                             r == IF b[3] = "r" /\ b[2] /= "r" THEN x.a ELSE x.b
                         IN  plain(BinF(b[1], opnd(b[2], l), opnd(b[3], r)))
    [] o \in {"asg", "copy", "strio"} -> plain(g(x.a))
    [] o \in {"asgc", "newc", "strin"} -> plain(JC(C, d))
    [] o = "new" -> plain(JC(S0, d))
    [] o = "setval" -> Set(st, x.r, JC(C, d))
    [] o = "val" -> [st EXCEPT !.on = Append(@, g(x.r).v[1])]
    [] o = "ind" -> LET j == IF st.rec THEN JC(C, d) ELSE st.xs[st.ni + 1]
                    IN  [plain(j) EXCEPT !.ni = @ + 1, !.xs = IF st.rec THEN Append(@, C) ELSE @]
    [] o = "dep" -> Rec([st EXCEPT !.out = Append(@, g(x.r)), !.on = IF st.rec THEN Append(@, g(x.r).v[1]) ELSE @], x, 0)
    [] o = "kill" -> [st EXCEPT !.R = [i \in DOMAIN @ \ {x.r} |-> @[i]]]
    [] o = "move" -> [plain(g(x.a)) EXCEPT !.R = [i \in DOMAIN @ \ {x.a} |-> @[i]]]
    [] o = "eqa" -> plain(JAdd(g(x.r), g(x.a)))
    [] o = "eqs" -> plain(JSub(g(x.r), g(x.a)))
    [] o = "eqm" -> plain(JMul(g(x.r), g(x.a)))
    [] o = "eqd" -> plain(JDiv(g(x.r), g(x.a)))
    [] o = "eqac" -> plain(JShift(g(x.r), C))
    [] o = "eqsc" -> plain(JShift(g(x.r), NNeg(C)))
    [] o = "eqmc" -> plain(JScale(C, g(x.r)))
    [] o = "eqdc" -> plain(JScale(NDiv(S1, C), g(x.r)))
    [] o = "eqp" -> plain(JAdd(g(x.r), JMul(g(x.a), g(x.b))))
    [] o = "eqmp" -> plain(JSub(g(x.r), JMul(g(x.a), g(x.b))))
    [] o = "incpre" -> plain(JShift(g(x.r), S1))
    [] o = "decpre" -> plain(JShift(g(x.r), NNeg(S1)))
    [] o = "incpost" -> Rec(Set(Set(st, x.r, g(x.a)), x.a, JShift(g(x.a), S1)), x, 0)
    [] o = "decpost" -> Rec(Set(Set(st, x.r, g(x.a)), x.a, JShift(g(x.a), NNeg(S1))), x, 0)
    [] o = "powc" -> plain(JPowC(g(x.a), C))
    [] o = "cpow" -> Weak(plain(JCPow(C, g(x.a))))
    [] o = "pow" -> Weak(plain(JPow(g(x.a), g(x.b))))
    [] o = "atan2" -> Weak(plain(JAtan2(g(x.a), g(x.b))))
    [] o = "ldexp" -> plain(JScale(NPow(S2, NInt(x.b)), g(x.a)))
    [] o = "ldexpr" -> plain(JMul(g(x.a), JCPow(S2, g(x.b))))
    [] o = "cldexp" -> plain(JScale(C, JCPow(S2, g(x.a))))
    [] o \in {"ceil", "floor"} ->
         LET j == JStep(o, g(x.a))
             s1 == Rec(Set(st, x.r, j), x, j.v[1])
         IN  IF ~NIs(j.v[1]) THEN Unk(s1) ELSE IF ~st.rec /\ NCmp(x.cv, j.v[1]) /= 0 THEN Rc(s1, 2) ELSE s1
    (* what is printed reads as the value *)
    [] o = "strout" -> IF st.rec THEN [st EXCEPT !.on = Append(@, g(x.r).v[1]), !.oi = Append(@, 1)] ELSE st
    (* mantissa and exponent are numbers: the value put together from them belongs to the recorded point *)
    [] o = "frexp" -> LET v == IF st.rec THEN g(x.a).v[1] ELSE x.cv
                          s1 == Rec(Set(st, x.r, JC(v, d)), x, v)
                      IN  IF st.rec THEN [s1 EXCEPT !.oi = Append(@, IF NIs(v) THEN 1 ELSE 2)] ELSE s1
    [] o = "fabs" -> Abs(st, x, x.r, g(x.a))
    [] o \in {"fmin", "min"} -> Minimum(st, x, x.r, g(x.a), g(x.b), x.a = x.b /\ x.k = 0)
    [] o \in {"fmax", "max"} -> Maximum(st, x, x.r, g(x.a), g(x.b))
    [] o \in {"fminc", "minc"} -> Minimum(st, x, x.r, g(x.a), JC(C, d), FALSE)
    [] o \in {"fmaxc", "maxc"} -> Maximum(st, x, x.r, g(x.a), JC(C, d))
    [] o \in {"cfmin", "cmin"} -> Minimum(st, x, x.r, JC(C, d), g(x.a), FALSE)
    [] o \in {"cfmax", "cmax"} -> Maximum(st, x, x.r, JC(C, d), g(x.a))
    [] o = "cond" -> Cond(st, x, g(x.a), FALSE, TRUE, LAMBDA s, b : Set(s, x.r, IF b THEN g(x.b) ELSE g(x.k)))
    [] o = "cond2" -> Cond(st, x, g(x.a), FALSE, FALSE, LAMBDA s, b : IF b THEN Set(s, x.r, g(x.b)) ELSE s)
    [] o = "condeq" -> Cond(st, x, g(x.a), TRUE, TRUE, LAMBDA s, b : Set(s, x.r, IF b THEN g(x.b) ELSE g(x.k)))
    [] o = "condeq2" -> Cond(st, x, g(x.a), TRUE, FALSE, LAMBDA s, b : IF b THEN Set(s, x.r, g(x.b)) ELSE s)
    [] o = "br" -> Branch(st, x, x.k, JSub(g(x.a), g(x.b)), x.r)
    [] o = "brc" -> Branch(st, x, x.k, JShift(g(x.a), NNeg(C)), x.r)
    [] o = "cbr" -> Branch(st, x, x.k, JNeg(JShift(g(x.a), NNeg(C))), x.r)
    [] o = "brp" -> Branch(st, x, x.k, JSub(g(x.a), par(x.b)), x.r)
    [] o = "pbr" -> Branch(st, x, x.k, JSub(par(x.b), g(x.a)), x.r)
    [] o = "vcopy" -> Rec([st EXCEPT !.R = [i \in x.r..(x.r + x.b - 1) |-> st.R[x.a + i - x.r]] @@ @], x, 0)
    (* operations on blocks of variables that are overwritten afterwards *)
    [] o = "vover" -> LET q(i) == JAdd(JMul(g(x.a + i), g(x.a + ((i + 1) % x.b))), g(x.a + ((i + x.k) % x.b)))
                      IN  Rec([st EXCEPT !.R = TLCEval([i \in x.r..(x.r + x.b - 1) |-> q(i - x.r)]) @@ @], x, 0)
    [] o = "vaxpy" -> LET q(i) == JAdd(JMul(g(x.b + i), g(x.b + ((i + 1) % x.k))), JAdd(JMul(g(x.a), g(x.a + i)), g(x.b + i)))
                      IN  Rec([st EXCEPT !.R = TLCEval([i \in x.r..(x.r + x.k - 1) |-> q(i - x.r)]) @@ @], x, 0)
    [] o = "vdot" -> plain(FoldLeft(LAMBDA s, i : JAdd(s, JMul(g(x.a + i - 1), g(x.b + i - 1))), JC(S0, d), [i \in 1..x.k |-> i]))
    (* a time loop recorded as one operation; its state is used before and afterwards *)
    [] o = "cp" -> LET K == x.b
                       s == TLCEval([i \in 1..K |-> g(x.a + i - 1)])
                       z == Loop((x.k \div 10000) % 10, C, s, x.k % 100)
                       q(i) == JMul(s[i], s[(i % K) + 1])
                       w == TLCEval([i \in 1..K |-> JAdd(q(i), IF (x.k \div 100000) % 2 = 1 THEN z[i] ELSE JMul(z[i], s[i]))])
                   IN  IF \E i \in 1..K : ~NIs(z[i].v[1]) THEN Unk(st)
                       ELSE Weak(NoHo(Rec([st EXCEPT !.R = TLCEval([i \in x.r..(x.r + K - 1) |-> w[i - x.r + 1]]) @@ @,
                                                !.tie = @ \/ (\E i \in 1..K : \E l \in DOMAIN z[i].t : z[i].t[l] # <<>> /\ ~NIs(z[i].t[l][1]))], x, 0)))
    (* a call of an external function y_j = c s_j s_(j+1) + (j+1) w s_j, which may overwrite its arguments by
       s/2 + 1; the callback's return value is reported when recording and bounds that of first-order sweeps.
       arguments, their new values and earlier values of the outputs are used around the call *)
    [] o = "ext" -> LET n == x.b
                        m == x.k % 10
                        style == (x.k \div 10) % 10
                        flags == (x.k \div 100) % 100
                        v == (x.k \div 10000) % 10
                        ret == IF (x.k \div 100000) % 2 = 1 THEN 2 ELSE 3
                        w == NInt(IF style \in {0, 2} THEN 1 ELSE 1 + (v * (v + 1)) \div 2)
                        s(j) == g(x.a + (j % n))
                        y == TLCEval([j \in 0..(m - 1) |-> JAdd(JScale(C, JMul(s(j), s(j + 1))), JScale(NMul(NInt(j + 1), w), s(j)))])
                        after(j) == IF flags % 2 = 1 THEN JShift(JScale(NDiv(S1, S2), s(j)), S1) ELSE s(j)
                        before(j) == IF (flags \div 4) % 2 = 1 THEN JScale(NInt(4), JMul(s(j), s(j))) ELSE JC(S0, d)
                        z(j) == JAdd(JAdd(JAdd(y[j], JMul(s(j), s(j + 1))), JMul(after(j), y[j])), before(j))
                        s1 == [st EXCEPT !.R = TLCEval([i \in x.r..(x.r + m - 1) |-> z(i - x.r)]) @@ @,
                                         !.on = IF st.rec THEN Append(@, NInt(ret)) ELSE @]
                    IN  NoHo(Rec(IF st.rec THEN s1 ELSE Rc(s1, ret), x, 0))
    (* an iteration x := F(x, u) run to its fixed point, whose derivatives do not depend on the start;
       the parameters are used around it, as is what the result variables held before *)
    [] o = "fp" -> LET du == x.b
                       dx == x.k % 10
                       u(i) == g(x.a + (i % du))
                       z == FixedPoint((x.k \div 10) % 10, C, dx, du, TLCEval([i \in 0..(du - 1) |-> u(i)]), d)
                       y == TLCEval([i \in 0..(dx - 1) |-> JBlur(z[i])])
                       before(i) == IF (x.k \div 2000) % 2 = 1 THEN JScale(NInt(4), JMul(u(i), u(i))) ELSE JC(S0, d)
                       w == TLCEval([i \in 0..(dx - 1) |-> JAdd(JAdd(JMul(u(i), u(i + 1)), before(i)), JMul(y[i], u(i)))])
                   IN  Weak(NoHo(Rec([st EXCEPT !.R = TLCEval([i \in x.r..(x.r + dx - 1) |-> w[i - x.r]]) @@ @], x, 0)))
    (* active vectors *)
    [] o = "avnew" -> Rec([st EXCEPT !.V = (x.r :> [i \in 1..x.a |-> JC(S0, d)]) @@ @], x, 0)
    [] o = "avcopy" -> Rec([st EXCEPT !.V = (x.r :> st.V[x.a]) @@ @], x, 0)
    [] o = "avkill" -> [st EXCEPT !.V = [i \in DOMAIN @ \ {x.r} |-> @[i]]]
    (* assigned from a temporary, made of single variables, assigned as a whole *)
    [] o = "avsett" -> Rec(setV(st, x.b + 1, JScale(C, g(x.a))), x, 0)
    [] o = "avfrom" -> Rec([st EXCEPT !.V = (x.r :> [i \in 1..x.b |-> g(x.a + i - 1)]) @@ @], x, 0)
    [] o = "avass" -> Rec([st EXCEPT !.V = (x.r :> st.V[x.a]) @@ @], x, 0)
    [] o = "avset" -> Rec(setV(st, x.b + 1, g(x.a)), x, 0)
    [] o = "avsetc" -> Rec(setV(st, x.b + 1, JC(C, d)), x, 0)
    [] o = "avind" -> LET j == IF st.rec THEN JC(C, d) ELSE st.xs[st.ni + 1]
                      IN  [Rec(setV(st, x.b + 1, j), x, 0) EXCEPT !.ni = @ + 1, !.xs = IF st.rec THEN Append(@, C) ELSE @]
    [] o = "wind" -> LET j == IF st.rec THEN JC(C, d) ELSE st.xs[st.ni + 1]
                         s1 == upd(j)
                     IN  IF s1.err \/ s1.unk THEN s1 ELSE [s1 EXCEPT !.ni = @ + 1, !.xs = IF st.rec THEN Append(@, C) ELSE @]
    [] o = "avget" -> plain(vec(x.a)[x.b + 1])
    [] o \in {"rd", "rdref"} -> IF ~IndexOk(g(x.b)) THEN Unk(st) ELSE IF ~inRange(x.a) THEN [st EXCEPT !.err = TRUE] ELSE plain(vec(x.a)[idx])
    [] o = "wdep" -> IF ~IndexOk(g(x.b)) THEN Unk(st) ELSE IF ~inRange(x.r) THEN [st EXCEPT !.err = TRUE]
                     ELSE Rec([st EXCEPT !.out = Append(@, old), !.on = IF st.rec THEN Append(@, old.v[1]) ELSE @], x, 0)
    [] o = "wr" -> upd(g(x.a))
    [] o = "wrc" -> upd(JC(C, d))
    [] o = "wrp" -> upd(par(x.a))
    [] o = "weqa" -> upd(JAdd(old, g(x.a)))
    [] o = "weqs" -> upd(JSub(old, g(x.a)))
    [] o = "weqm" -> upd(JMul(old, g(x.a)))
    [] o = "weqd" -> upd(JDiv(old, g(x.a)))
    [] o = "weqac" -> upd(JShift(old, C))
    [] o = "weqsc" -> upd(JShift(old, NNeg(C)))
    [] o = "weqmc" -> upd(JScale(C, old))
    [] o = "weqdc" -> upd(JScale(NDiv(S1, C), old))
    [] o = "winc" -> upd(JShift(old, IF x.k \in {0, 2} THEN S1 ELSE NNeg(S1)))
    [] o = "wincg" -> LET s1 == upd(JShift(old, IF x.k = 2 THEN S1 ELSE NNeg(S1)))
                      IN  IF s1.err \/ s1.unk THEN s1 ELSE Set(s1, x.a, old)
    [] o \in {"wcond", "wcondeq", "wcond2", "wcondeq2"} ->
         IF ~IndexOk(g(x.b)) THEN Unk(st) ELSE IF ~inRange(x.r) THEN [st EXCEPT !.err = TRUE]
         ELSE LET eq == o \in {"wcondeq", "wcondeq2"}
                  two == o \in {"wcond", "wcondeq"}
              IN  Cond(st, x, g(x.a), eq, two,
                       LAMBDA s, b : IF two THEN setV(s, idx, IF b THEN g(x.k \div 1000) ELSE g(x.k % 1000))
                                     ELSE IF b THEN setV(s, idx, g(x.k)) ELSE s)
    [] o = "avlook" ->
         LET v == vec(x.a)
             F(s, i) == LET gg == NSign(NSub(g(x.b).v[1], NMul(v[i].v[1], g(x.k).v[1])))
                            was == IF st.rec THEN 0 ELSE x.cv[i]
                            s1 == IF gg = 2 THEN Unk(s) ELSE IF st.rec THEN [s EXCEPT !.gs = Append(@, gg)]
                                  ELSE IF gg = 1 /\ was <= 0 THEN Rc(s, 2) ELSE IF gg = 0 THEN Tie(Rc(s, 0), TRUE) ELSE s
                        IN  IF gg = 1 THEN Set(s1, x.r, JC(NInt(i), d)) ELSE s1
             z == FoldLeft(F, Set(st, x.r, JC(S0, d)) @@ [gs |-> <<>>], [i \in 1..Len(v) |-> i])
             z2 == [f \in DOMAIN st |-> z[f]]
         IN  Rec(z2, x, z.gs)
    (* parameters *)
    [] o = "mkp" -> LET s1 == [st EXCEPT !.np = @ + 1, !.P = (x.r :> st.np + 1) @@ @, !.par = IF st.rec THEN Append(@, C) ELSE @]
                    IN  Rec(s1, x, 0)
    [] o = "newp" -> plain(par(x.a))
    [] o = "asgp" -> plain(par(x.a))
    [] o = "valp" -> [st EXCEPT !.on = Append(@, st.par[st.P[x.r]])]
    [] o = "eqap" -> plain(JAdd(g(x.r), par(x.a)))
    [] o = "eqsp" -> plain(JSub(g(x.r), par(x.a)))
    [] o = "eqmp1" -> plain(JMul(g(x.r), par(x.a)))
    [] o = "eqdp" -> plain(JDiv(g(x.r), par(x.a)))
    [] o = "negp" -> plain(JNeg(par(x.a)))
    [] o = "powp" -> Weak(plain(JPow(g(x.a), par(x.b))))
    [] o = "ppow" -> Weak(plain(JCPow(st.par[st.P[x.b]], g(x.a))))
    [] o = "powpc" -> plain(JPowC(par(x.b), C))
    [] o = "fminp" -> Minimum(st, x, x.r, g(x.a), par(x.b), FALSE)
    [] o = "pfmin" -> Minimum(st, x, x.r, par(x.b), g(x.a), FALSE)
    [] o = "fmaxp" -> Maximum(st, x, x.r, g(x.a), par(x.b))
    [] o = "pfmax" -> Maximum(st, x, x.r, par(x.b), g(x.a))
    [] o = "unp" -> LET f == UnpName[x.k + 1] IN
                    CASE f = "fabs" -> Abs(st, x, x.r, par(x.a))
                      [] f \in {"ceil", "floor"} ->
                           LET j == JStep(f, par(x.a)) IN
                           LET s1 == Rec(Set(st, x.r, j), x, j.v[1]) IN
                           IF ~NIs(j.v[1]) THEN Unk(s1) ELSE IF ~st.rec /\ NCmp(x.cv, j.v[1]) /= 0 THEN Rc(s1, 2) ELSE s1
                      [] f = "cbrt" -> NoHo(plain(JUn(f, par(x.a))))
                      [] OTHER -> plain(JUn(f, par(x.a)))

Run(st, ins) == FoldLeft(LAMBDA s, x : TLCEval(Step(s, x)), st, ins)
===========================================================================

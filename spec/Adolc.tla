------------------------------- MODULE Adolc -------------------------------
(***************************************************************************)
(* State and transitions of the taping library as a user sees it: a set of *)
(* tapes, a current tape with a stack of suspended ones, per tape the      *)
(* active variables, the recorded program, its parameters, and the Taylor  *)
(* coefficients kept by the last keeping sweep.                            *)
(*                                                                         *)
(* Every public call is one transition.  An operator <Call>(s, e) gives    *)
(* for state s and call e the pair [s |-> next state, x |-> what the call  *)
(* must report]; the trace specification requires the recorded call to     *)
(* have reported exactly that.                                             *)
(***************************************************************************)
EXTENDS Prog

NoFun == [i \in {} |-> 0]
(* kept Taylor coefficients: deg = -1 none; -2 whatever a driver left *)
(* tie: some kink was met exactly, where the many-direction reverse sweep may refuse;
   rc: lower bound of the code reported by a reverse sweep *)
KeptNone == [deg |-> -1, p |-> 1, noho |-> FALSE, tie |-> FALSE, nan |-> FALSE, rc |-> 0, out |-> <<>>]
KeptAny == [deg |-> -2, p |-> 1, noho |-> FALSE, tie |-> FALSE, nan |-> FALSE, rc |-> 0, out |-> <<>>]
EmptyTape == [R |-> NoFun, V |-> NoFun, P |-> NoFun, mode |-> "none", keep |-> 0, ins |-> <<>>, xs |-> <<>>, sR |-> NoFun, sV |-> NoFun,
              m |-> 0, n |-> 0, par |-> <<>>, kept |-> KeptNone, mm |-> FALSE, rmm |-> FALSE, unk |-> FALSE, st |-> <<>>, tays |-> 0]
(* g: whatever else persists between calls, by name; thr: the states of the other threads *)
InitState == [T |-> NoFun, stack |-> <<>>, cur |-> -1, next |-> 0, g |-> NoFun, mem |-> NoFun, thr |-> NoFun]

(* ---- expectations -------------------------------------------------------- *)
AnyRc == 99
Ok == [err |-> FALSE, rc |-> AnyRc, on |-> <<>>, oi |-> <<>>, free |-> FALSE,
       weak |-> FALSE,   (* the code may be smaller, but not negative *)
       opt |-> FALSE]    (* an error report is acceptable as well *)
Err == [Ok EXCEPT !.err = TRUE]
Free == [Ok EXCEPT !.free = TRUE]      (* nothing is claimed about this call *)
R_(s, x) == [s |-> s, x |-> x]

Has(s, tag) == tag \in DOMAIN s.T

NewTape(s, e) == R_([s EXCEPT !.T = (s.next :> EmptyTape) @@ @, !.next = @ + 1, !.cur = IF @ = -1 THEN s.next ELSE @],
                    [Ok EXCEPT !.oi = <<s.next>>])
SetCurrent(s, e) == IF Has(s, e.tag) THEN R_([s EXCEPT !.cur = e.tag], Ok) ELSE R_(s, Err)

TraceOn(s, e) ==
  IF ~Has(s, e.tag) THEN R_(s, Err)
  ELSE IF s.T[e.tag].mode = "rec" THEN R_(s, Err)
  ELSE LET t0 == s.T[e.tag]
           t == IF t0.unk THEN [t0 EXCEPT !.R = NoFun, !.V = NoFun, !.unk = FALSE] ELSE t0
           t1 == [t EXCEPT !.mode = "rec", !.keep = e.keep, !.ins = <<>>, !.xs = <<>>, !.sR = t.R, !.sV = t.V, !.m = 0, !.n = 0,
                           !.par = <<>>, !.P = NoFun, !.kept = KeptNone, !.rmm = t.mm, !.st = <<>>, !.tays = 0]
       IN  R_([s EXCEPT !.stack = Append(@, s.cur), !.cur = e.tag, !.T[e.tag] = t1], [Ok EXCEPT !.rc = 0])

Execute(s, e) ==
  IF s.cur = -1 THEN R_(s, Err)
  ELSE IF s.T[s.cur].unk THEN R_(s, Free)   (* a value nobody can determine exactly decided the path *)
  ELSE
  LET t == s.T[s.cur]
      rec == t.mode = "rec"
      z == Run(Machine(t.R, t.V, t.P, t.par, t.xs, 0, TRUE, t.mm), e.l)
      t1 == [t EXCEPT !.R = z.R, !.V = z.V, !.P = z.P, !.par = z.par, !.unk = @ \/ z.unk]
      t2 == IF rec THEN [t1 EXCEPT !.ins = @ \o z.exe, !.xs = z.xs, !.n = @ + z.ni, !.m = @ + Len(z.out)] ELSE t1
  IN  R_([s EXCEPT !.T[s.cur] = t2],
         IF t2.unk THEN Free ELSE [Ok EXCEPT !.err = z.err, !.on = z.on, !.oi = z.oi])

(* ---- evaluation ---------------------------------------------------------- *)
LiftF(f, d) == [i \in DOMAIN f |-> [v |-> SConst(f[i].v[1], d), t |-> <<>>]]
LiftV(f, d) == [i \in DOMAIN f |-> [k \in 1..Len(f[i]) |-> [v |-> SConst(f[i][k].v[1], d), t |-> <<>>]]]
(* evaluate the recorded program of t along the paths xs (one series per
   independent); tan: with tangents *)
Eval(t, xs, d, tan) ==
  LET n == Len(xs)
      js == [i \in 1..n |-> [v |-> xs[i], t |-> IF tan THEN [k \in 1..n |-> IF k = i THEN SConst(S1, d) ELSE <<>>] ELSE <<>>]]
  IN  Run(Machine(TLCEval(LiftF(t.sR, d)), TLCEval(LiftV(t.sV, d)), NoFun, t.par, TLCEval(js), d, FALSE, t.rmm), t.ins)

TraceOff(s, e) ==
  IF s.cur = -1 \/ s.T[s.cur].mode /= "rec" THEN R_(s, Err)
  ELSE LET t == s.T[s.cur]
           back == s.stack[Len(s.stack)]
           k == IF t.keep > 0
                THEN LET z == Eval(t, [i \in 1..Len(t.xs) |-> <<t.xs[i]>>], 0, TRUE)
                     IN  [deg |-> 0, p |-> 1, noho |-> TRUE, tie |-> TRUE, nan |-> z.nan, rc |-> 0, out |-> <<z.out>>, pt |-> t.xs]
                ELSE KeptNone
       IN  R_([s EXCEPT !.T[s.cur] = [@ EXCEPT !.mode = "done", !.kept = k], !.cur = back, !.stack = SubSeq(@, 1, Len(@) - 1)],
              [Ok EXCEPT !.oi = <<back>>])

Clear(s, e) == IF Has(s, e.tag) THEN R_([s EXCEPT !.T[e.tag].R = NoFun, !.T[e.tag].V = NoFun, !.T[e.tag].P = NoFun], Ok) ELSE R_(s, Err)
ClearCur(s, e) == R_([s EXCEPT !.T[s.cur].R = NoFun, !.T[s.cur].V = NoFun, !.T[s.cur].P = NoFun], Ok)

(* some recorded value is not determined by the specification's arithmetic:
   nothing is claimed about this tape *)
UnkTape(s, e) == Has(s, e.tag) /\ s.T[e.tag].mode = "done" /\ s.T[e.tag].unk
Bad(s, e) == ~Has(s, e.tag) \/ s.T[e.tag].mode /= "done" \/ s.T[e.tag].m /= e.m \/ s.T[e.tag].n /= e.n

Concat(ss) == FlattenSeq(ss)
Idx(n) == [i \in 1..n |-> i]
Nums(ss) == [i \in 1..Len(ss) |-> NConv(ss[i])]

(* the path of direction l: x + X_1 t + ... + X_d t^d *)
Path(e, l) == [i \in 1..e.n |-> TLCEval(<<NConv(e.x[i])>> \o [k \in 1..e.d |-> NConv(e.X[((i - 1) * e.p + (l - 1)) * e.d + k])])]

ZeroKinds == {"zos", "fx0", "fxk", "pzos"}
AnyWeak(zs) == \E i \in DOMAIN zs : zs[i].weak
AnyNan(zs) == \E i \in DOMAIN zs : zs[i].nan
AnyTie(zs) == \E i \in DOMAIN zs : zs[i].tie
AnyNoHo(zs) == \E i \in DOMAIN zs : zs[i].noho
FirstOrder == ZeroKinds \cup {"fos", "fov", "pfos", "pfov", "ffov", "fovoff", "fx1"}
MinRc(zs) == FoldLeft(LAMBDA a, z : Min2(a, z.rc), 3, zs)
AnyUnk(zs) == \E i \in DOMAIN zs : zs[i].unk
AnyErr(zs) == \E i \in DOMAIN zs : zs[i].err

KeepLimit(e) == CASE e.kind \in ZeroKinds -> 1 [] e.kind = "fos" -> 2 [] OTHER -> e.d + 1
NoKeep == {"fov", "ffov", "fovoff", "hov", "fhov", "pzos", "pfos", "phos", "pfov", "phov"}

(* an evaluation that was aborted has not produced all dependents *)
Out(z, j, k) == IF j > Len(z.out) THEN NaR ELSE z.out[j].v[k]
ForwardSweep(s, e) ==
  IF UnkTape(s, e) THEN R_([s EXCEPT !.T[e.tag].kept = KeptAny], Free) ELSE
  IF Bad(s, e) THEN R_(s, Err) ELSE
  LET t == s.T[e.tag]
      keep == IF e.kind \in NoKeep THEN 0 ELSE e.keep
      d == IF e.kind \in ZeroKinds THEN 0 ELSE e.d
      p == IF e.kind \in ZeroKinds THEN 1 ELSE e.p
      zs == TLCEval([l \in 1..p |-> Eval(t, TLCEval(IF d = 0 THEN [i \in 1..e.n |-> <<NConv(e.x[i])>>] ELSE Path(e, l)), d, keep > 0)])
      rc == MinRc(zs)
      ys == [j \in 1..e.m |-> Out(zs[1], j, 1)]
      Ys == Concat([j \in 1..e.m |-> Concat([l \in 1..p |-> SubSeq(zs[l].out[j].v, 2, d + 1)])])
      k == IF keep = 0 THEN t.kept
           ELSE IF rc < 0 THEN KeptNone
           ELSE [deg |-> keep - 1, p |-> p, noho |-> AnyNoHo(zs), tie |-> AnyTie(zs), nan |-> AnyNan(zs), rc |-> IF AnyTie(zs) \/ AnyWeak(zs) THEN 0 ELSE rc, out |-> [l \in 1..p |-> zs[l].out], pt |-> Nums(e.x)]
      s1 == [s EXCEPT !.T[e.tag].kept = k]
  IN  IF keep > KeepLimit(e) \/ keep < 0 THEN R_(s, Err)
      ELSE IF t.unk \/ AnyUnk(zs) THEN R_([s EXCEPT !.T[e.tag].kept = KeptAny], Free)
      ELSE IF AnyErr(zs) THEN R_([s EXCEPT !.T[e.tag].kept = IF keep > 0 THEN KeptNone ELSE t.kept], Err)
      ELSE IF rc < 0 THEN R_(s1, [Ok EXCEPT !.rc = rc, !.opt = AnyNoHo(zs), !.on = [i \in 1..(e.m * (1 + (IF e.d > 0 THEN e.p * e.d ELSE 0))) |-> NaR]])
      ELSE LET opt == AnyNoHo(zs) /\ e.kind \notin FirstOrder
           IN  R_(IF opt THEN [s EXCEPT !.T[e.tag].kept = KeptAny] ELSE s1,
                  [Ok EXCEPT !.rc = rc, !.on = ys \o Ys, !.weak = AnyWeak(zs), !.opt = opt])

(* ---- reverse --------------------------------------------------------------- *)
FoKinds == {"fos", "r1", "r1s", "fov", "rf", "rf2", "rfs"}
TiKinds == {"hosti", "hovti", "hovtinz", "hosov"}
NzKinds == {"hovnz", "rvnz", "hovtinz"}
(* weight of dependent j, coefficient c (0-based), in row l *)
Weight(e, l, j, c) ==
  CASE e.kind \in {"hovti", "hovtinz"} -> NConv(e.u[((l - 1) * e.m + j - 1) * (e.d + 1) + c + 1])
    [] e.kind \in {"hosti", "hosov"} -> NConv(e.u[(j - 1) * (e.d + 1) + c + 1])
    [] e.kind = "ri" -> IF c = 0 /\ l = j THEN S1 ELSE S0
    [] e.kind \in {"rfs", "rvs"} -> IF c = 0 THEN NConv(e.u[l]) ELSE S0
    [] OTHER -> IF c = 0 THEN NConv(e.u[(l - 1) * e.m + j]) ELSE S0
(* coefficients of \sum_j U_j(t) dy_j/dx_i (t) *)
AdjCoeffs(e, out, l, i) ==
  FoldLeft(LAMBDA a, j : LET t == out[j].t
                             ti == IF t = <<>> THEN <<>> ELSE t[i]
                         IN  IF ti = <<>> THEN a
                             ELSE SAdd(a, SMul(TLCEval([c \in 1..(e.d + 1) |-> Weight(e, l, j, c - 1)]), SubSeq(ti, 1, e.d + 1))),
           SConst(S0, e.d), Idx(e.m))
ReverseSweep(s, e) ==
  IF UnkTape(s, e) THEN R_([s EXCEPT !.T[e.tag].kept = KeptAny], Free) ELSE
  IF Bad(s, e) THEN R_(s, Err) ELSE
  LET t == s.T[e.tag]
      k == t.kept
      multi == e.kind = "hosov"
      okdeg == k.deg = e.d /\ (e.d = 0 \/ k.p = (IF multi THEN e.q ELSE 1))
      Z(l) == Concat([i \in 1..e.n |-> AdjCoeffs(e, k.out[IF multi THEN l ELSE 1], l, i)])
  IN  IF k.deg = -2 \/ t.unk THEN R_(s, Free)
      ELSE IF ~okdeg THEN R_(s, Err)
      ELSE R_(s, [Ok EXCEPT !.on = IF k.nan THEN [i \in 1..(e.q * e.n * (e.d + 1)) |-> NaR] ELSE Concat([l \in 1..e.q |-> Z(l)]), !.rc = 100 + k.rc, !.opt = (k.noho /\ e.kind \notin FoKinds) \/ (multi /\ k.tie)])

(* ---- drivers ----------------------------------------------------------------- *)
(* along x + v t, with tangents *)
Along(t, e, v) == Eval(t, [i \in 1..e.n |-> <<NConv(e.x[i]), v[i]>>], 1, TRUE)
At(t, e) == Eval(t, [i \in 1..e.n |-> <<NConv(e.x[i])>>], 0, TRUE)
(* k-th coefficient of dy_j/dx_i *)
Par(z, j, i, k) == IF j > Len(z.out) THEN NaR ELSE
                   LET t == z.out[j].t IN IF t = <<>> THEN S0 ELSE IF t[i] = <<>> THEN S0 ELSE t[i][k + 1]
Unit(n, i) == [k \in 1..n |-> IF k = i THEN S1 ELSE S0]
WSum(z, e, u, i, k) == FoldLeft(LAMBDA a, j : NAdd(a, NMul(u[j], Par(z, j, i, k))), S0, Idx(e.m))

Driver(s, e) ==
  IF UnkTape(s, e) THEN R_([s EXCEPT !.T[e.tag].kept = KeptAny], Free) ELSE
  IF Bad(s, e) THEN R_(s, Err)
  ELSE IF e.kind = "vec_jac" /\ e.q /= 0 THEN ReverseSweep(s, [kind |-> "fos", tag |-> e.tag, m |-> e.m, n |-> e.n, d |-> 0, q |-> 1, u |-> e.u])
  ELSE
  LET t == s.T[e.tag]
      z == At(t, e)
      J == Concat([j \in 1..e.m |-> [i \in 1..e.n |-> Par(z, j, i, 0)]])
      y == [j \in 1..e.m |-> Out(z, j, 1)]
      H(v) == Along(t, e, v)
      res ==
        CASE e.kind = "function" -> <<z, y>>
          [] e.kind = "gradient" -> <<z, J>>
          [] e.kind = "jacobian" -> <<z, J>>
          [] e.kind = "large_jacobian" -> <<z, y \o J>>
          [] e.kind = "vec_jac" -> <<z, [i \in 1..e.n |-> WSum(z, e, Nums(e.u), i, 0)]>>
          [] e.kind = "jac_vec" -> LET zz == H(Nums(e.v)) IN <<zz, [j \in 1..e.m |-> Out(zz, j, 2)]>>
          [] e.kind \in {"hessian", "hessian2"} ->
               LET zs == TLCEval([i \in 1..e.n |-> H(Unit(e.n, i))])
               IN  <<zs[1], Concat([i \in 1..e.n |-> [k \in 1..i |-> Par(zs[i], 1, k, 1)]])>>
          [] e.kind = "hess_vec" -> LET zz == H(Nums(e.v)) IN <<zz, [i \in 1..e.n |-> Par(zz, 1, i, 1)]>>
          [] e.kind = "hess_mat" ->
               LET v == Nums(e.v)
                   zs == TLCEval([l \in 1..e.q |-> H([i \in 1..e.n |-> v[(i - 1) * e.q + l]])])
               IN  <<zs[1], Concat([i \in 1..e.n |-> [l \in 1..e.q |-> Par(zs[l], 1, i, 1)]])>>
          [] e.kind = "lagra_hess_vec" -> LET zz == H(Nums(e.v)) IN <<zz, [i \in 1..e.n |-> WSum(zz, e, Nums(e.u), i, 1)]>>
      (* vec_jac leaves the coefficients its repeat option uses *)
      s1 == [s EXCEPT !.T[e.tag].kept = IF e.kind = "vec_jac" /\ ~res[1].noho /\ ~res[1].unk
                                        THEN (IF res[1].rc < 0 \/ res[1].err THEN KeptNone ELSE [deg |-> 0, p |-> 1, noho |-> FALSE, tie |-> FALSE, nan |-> res[1].nan, rc |-> 0, out |-> <<z.out>>]) ELSE KeptAny]
  IN  IF t.unk \/ res[1].unk THEN R_(s1, Free)
      ELSE IF res[1].err THEN R_(s1, Err)
      ELSE IF res[1].rc < 0 THEN R_(s1, [Ok EXCEPT !.rc = res[1].rc, !.free = TRUE])
      ELSE R_(s1, [Ok EXCEPT !.rc = 97, !.on = IF res[1].nan THEN [i \in DOMAIN res[2] |-> NaR] ELSE res[2], !.opt = res[1].noho \/ (e.kind \in {"hessian2", "hess_mat"} /\ res[1].tie)])

SetParams(s, e) ==
  IF UnkTape(s, e) THEN R_(s, Free) ELSE
  IF ~Has(s, e.tag) \/ s.T[e.tag].mode /= "done" \/ Len(s.T[e.tag].par) /= Len(e.v) THEN R_(s, Err)
  ELSE R_([s EXCEPT !.T[e.tag].par = Nums(e.v), !.T[e.tag].kept = KeptNone], Ok)
NumParam(s, e) == IF UnkTape(s, e) THEN R_(s, Free) ELSE IF ~Has(s, e.tag) THEN R_(s, Err) ELSE IF s.T[e.tag].mode = "rec" THEN R_(s, Free) ELSE R_(s, [Ok EXCEPT !.oi = <<Len(s.T[e.tag].par)>>])
CurTag(s, e) == R_(s, [Ok EXCEPT !.oi = <<s.cur>>])
Tags(s, e) == R_(s, [Ok EXCEPT !.oi = [i \in 1..s.next |-> i - 1]])
MinMax(s, e) == IF ~Has(s, e.tag) THEN R_(s, Err) ELSE R_([s EXCEPT !.T[e.tag].mm = e.flag], Ok)

Call(s, e) ==
  CASE e.c = "new" -> NewTape(s, e)
    [] e.c = "cur" -> SetCurrent(s, e)
    [] e.c \in {"on", "on7"} -> TraceOn(s, e)
    [] e.c = "ins" -> Execute(s, e)
    [] e.c = "off" -> TraceOff(s, e)
    [] e.c = "clr" -> Clear(s, e)
    [] e.c = "clrcur" -> ClearCur(s, e)
    [] e.c = "fwd" -> ForwardSweep(s, e)
    [] e.c = "rev" -> ReverseSweep(s, e)
    [] e.c = "drv" -> Driver(s, e)
    [] e.c = "setp" -> SetParams(s, e)
    [] e.c = "nparam" -> NumParam(s, e)
    [] e.c = "curtag" -> CurTag(s, e)
    [] e.c = "tags" -> Tags(s, e)
    [] e.c = "minmax" -> MinMax(s, e)
    [] OTHER -> R_(s, Free)
============================================================================

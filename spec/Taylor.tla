------------------------------- MODULE Taylor -------------------------------
(***************************************************************************)
(* Derivative tensors, inverse functions, linear systems with a Jacobian,  *)
(* Taylor expansions of the solutions of ordinary differential equations,  *)
(* and Lie derivatives.                                                    *)
(*                                                                         *)
(* Mixed partial derivatives are obtained by polarisation from the Taylor  *)
(* coefficients along sums of the directions (the library interpolates     *)
(* between other directions); flows are differentiated with respect to     *)
(* their initial values by carrying tangents along the solution (the       *)
(* library multiplies partial Jacobians); inverse functions are determined *)
(* coefficient by coefficient with Cramer's rule.                          *)
(***************************************************************************)
EXTENDS CIface

RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 THEN 1 ELSE IF k > n THEN 0 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
Fact(n) == FoldLeft(LAMBDA a, k : NMul(a, NInt(k)), S1, Idx(n))

(* evaluation along given jets *)
EvalJ(t, js, d) == Run(Machine(TLCEval(LiftF(t.sR, d)), TLCEval(LiftV(t.sV, d)), NoFun, t.par, TLCEval(js), d, FALSE, t.rmm), t.ins)
NotReal(z) == z.nan \/ \E j \in DOMAIN z.out : \E k \in DOMAIN z.out[j].v : ~NIs(z.out[j].v[k])
Nan(k) == [i \in 1..k |-> NaR]

(* ---- linear algebra ------------------------------------------------------ *)
RECURSIVE Det(_)
Minor(A, i, j) == [r \in 1..(Len(A) - 1) |-> [c \in 1..(Len(A) - 1) |-> A[IF r < i THEN r ELSE r + 1][IF c < j THEN c ELSE c + 1]]]
Det(A) == IF Len(A) = 0 THEN S1
          ELSE FoldLeft(LAMBDA s, j : LET p == NMul(A[1][j], Det(TLCEval(Minor(A, 1, j)))) IN IF j % 2 = 1 THEN NAdd(s, p) ELSE NSub(s, p),
                        S0, [j \in 1..Len(A) |-> j])
(* the solution of A z = b *)
Cramer(A, b) == LET D == TLCEval(Det(A)) IN
  TLCEval([i \in 1..Len(A) |-> NDiv(Det(TLCEval([r \in 1..Len(A) |-> [c \in 1..Len(A) |-> IF c = i THEN b[r] ELSE A[r][c]]])), D)])
Tiny == NDiv(S1, NInt(1000000000))
Regular(A) == LET D == Det(A) IN NIs(D) /\ (NCmp(D, Tiny) = 1 \/ NCmp(D, NNeg(Tiny)) = -1)
ZeroRow(A) == \E i \in DOMAIN A : \A j \in DOMAIN A : NExact(A[i][j]) /\ NSign(A[i][j]) = 0
JacOf(z, n) == TLCEval([j \in 1..n |-> [i \in 1..n |-> Par(z, j, i, 0)]])

(* ---- tensors --------------------------------------------------------------- *)
(* 0 < |k| <= d: how often each of the p directions is differentiated for *)
Multis(p, d) == {k \in [1..p -> 0..d] : FoldLeft(LAMBDA a, i : a + k[i], 0, Idx(p)) \in 1..d}
Size(k) == FoldLeft(LAMBDA a, i : a + k[i], 0, Idx(Len(k)))
(* the non-decreasing index sequence of length d *)
Sorted(k, d) == [i \in 1..(d - Size(k)) |-> 0] \o Concat([l \in 1..Len(k) |-> [i \in 1..k[l] |-> l]])
AddrSeq(im) == FoldLeft(LAMBDA a, i : a + Binom(im[i] + i - 1, i), 0, Idx(Len(im)))
Addr(k, d) == AddrSeq(Sorted(k, d))
CountsOf(multi, p) == [l \in 1..p |-> Cardinality({i \in DOMAIN multi : multi[i] = l})]
MaxOf(multi) == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, 1, multi)
DirOf(S, n, p, s) == [i \in 1..n |-> FoldLeft(LAMBDA a, l : NAdd(a, NMul(NInt(s[l]), S[(i - 1) * p + l])), S0, Idx(p))]
(* the derivative counted by k of component j: coefficient c(s) of degree |k| along each partial sum s of directions *)
Polar(k, c(_)) ==
  LET K == Size(k)
      subs == SetToSeq({s \in [1..Len(k) -> 0..K] : Size(s) > 0 /\ \A l \in 1..Len(k) : s[l] <= k[l]})
  IN  FoldLeft(LAMBDA a, s : LET w == FoldLeft(LAMBDA b, l : b * Binom(k[l], s[l]), IF (K - Size(s)) % 2 = 0 THEN 1 ELSE -1, Idx(Len(k)))
                             IN  NAdd(a, NMul(NInt(w), c(s))), S0, subs)
(* rows of the compressed tensors of series along all directions; val(j) the values *)
TensorRows(m, p, d, y, coef(_, _, _)) ==
  LET Ks == Multis(p, d)
      At_ == TLCEval([a \in 1..(Binom(p + d, d) - 1) |-> CHOOSE k \in Ks : Addr(k, d) = a])
  IN  Concat([j \in 1..m |-> <<y[j]>> \o [a \in 1..(Binom(p + d, d) - 1) |-> Polar(At_[a], LAMBDA s : coef(s, j, Size(At_[a])))]])

NoTensor(s) == [s EXCEPT !.g = ("tensor" :> <<>>) @@ @]
(* an evaluation that may be refused leaves no tensor to look at *)
Forget(r) == IF r.x.opt \/ r.x.free \/ r.x.err THEN R_(NoTensor(r.s), r.x) ELSE r
TensorEval(s, e) == Forget(
  IF UnkTape(s, e) THEN R_(s, Free) ELSE IF Bad(s, e) THEN R_(s, Err) ELSE
  LET t == s.T[e.tag]
      S == TLCEval(Nums(e.S))
      Along_(v) == Eval(t, [i \in 1..e.n |-> TLCEval(<<NConv(e.x[i])>> \o [k \in 1..e.d |-> IF k = 1 THEN v[i] ELSE S0])], e.d, FALSE)
      z0 == Eval(t, [i \in 1..e.n |-> <<NConv(e.x[i])>>], 0, FALSE)
      Z == TLCEval([k \in Multis(e.p, e.d) |-> Along_(TLCEval(DirOf(S, e.n, e.p, k)))])
      y == [j \in 1..e.m |-> Out(z0, j, 1)]
      nan == \E k \in DOMAIN Z : NotReal(Z[k])
      unk == z0.unk \/ \E k \in DOMAIN Z : Z[k].unk
      dim == Binom(e.p + e.d, e.d)
      rows == IF nan THEN Concat([j \in 1..e.m |-> <<y[j]>> \o Nan(dim - 1)])
              ELSE TensorRows(e.m, e.p, e.d, y, LAMBDA k, j, c : Z[k].out[j].v[c + 1])
      s1 == [s EXCEPT !.T[e.tag].kept = KeptAny]
  IN  IF unk \/ z0.tie THEN R_([s1 EXCEPT !.g = ("tensor" :> <<>>) @@ @], Free)
      ELSE IF z0.err THEN R_([s1 EXCEPT !.g = ("tensor" :> <<>>) @@ @], Err)
      ELSE IF z0.rc < 0 THEN R_([s1 EXCEPT !.g = ("tensor" :> <<>>) @@ @], [Ok EXCEPT !.rc = z0.rc, !.on = Nan(e.m * dim)])
      ELSE R_([s1 EXCEPT !.g = ("tensor" :> <<e.m, e.p, e.d, TLCEval(rows)>>) @@ @],
              [Ok EXCEPT !.rc = z0.rc, !.weak = z0.weak, !.opt = z0.noho /\ e.d > 1, !.on = rows]))

TensorAddress(s, e) == R_(s, [Ok EXCEPT !.oi = <<Addr(CountsOf(e.multi, MaxOf(e.multi)), e.d)>>])
(* access by multi-index, in any order, and through the pointer structure *)
TensorValue(s, e) ==
  LET T == IF "tensor" \in DOMAIN s.g THEN s.g["tensor"] ELSE <<>> IN
  IF T = <<>> THEN R_(s, Free)
  ELSE LET dim == Binom(T[2] + T[3], T[3])
           a == Addr(CountsOf(e.multi, T[2]), T[3])
       IN  R_(s, [Ok EXCEPT !.on = [j \in 1..T[1] |-> T[4][(j - 1) * dim + a + 1]]])

(* ---- inverse functions -------------------------------------------------------- *)
(* X with F(X(t)) = Y(t): x the base point, Y[j] = coefficients 1..d *)
InvTaylor(t, n, d, x, Y, A) ==
  FoldLeft(LAMBDA X, k :
    LET z == EvalJ(t, [i \in 1..n |-> [v |-> X[i] \o <<S0>>, t |-> <<>>]], k)
        b == Cramer(A, [j \in 1..n |-> NSub(Y[j][k], Out(z, j, k + 1))])
    IN  TLCEval([i \in 1..n |-> Append(X[i], b[i])]),
    [i \in 1..n |-> <<x[i]>>], Idx(d))
AtRegular(s, e, f(_, _)) ==
  IF UnkTape(s, e) THEN R_(s, Free) ELSE IF Bad(s, [e EXCEPT !.m = e.n]) THEN R_(s, Err) ELSE
  LET t == s.T[e.tag]
      z0 == Eval(t, [i \in 1..e.n |-> <<NConv(e.x[i])>>], 0, TRUE)
      s1 == [s EXCEPT !.T[e.tag].kept = KeptAny, !.g = ("tensor" :> <<>>) @@ @]
      A == JacOf(z0, e.n)
  IN  IF z0.unk \/ z0.tie \/ z0.nan THEN R_(s1, Free)
      ELSE IF z0.err THEN R_(s1, Err)
      ELSE IF z0.rc < 0 THEN R_(s1, [Free EXCEPT !.rc = z0.rc])
      ELSE IF ZeroRow(A) THEN R_(s1, [Ok EXCEPT !.rc = -3])
      ELSE IF ~Regular(A) THEN R_(s1, Free)
      ELSE f(s1, A)
NoHoAt(t, n, x) == Eval(t, [i \in 1..n |-> <<NConv(x[i])>>], 0, FALSE).noho
InverseProp(s, e) == AtRegular(s, e, LAMBDA s1, A :
  LET n == e.n
      X == InvTaylor(s.T[e.tag], n, e.d, [i \in 1..n |-> NConv(e.x[i])], [j \in 1..n |-> [k \in 1..e.d |-> NConv(e.Y[(j - 1) * e.d + k])]], A)
  IN  R_(s1, [Ok EXCEPT !.rc = 97, !.on = Concat(X), !.opt = NoHoAt(s.T[e.tag], n, e.x)]))
InverseTensor(s, e) == Forget(AtRegular(s, e, LAMBDA s1, A :
  LET n == e.n
      S == TLCEval(Nums(e.S))
      x == [i \in 1..n |-> NConv(e.x[i])]
      X == TLCEval([k \in Multis(e.p, e.d) |-> LET v == TLCEval(DirOf(S, n, e.p, k))
                                               IN  InvTaylor(s.T[e.tag], n, e.d, x, [j \in 1..n |-> [c \in 1..e.d |-> IF c = 1 THEN v[j] ELSE S0]], A)])
      nan == \E k \in DOMAIN X : \E i \in 1..n : \E c \in DOMAIN X[k][i] : ~NIs(X[k][i][c])
      dim == Binom(e.p + e.d, e.d)
      rows == IF nan THEN Concat([j \in 1..n |-> <<x[j]>> \o Nan(dim - 1)]) ELSE TensorRows(n, e.p, e.d, x, LAMBDA k, j, c : X[k][j][c + 1])
  IN  R_([s1 EXCEPT !.g = ("tensor" :> <<n, e.p, e.d, TLCEval(rows)>>) @@ @], [Ok EXCEPT !.rc = 97, !.on = rows, !.opt = NoHoAt(s.T[e.tag], n, e.x)])))
(* mode 0 prepares the Jacobian, 1 factorises it, 2 solves *)
JacSolv(s, e) == AtRegular(s, e, LAMBDA s1, A :
  R_(s1, [Ok EXCEPT !.rc = 97, !.on = IF e.mode = 2 THEN Cramer(A, Nums(e.b)) ELSE Nums(e.b)]))
JacSolv0(s, e) ==
  LET r == JacSolv(s, e) IN
  IF e.mode = 0 /\ ~r.x.free /\ ~r.x.err THEN R_(r.s, [Ok EXCEPT !.rc = 97, !.on = Nums(e.b)])
  ELSE IF ~r.x.free /\ ~r.x.err /\ r.x.rc = -3 THEN R_(r.s, [r.x EXCEPT !.on = Nan(e.n)]) ELSE r
InverseN(r, k) == IF ~r.x.free /\ ~r.x.err /\ r.x.rc = -3 THEN R_(r.s, [r.x EXCEPT !.on = Nan(k)]) ELSE r

(* ---- ordinary differential equations --------------------------------------------- *)
(* X(s) with X'(s) = tau f(X(s)), extended from degree dol to degree deg.  Result: jets of X, the
   evaluations made, with tangents of the flow with respect to X(0) if tan *)
Flow(t, n, tau, dol, deg, X, tan) ==
  LET j0 == [i \in 1..n |-> [v |-> X[i], t |-> IF tan THEN [k \in 1..n |-> IF k = i THEN SConst(S1, dol) ELSE SConst(S0, dol)] ELSE <<>>]]
      next(a, k) ==
        LET z == EvalJ(t, a.js, k)
            sc == NDiv(tau, NInt(k + 1))
            ext(i) == [v |-> Append(a.js[i].v, NMul(sc, Out(z, i, k + 1))),
                       t |-> IF tan THEN [l \in 1..n |-> Append(a.js[i].t[l], NMul(sc, Par(z, i, l, k)))] ELSE <<>>]
        IN  IF a.stop THEN a
            ELSE [js |-> TLCEval([i \in 1..n |-> ext(i)]), zs |-> Append(a.zs, z), stop |-> z.rc < 0 \/ z.unk \/ z.err]
  IN  FoldLeft(next, [js |-> TLCEval(j0), zs |-> <<>>, stop |-> FALSE], [i \in 1..(deg - dol) |-> dol + i - 1])
FlowNan(a) == \E i \in DOMAIN a.zs : NotReal(a.zs[i])
(* the coefficients forode leaves for a reverse sweep *)
KeptFlow(s, e, a, deg) ==
  LET t == s.T[e.tag]
      z == TLCEval(Eval(t, [i \in 1..e.n |-> SubSeq(a.js[i].v, 1, deg)], deg - 1, TRUE))
  IN  [deg |-> deg - 1, p |-> 1, noho |-> z.noho, tie |-> z.tie, nan |-> z.nan, rc |-> IF z.tie \/ z.weak THEN 0 ELSE z.rc, out |-> <<z.out>>]
Forode(s, e) ==
  IF UnkTape(s, e) THEN R_(s, Free) ELSE IF e.dol >= e.deg THEN R_(s, [Ok EXCEPT !.on = Nums(e.X)]) ELSE IF Bad(s, [e EXCEPT !.m = e.n]) THEN R_(s, Err) ELSE
  LET t == s.T[e.tag]
      X == [i \in 1..e.n |-> [k \in 1..(e.dol + 1) |-> NConv(e.X[(i - 1) * (e.dol + 1) + k])]]
      a == Flow(t, e.n, NConv(e.tau), e.dol, e.deg, X, FALSE)
      rc == MinRc(a.zs)
      any == [s EXCEPT !.T[e.tag].kept = KeptAny]
  IN  IF AnyUnk(a.zs) THEN R_(any, Free)
      ELSE IF AnyErr(a.zs) THEN R_(any, Err)
      ELSE IF rc < 0 THEN R_(any, [Ok EXCEPT !.rc = rc, !.on = Nan(e.n * (e.deg + 1))])
      ELSE R_(IF AnyNoHo(a.zs) \/ FlowNan(a) THEN any ELSE [s EXCEPT !.T[e.tag].kept = KeptFlow(s, e, a, e.deg)],
              [Ok EXCEPT !.rc = rc, !.weak = AnyWeak(a.zs), !.opt = AnyNoHo(a.zs),
                         !.on = IF FlowNan(a) THEN Nan(e.n * (e.deg + 1)) ELSE Concat([i \in 1..e.n |-> a.js[i].v])])
(* total from partial Jacobians of the coefficients *)
Accode(s, e) ==
  LET n == e.n
      A(i, j, k) == NConv(e.A[((i - 1) * n + j - 1) * (e.deg + 1) + k + 1])
      tau == NConv(e.tau)
      (* B_k for all k so far *)
      next(B, k) ==
        Append(B, TLCEval([i \in 1..n |-> [j \in 1..n |->
           NMul(NDiv(tau, NInt(k + 1)),
                FoldLeft(LAMBDA a, l : FoldLeft(LAMBDA b, p : NAdd(b, NMul(A(i, p, l - 1), B[k - l + 1][p][j])), a, Idx(n)), A(i, j, k), Idx(k)))]]))
      Bs == FoldLeft(next, <<>>, [k \in 1..(e.deg + 1) |-> k - 1])
  IN  R_(s, [Ok EXCEPT !.on = Concat([i \in 1..n |-> Concat([j \in 1..n |-> [k \in 1..(e.deg + 1) |-> Bs[k][i][j]]])])])
(* Jacobians of the coefficients 1..deg of the solution with respect to the initial value *)
Jacode(s, e) ==
  IF UnkTape(s, e) THEN R_(s, Free) ELSE IF Bad(s, [e EXCEPT !.m = e.n]) THEN R_(s, Err) ELSE
  LET t == s.T[e.tag]
      a == Flow(t, e.n, NConv(e.tau), 0, e.deg, [i \in 1..e.n |-> <<NConv(e.x[i])>>], TRUE)
      s1 == [s EXCEPT !.T[e.tag].kept = KeptAny]
  IN  IF AnyUnk(a.zs) \/ AnyTie(a.zs) \/ AnyNoHo(a.zs) THEN R_(s1, Free)
      ELSE IF AnyErr(a.zs) THEN R_(s1, Err)
      ELSE IF MinRc(a.zs) < 0 THEN R_(s1, Free)
      ELSE R_(s1, [Ok EXCEPT !.rc = 97, !.on = IF FlowNan(a) THEN Nan(e.n * e.n * e.deg)
                   ELSE Concat([i \in 1..e.n |-> Concat([j \in 1..e.n |-> SubSeq(a.js[i].t[j], 2, e.deg + 1)])])])

(* ---- Lie derivatives ------------------------------------------------------------------ *)
(* of whatever tape e.tagh records along the vector field on tape e.tag.  The curve is the flow of the
   field; k-th derivatives are k! times the k-th coefficients *)
Facts(v) == [k \in 1..Len(v) |-> NMul(Fact(k - 1), v[k])]
Lie(s, e) ==
  LET eh == [tag |-> e.tagh, m |-> e.m, n |-> e.n] IN
  IF UnkTape(s, e) \/ UnkTape(s, eh) THEN R_(s, Free)
  ELSE IF Bad(s, [e EXCEPT !.m = e.n]) \/ Bad(s, eh) THEN R_(s, Err) ELSE
  LET t == s.T[e.tag]
      h == s.T[e.tagh]
      n == e.n
      tan == e.kind \notin {"scalar", "scalarv", "cscalar", "cscalarv"}
      a == Flow(t, n, S1, 0, e.d, [i \in 1..n |-> <<NConv(e.x[i])>>], tan)
      z == EvalJ(h, a.js, e.d)
      z0 == Eval(t, [i \in 1..n |-> <<NConv(e.x[i])>>], 0, FALSE)   \* the field itself is evaluated even for d = 0
      zs == a.zs \o <<z, z0>>
      s1 == [s EXCEPT !.T[e.tag].kept = KeptAny, !.T[e.tagh].kept = KeptAny]
      Pt(j, i) == IF z.out[j].t = <<>> THEN SConst(S0, e.d) ELSE IF z.out[j].t[i] = <<>> THEN SConst(S0, e.d) ELSE z.out[j].t[i]
      (* d phi_i / d x_l *)
      M(i, l) == a.js[i].t[l]
      cov(i) == FoldLeft(LAMBDA b, j : SAdd(b, SMul(z.out[j].v, M(j, i))), SConst(S0, e.d), Idx(n))
      (* v with (d phi / d x) v = g *)
      back == FoldLeft(LAMBDA v, k : Append(v, TLCEval([i \in 1..n |->
                 FoldLeft(LAMBDA b, q : FoldLeft(LAMBDA bb, l : NSub(bb, NMul(M(i, l)[q + 1], v[k - q + 1][l])), b, Idx(n)), z.out[i].v[k + 1], Idx(k))])),
                 <<>>, [k \in 1..(e.d + 1) |-> k - 1])
      res == CASE ~tan -> Concat([j \in 1..e.m |-> Facts(z.out[j].v)])
               [] e.kind \in {"gradient", "gradientv", "cgradient", "cgradientv"} -> Concat([j \in 1..e.m |-> Concat([i \in 1..n |-> Facts(Pt(j, i))])])
               [] e.kind = "covector" -> Concat([i \in 1..n |-> Facts(cov(i))])
               [] e.kind = "bracket" -> Concat([i \in 1..n |-> Facts([k \in 1..(e.d + 1) |-> back[k][i]])])
      size == (CASE ~tan -> e.m [] e.kind \in {"covector", "bracket"} -> n [] OTHER -> e.m * n) * (e.d + 1)
  IN  IF a.stop \/ z.rc < 0 \/ z0.rc < 0 \/ AnyUnk(zs) \/ AnyTie(zs) \/ AnyNoHo(zs) \/ AnyErr(zs) THEN R_(s1, Free)
      ELSE R_(s1, [Ok EXCEPT !.on = IF FlowNan(a) \/ NotReal(z) THEN Nan(size) ELSE res])
=============================================================================

----------------------------- MODULE Traceless -----------------------------
(***************************************************************************)
(* Traceless forward differentiation: a program executed on numbers that   *)
(* carry their own derivatives.  Its meaning is that of recording the      *)
(* program and evaluating the recording along the seeded paths; branches   *)
(* are decided by the values of this very execution.                       *)
(***************************************************************************)
EXTENDS Adolc

(* the program as recorded at the point its "ind" instructions name *)
Recorded(l, n) ==
  LET z == Run(Machine(NoFun, NoFun, NoFun, <<>>, <<>>, 0, TRUE, FALSE), l)
  IN  [z |-> z, t |-> [EmptyTape EXCEPT !.ins = z.exe, !.xs = z.xs, !.n = n, !.m = Len(z.out)]]

(* 1 the derivative is not zero, 0 the value does not even reach the dependent, 2 neither *)
Pattern(z, m, n) ==
  Concat([j \in 1..m |-> [i \in 1..n |->
    LET t == z.out[j].t IN
    IF t = <<>> THEN 0 ELSE IF t[i] = <<>> THEN 0
    ELSE IF NSign(t[i][1]) \in {-1, 1} /\ ~z.nan THEN 1 ELSE 2]])

TracelessRun(s, e) ==
  LET r == Recorded(e.l, e.n)
      zs == TLCEval([k \in 1..e.p |-> Eval(r.t, Path(e, k), e.d, FALSE)])
      ys == [j \in 1..e.m |-> Out(zs[1], j, 1)]
      Ys == Concat([j \in 1..e.m |-> Concat([k \in 1..e.p |-> SubSeq(zs[k].out[j].v, 2, e.d + 1)])])
      (* the higher-order mode holds the first derivatives twice *)
      Fs == Concat([j \in 1..e.m |-> [k \in 1..e.p |-> zs[k].out[j].v[2]]])
  IN  IF r.z.unk \/ AnyUnk(zs) THEN R_(s, Free)
      ELSE R_(s, [Ok EXCEPT !.on = ys \o Ys \o (IF e.mode = "hov" THEN Fs ELSE <<>>), !.oi = r.z.oi])

TracelessPattern(s, e) ==
  LET r == Recorded(e.l, e.n)
      z == At(r.t, e)
  IN  IF r.z.unk \/ z.unk THEN R_(s, Free)
      ELSE R_(s, [Ok EXCEPT !.on = [j \in 1..e.m |-> Out(z, j, 1)], !.oi = r.z.oi \o Pattern(z, e.m, e.n)])

(* the sparse Jacobian driver of the traceless modes; with repeat the pattern found last is used again *)
TracelessJac(s, e) ==
  LET r == Recorded(e.l, e.n)
      z == At(r.t, e)
      pat == Pattern(z, e.m, e.n)
      old == IF e.rep = 0 THEN pat ELSE IF "tljac" \in DOMAIN s.g THEN s.g["tljac"] ELSE <<>>
      s1 == [s EXCEPT !.g = ("tljac" :> IF r.z.unk \/ z.unk THEN <<>> ELSE old) @@ @]
      fits == Len(old) = Len(pat) /\ \A i \in DOMAIN pat : pat[i] = 0 \/ old[i] = 1
  IN  IF r.z.unk \/ z.unk \/ z.nan \/ (e.rep /= 0 /\ ~fits) THEN R_(s1, Free)
      ELSE R_(s1, [Ok EXCEPT !.rc = 97, !.on = Concat([j \in 1..e.m |-> [i \in 1..e.n |-> Par(z, j, i, 0)]])])

TL(s, e) == CASE e.mode \in {"vec", "hov"} -> TracelessRun(s, e) [] e.mode = "pat" -> TracelessPattern(s, e) [] e.mode = "jac" -> TracelessJac(s, e)
=============================================================================

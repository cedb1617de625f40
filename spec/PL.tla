---------------------------------- MODULE PL ----------------------------------
(***************************************************************************)
(* Piecewise linear models of abs-smooth functions.                        *)
(*                                                                         *)
(* With every absolute value counted as an independent variable of its own *)
(* a recorded program is smooth; its Jacobian at a point is the matrix     *)
(*      [ Y  J ]                                                           *)
(*      [ Z  L ]          rows [y; z], columns [x; |z|],                   *)
(* z the arguments of the absolute values.  All sweeps are read off it:    *)
(* a direction moves z by Z x' + L w, where w is the change of |z| (of the *)
(* absolute values themselves, or as a fixed signature tells).             *)
(***************************************************************************)
EXTENDS Taylor

AbsOp(x, mm) == x.op = "fabs" \/ (x.op = "unp" /\ x.k = 12) \/ (mm /\ (x.op \in Extremum \/ x.op \in Extremum1))
NumAbs(t) == Cardinality({i \in DOMAIN t.ins : AbsOp(t.ins[i], t.rmm)})
EvalPL(t, x) ==
  LET n == Len(x)
      w == n + NumAbs(t)
      js == [i \in 1..n |-> [v |-> <<x[i]>>, t |-> [k \in 1..w |-> IF k = i THEN <<S1>> ELSE <<>>]]]
  IN  Run([Machine(TLCEval(LiftF(t.sR, 0)), TLCEval(LiftV(t.sV, 0)), NoFun, t.par, TLCEval(js), 0, FALSE, t.rmm) EXCEPT !.pl = <<n, w>>], t.ins)
(* derivative of jet q with respect to (extended) independent i *)
Pd(q, i) == IF q.t = <<>> THEN S0 ELSE IF q.t[i] = <<>> THEN S0 ELSE q.t[i][1]
NAbs(x) == LET g == NSign(x) IN IF g = 1 THEN x ELSE IF g = -1 THEN NNeg(x) ELSE IF g = 0 THEN S0 ELSE NaR
Sum(k, f(_)) == FoldLeft(LAMBDA a, i : NAdd(a, f(i)), S0, Idx(k))
Small == NDiv(S1, NConv("1e11"))
(* sign of a base value: within 1e-12 of zero it counts as zero *)
Sgn(x) == LET g == NSign(x) IN IF g = 0 THEN 0 ELSE IF NCmp(x, Small) = 1 THEN 1 ELSE IF NCmp(x, NNeg(Small)) = -1 THEN -1 ELSE 2
SgnSeq(v) == FoldLeft(LAMBDA a, q : IF a /= 0 THEN a ELSE NSign(q), Sgn(v[1]), SubSeq(v, 2, Len(v)))
Times(g, x) == IF g = 1 THEN x ELSE IF g = -1 THEN NNeg(x) ELSE IF g = 0 THEN S0 ELSE NaR

NumSwitches(s, e) ==
  IF UnkTape(s, e) THEN R_(s, Free)
  ELSE IF ~Has(s, e.tag) THEN R_(s, Err)
  ELSE IF s.T[e.tag].mode /= "done" THEN R_(s, Free)
  ELSE IF ~s.T[e.tag].rmm THEN R_(s, Err) ELSE R_(s, [Ok EXCEPT !.oi = <<NumAbs(s.T[e.tag])>>])

Checked == {"sfos", "sfosd", "sfov", "sfovd", "rfos", "rfov", "rsig", "anfc", "pat", "sanf", "sanfm", "sanfr", "sanfrm"}
ReverseKind == {"rfos", "rfov", "rsig"}
SparseKind == {"pat", "sanf", "sanfm", "sanfr", "sanfrm"}
KeepKind == {"zosk", "anf", "anfq", "anfc", "dag"}
Wt(e, k) == NConv(e.w[(k % 8) + 1])
Sg(x) == NSign(x)
PLKept(t, x) ==
  LET z == Eval(t, [i \in 1..Len(x) |-> <<x[i]>>], 0, TRUE)
  IN  [deg |-> 0, p |-> 1, noho |-> z.noho, tie |-> z.tie, nan |-> z.nan, rc |-> IF z.tie \/ z.weak THEN 0 ELSE z.rc, out |-> <<z.out>>, pt |-> x]

PLCall(s, e0) ==
  LET e == IF e0.kind = "dag" THEN [e0 EXCEPT !.m = 1] ELSE e0 IN
  IF UnkTape(s, e) THEN R_(s, Free)
  ELSE IF Bad(s, e) \/ (e.kind \in {"dag", "anf", "anfq"} /\ Bad(s, e0)) THEN R_(Kept_(s, e.tag), IF e.kind \in {"dag", "anf", "anfq"} THEN Free ELSE Err)
  ELSE IF ~s.T[e.tag].rmm THEN R_(s, IF e.kind \in {"anf", "anfq", "sanfr", "sanfrm"} THEN Free ELSE Err)
  ELSE IF e.kind \in Checked /\ e.dsw /= 0 /\ e.kind \notin {"sanfr", "sanfrm"} THEN R_(IF e.kind \in SparseKind THEN [s EXCEPT !.g = (Key("pl", e.tag) :> <<>>) @@ (Key("sj", e.tag) :> <<>>) @@ @] ELSE s, Err)
  ELSE
  LET t == s.T[e.tag]
      m == e.m
      n == e.n
      ns == NumAbs(t)
      rev == e.kind \in ReverseKind
      okk == ~rev \/ (t.kept.deg = 0 /\ "pt" \in DOMAIN t.kept)
      x == TLCEval(IF rev THEN (IF okk THEN t.kept.pt ELSE Nums(e.x)) ELSE Nums(e.x))
      z == TLCEval(EvalPL(t, x))
      full == z.rc >= 0 /\ ~z.unk /\ ~z.err
      rows == TLCEval(z.out \o z.sw)
      (* row i of the extended Jacobian: dependents, then switching variables *)
      M == TLCEval([i \in 1..(m + ns) |-> [k \in 1..(n + ns) |-> Pd(rows[i], k)]])
      yv == [j \in 1..m |-> rows[j].v[1]]
      zv == [k \in 1..ns |-> rows[m + k].v[1]]
      nan == z.nan \/ \E i \in DOMAIN M : \E k \in DOMAIN M[i] : ~NIs(M[i][k])
      X(i, l) == NConv(e.X[(i - 1) * e.p + l])
      (* change of row i: first p directions, w[k] the change of |z_k| *)
      row(i, l, w, k) == NAdd(Sum(n, LAMBDA q : NMul(M[i][q], X(q, l))), Sum(k, LAMBDA q : NMul(M[i][n + q], w[q][l])))
      (* switching variables one after the other: << changes of z, changes of |z|, signs >> *)
      Walk(p, f(_, _, _)) ==
        FoldLeft(LAMBDA a, k : LET dz == TLCEval([l \in 1..p |-> row(m + k, l, a[2], k - 1)])
                                   sg == SgnSeq(<<zv[k]>> \o dz)
                               IN  <<Append(a[1], dz), Append(a[2], TLCEval([l \in 1..p |-> f(zv[k], dz[l], sg)])), Append(a[3], sg)>>,
                 <<<<>>, <<>>, <<>>>>, Idx(ns))
      lin == Walk(e.p, LAMBDA v, dz, sg : NSub(NAbs(NAdd(v, dz)), NAbs(v)))
      sig == Walk(e.p, LAMBDA v, dz, sg : Times(sg, dz))
      fw(a) == yv \o Concat([j \in 1..m |-> [l \in 1..e.p |-> row(j, l, a[2], ns)]]) \o zv \o Concat(a[1])
      any == [s EXCEPT !.T[e.tag].kept = KeptAny]
      kp == IF e.kind \in KeepKind THEN [s EXCEPT !.T[e.tag].kept = TLCEval(PLKept(t, x))] ELSE s
      cst(v, i) == NSub(v, Sum(ns, LAMBDA q : NMul(M[i][n + q], NAbs(zv[q]))))
      blk(r0, r, c0, c) == Concat([i \in 1..r |-> [k \in 1..c |-> M[r0 + i][c0 + k]]])
      blocks == blk(0, m, 0, n) \o blk(0, m, n, ns) \o blk(m, ns, 0, n) \o blk(m, ns, n, ns)
      consts == [j \in 1..m |-> cst(yv[j], j)] \o [k \in 1..ns |-> cst(zv[k], m + k)]
      hide(v) == IF nan THEN [i \in DOMAIN v |-> NaR] ELSE v
      nums == z.rc
      (* a negative code or an undetermined value *)
      gone == R_(any, IF z.unk THEN Free ELSE IF z.err THEN Err ELSE Free)
      (* gradient of the selected smooth piece: adjoint weights u for y, signs sg *)
      (* adjoint of |z_k|, from the last to the first *)
      adj(u, sg) == FoldLeft(LAMBDA a, q : LET k == ns + 1 - q IN
                        <<NAdd(Sum(m, LAMBDA j : NMul(u[j], M[j][n + k])), Sum(q - 1, LAMBDA r : NMul(Times(sg[k + r], a[r]), M[m + k + r][n + k])))>> \o a,
                        <<>>, Idx(ns))
      grad(u, sg) == LET a == adj(u, sg) IN [i \in 1..n |-> NAdd(Sum(m, LAMBDA j : NMul(u[j], M[j][i])), Sum(ns, LAMBDA k : NMul(Times(sg[k], a[k]), M[m + k][i])))]
      (* reverse sweep with weights from offset o *)
      W(o) == [j \in 1..(m + ns) |-> Wt(e, j - 1 + o)]
      rv(o) == [k \in 1..(n + ns) |-> Sum(m + ns, LAMBDA j : NMul(W(o)[j], M[j][k]))]
      (* sparsity *)
      dep == TLCEval(Dep0(t.ins, [i \in DOMAIN t.sR |-> DNone], FALSE, <<n>>, t.rmm))
      may(i, k) == k \in (IF i <= m THEN dep.out[i].D ELSE dep.sw[i - m].D)
      pat == Concat([i \in 1..(m + ns) |-> [k \in 1..(n + ns) |-> IF ~may(i, k) THEN 0 ELSE IF full /\ ~nan /\ Sure(M[i][k]) THEN 1 ELSE 2]])
      pblk(f, r0, r, c0, c) == Concat([i \in 1..r |-> [k \in 1..c |-> f[(r0 + i - 1) * (n + ns) + c0 + k]]])
      pblocks(f) == pblk(f, 0, m, 0, n) \o pblk(f, 0, m, n, ns) \o pblk(f, m, ns, 0, n) \o pblk(f, m, ns, n, ns)
      key == Key("pl", e.tag)
      found == IF e.err = "" /\ e.rc >= 0 /\ Len(e.k) = Len(pat) /\ WellFormed(e.k) THEN e.k ELSE <<>>
      old == IF Known(s, key) THEN s.g[key] ELSE <<>>
      bp == pblocks([i \in DOMAIN pat |-> pat[i]])
      covers == Len(old) = Len(bp) /\ \A i \in DOMAIN bp : bp[i] = 0 \/ old[i] = 1
  IN
  IF rev THEN
     IF t.kept.deg = -2 THEN R_(s, Free)
     ELSE IF t.kept.deg /= 0 THEN R_(s, Err)
     ELSE IF ~okk \/ ~full THEN R_(s, Free)
     ELSE LET rc == [Ok EXCEPT !.rc = 100 + t.kept.rc] IN
          CASE e.kind = "rfos" -> R_(s, [rc EXCEPT !.on = hide(rv(0))])
            [] e.kind = "rfov" -> R_(s, [rc EXCEPT !.on = hide(Concat([l \in 1..e.p |-> rv(3 * (l - 1))]))])
            [] e.kind = "rsig" -> R_(s, [rc EXCEPT !.on = hide(grad([j \in 1..m |-> Wt(e, j - 1)], [k \in 1..ns |-> Sg(Wt(e, m + k - 1))]))])
  ELSE IF e.kind \in SparseKind THEN
     LET s1 == Kept_(s, e.tag)
         s2 == [s1 EXCEPT !.g = (key :> found) @@ (Key("sj", e.tag) :> <<>>) @@ @]
         no == [s1 EXCEPT !.g = (key :> <<>>) @@ (Key("sj", e.tag) :> <<>>) @@ @]
         cnt(f, r0, r, c0, c) == Count1(pblk(f, r0, r, c0, c))
         res(f, v) == [Ok EXCEPT !.rc = 97, !.oi = f, !.on = hide(yv \o zv) \o v]
     IN  IF e.kind = "pat" THEN (IF z.unk THEN R_(s1, Free) ELSE R_(s1, [Ok EXCEPT !.rc = 97, !.oi = pat]))
         ELSE IF z.unk \/ z.err THEN R_(no, Free)
         ELSE IF e.kind \in {"sanf", "sanfm"} THEN
              IF z.rc < 0 THEN R_(no, Free)
              ELSE IF e.kind = "sanfm" /\ e.rc = -3 THEN R_(no, Free)
              ELSE R_(s2, res(pblocks(pat), hide(blocks \o consts)))
         ELSE IF ~Known(s, key) /\ ~Known(s, Key("sj", e.tag)) THEN R_(s1, [Ok EXCEPT !.rc = -3])
         ELSE IF old = <<>> \/ z.rc < 0 \/ e.dsw /= 0 THEN R_(s1, Free)
         ELSE IF e.kind = "sanfrm" /\ e.rc = -3 THEN R_(s1, Free)
         ELSE R_(s1, res(old, IF covers THEN hide(blocks \o consts) ELSE Nan(Len(blocks) + Len(consts))))
  ELSE IF ~full THEN (IF e.kind \in {"zos", "zosk", "fos", "fov"} /\ ~z.unk /\ ~z.err
                      THEN R_(IF e.kind = "zosk" THEN [s EXCEPT !.T[e.tag].kept = KeptNone] ELSE s, [Ok EXCEPT !.rc = z.rc, !.on = Nan((m + ns) * (IF e.kind \in {"zos", "zosk"} THEN 1 ELSE 1 + e.p)), !.oi = IF e.kind = "fov" THEN [k \in 1..ns |-> 2] ELSE <<>>])
                      ELSE gone)
  ELSE
  CASE e.kind \in {"zos", "zosk"} -> R_(kp, [Ok EXCEPT !.rc = z.rc, !.weak = z.weak, !.on = hide(yv \o zv)])
    [] e.kind \in {"fos", "fov"} -> R_(s, [Ok EXCEPT !.rc = z.rc, !.weak = z.weak, !.on = hide(fw(lin)), !.oi = IF e.kind = "fov" THEN (IF nan THEN [k \in 1..ns |-> 2] ELSE lin[3]) ELSE <<>>])
    [] e.kind \in {"sfos", "sfov", "sfosd"} -> R_(s, [Ok EXCEPT !.rc = z.rc, !.weak = z.weak, !.on = hide(fw(sig)), !.oi = IF nan THEN [k \in 1..ns |-> 2] ELSE sig[3]])
    [] e.kind \in {"anf", "anfq"} -> R_(kp, [Ok EXCEPT !.rc = 0, !.on = hide(yv \o zv \o blocks \o consts)])
    [] e.kind = "anfc" -> R_(kp, [Ok EXCEPT !.rc = 0, !.on = hide(yv \o zv \o blocks)])
    [] e.kind = "dag" ->
         LET zero(k) == Sgn(zv[k]) # 1 /\ Sgn(zv[k]) # -1
             (* in the domain: a switching variable at its kink does not depend on other absolute values *)
             simple == \A k \in 1..ns : zero(k) => NSign(zv[k]) = 0 /\ \A q \in 1..ns : M[m + k][n + q] = S0 \/ (NExact(M[m + k][n + q]) /\ NSign(M[m + k][n + q]) = 0)
             flat(k) == \A i \in 1..n : NExact(M[m + k][i]) /\ NSign(M[m + k][i]) = 0
             lost == \E k \in 1..ns : zero(k) /\ flat(k)
             dz(k) == Sum(n, LAMBDA i : NMul(M[m + k][i], X(i, 1)))
             want == [k \in 1..ns |-> IF zero(k) THEN (IF NSign(dz(k)) \in {-1, 1} THEN NSign(dz(k)) ELSE 2) ELSE Sgn(zv[k])]
             got == [k \in 1..ns |-> IF Len(e.k) = ns THEN e.k[k] ELSE 0]
             zeroX == \A i \in 1..n : NSign(X(i, 1)) = 0
         IN  IF ~simple \/ nan \/ zeroX THEN R_(any, Free)
             ELSE IF lost THEN R_(any, Err)
             ELSE IF \E k \in 1..ns : got[k] \notin {-1, 1} THEN R_(any, [Ok EXCEPT !.oi = [k \in 1..ns |-> 1]])
             ELSE R_(IF e.err = "" THEN kp ELSE any, [Ok EXCEPT !.on = grad(<<S1>>, got), !.oi = want])
    [] OTHER -> R_(s, Free)
===============================================================================

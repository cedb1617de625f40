---------------------------------- MODULE Doc ---------------------------------
(***************************************************************************)
(* Statistics of a tape and the description printed from it.               *)
(*                                                                         *)
(* The description is itself a program over numbered locations.  Read as   *)
(* such, it has to compute what the recorded program computes - at the     *)
(* recorded point and at any other on the same branches - and its rows     *)
(* have to be counted consistently with the statistics.                    *)
(***************************************************************************)
EXTENDS PL

(* numbering of the statistics *)
SInd == 1 SDep == 2 SLive == 3 STay == 4 SObuf == 5 SOps == 6 SLbuf == 12 SVbuf == 13 STbuf == 14 SMM == 16 SSw == 17 SPar == 18

(* e.bufs: << operations, locations, values, Taylors >> per buffer, if chosen by the caller *)
Stats(s, e) ==
  IF UnkTape(s, e) THEN R_(s, Free)
  ELSE IF ~Has(s, e.tag) THEN R_(s, Err)
  ELSE IF s.T[e.tag].mode /= "done" THEN R_(s, Free)
  ELSE
  LET t == s.T[e.tag]
      k == e.k
      st == t.st
      must == <<
        IF Len(k) /= 18 THEN 100 ELSE 0,
        IF k[SInd] /= t.n THEN 101 ELSE 0,
        IF k[SDep] /= t.m THEN 102 ELSE 0,
        IF k[SPar] /= Len(t.par) THEN 118 ELSE 0,
        IF t.rmm /= (k[SMM] /= 0) THEN 116 ELSE 0,
        IF t.rmm /\ k[SSw] < NumAbs(t) THEN 117 ELSE 0,
        IF e.bufs /= <<>> /\ (k[SObuf] /= e.bufs[1] \/ k[SLbuf] /= e.bufs[2] \/ k[SVbuf] /= e.bufs[3] \/ k[STbuf] /= e.bufs[4]) THEN 105 ELSE 0,
        (* evaluating a tape changes nothing but the size of the Taylor stack it left *)
        IF st /= <<>> /\ \E i \in 1..18 : i /= STay /\ st[i] /= k[i] THEN 120 ELSE 0,
        IF k[STay] < 0 THEN 104 ELSE 0 >>
      wrong == IF Len(k) /= 18 THEN {100} ELSE {must[i] : i \in DOMAIN must} \ {0}
      t1 == [t EXCEPT !.st = IF Len(k) = 18 THEN k ELSE <<>>, !.tays = IF t.st = <<>> /\ Len(k) = 18 THEN k[STay] ELSE 0]
  IN  IF e.err /= "" THEN R_(s, Ok)
      ELSE R_([s EXCEPT !.T[e.tag] = t1], [Ok EXCEPT !.oi = IF wrong = {} THEN k ELSE <<1000 + (CHOOSE w \in wrong : TRUE)>>])

(* ---- the printed program ------------------------------------------------------------ *)
Undef == NaR
CellAt(F, i) == IF i \in DOMAIN F THEN F[i] ELSE Undef
Pt0(v) == [v |-> <<v>>, t |-> <<>>]
Fn(f, v) == LET j == JUn(f, Pt0(v)) IN j.v[1]
RootPi == NConv("0.88622692545275801365")
ErfFn(v) == NDiv(NFun("erf", v), RootPi)
Sign3(v) == NSign(v)
(* unary operations: name -> function; the second location belongs to an auxiliary value *)
Un2 == {"exp op", "log op", "sqrt op", "cbrt op"}
Un3 == {"atan op", "asin op", "acos op", "asinh op", "acosh op", "atanh op", "erf op", "erfc op"}
Bare(nm) == CASE nm = "exp op" -> "exp" [] nm = "log op" -> "log" [] nm = "sqrt op" -> "sqrt" [] nm = "cbrt op" -> "cbrt" [] nm = "atan op" -> "atan"
              [] nm = "asin op" -> "asin" [] nm = "acos op" -> "acos" [] nm = "asinh op" -> "asinh" [] nm = "acosh op" -> "acosh" [] nm = "atanh op" -> "atanh"
Opaque == {"gen quad", "vec axpy", "extern diff", "extern diff iArr", "extern diff v2"}
Silent == {"start of tape", "end of tape", "end of op", "end of int", "end of val", "death not", "eq zero", "neq zero", "le zero", "gt zero", "ge zero", "lt zero"}

(* st = [F: location -> number, out, ni, ok]; nm name, l locations, c constants *)
DocStep(st, nm, l, c, xs, par) ==
  LET F == st.F
      g(i) == CellAt(F, l[i])
      put(i, v) == [st EXCEPT !.F = (l[i] :> v) @@ @]
      place(p, v) == [st EXCEPT !.F = (p :> v) @@ @]
      lost == [st EXCEPT !.ok = FALSE]
      lref == CASE nm \in {"ref assign a", "ref eq plus a", "ref eq min a", "ref eq mult a"} -> 2
                [] nm \in {"ref cond assign s", "ref cond eq assign s"} -> 3
                [] nm \in {"ref cond assign", "ref cond eq assign"} -> 4
                [] OTHER -> 1
      ref == IF NIs(g(lref)) /\ NExact(g(lref)) THEN NTrunc(g(lref)) ELSE -1
      rput(v) == IF ref < 0 THEN lost ELSE place(ref, v)
      rold == CellAt(F, ref)
      mag == IF NSign(g(1)) = -1 THEN NNeg(g(1)) ELSE g(1)
      (* an index computed from rounded constants may sit next to an integer *)
      vague == ~NExact(mag) /\ LET q == NMul(mag, NInt(1000)) IN NTrunc(q) % 1000 \in {0, 999}
      index == IF NIs(g(1)) THEN NTrunc(mag) ELSE -1
      pick(v) == IF index < 0 THEN lost ELSE [put(3, v) EXCEPT !.vague = @ \/ vague]
      choose(v, eq, pos, neg) == LET q == NSign(v) IN IF q = 2 THEN Undef ELSE IF (IF eq THEN q >= 0 ELSE q > 0) THEN pos ELSE neg
  IN
  CASE nm \in Silent -> st
    [] nm = "assign a" -> put(2, g(1))
    [] nm = "assigne d" -> put(1, c[1])
    [] nm = "assign d one" -> put(1, S1)
    [] nm = "assign d zero" -> put(1, S0)
    [] nm = "assign ind" -> IF st.ni < Len(xs) THEN [put(1, xs[st.ni + 1]) EXCEPT !.ni = @ + 1] ELSE [st EXCEPT !.ni = @ + 1]
    [] nm = "assign dep" -> [st EXCEPT !.out = Append(@, g(1))]
    [] nm = "assign p" -> put(2, IF l[1] + 1 \in DOMAIN par THEN par[l[1] + 1] ELSE Undef)
    [] nm = "eq plus d" -> put(1, NAdd(g(1), c[1]))
    [] nm = "eq min d" -> put(1, NSub(g(1), c[1]))
    [] nm = "eq mult d" -> put(1, NMul(g(1), c[1]))
    [] nm = "eq plus a" -> put(2, NAdd(g(2), g(1)))
    [] nm = "eq min a" -> put(2, NSub(g(2), g(1)))
    [] nm = "eq mult a" -> put(2, NMul(g(2), g(1)))
    [] nm = "eq plus prod" -> put(3, NAdd(g(3), NMul(g(1), g(2))))
    [] nm = "eq min prod" -> put(3, NSub(g(3), NMul(g(1), g(2))))
    [] nm = "incr a" -> put(1, NAdd(g(1), S1))
    [] nm = "decr a" -> put(1, NSub(g(1), S1))
    [] nm = "plus a a" -> put(3, NAdd(g(1), g(2)))
    [] nm = "min a a" -> put(3, NSub(g(1), g(2)))
    [] nm = "mult a a" -> put(3, NMul(g(1), g(2)))
    [] nm = "div a a" -> put(3, NDiv(g(1), g(2)))
    [] nm = "plus d a" -> put(2, NAdd(g(1), c[1]))
    [] nm = "min d a" -> put(2, NSub(c[1], g(1)))
    [] nm = "mult d a" -> put(2, NMul(c[1], g(1)))
    [] nm = "div d a" -> put(2, NDiv(c[1], g(1)))
    [] nm = "pos sign a" -> put(2, g(1))
    [] nm = "neg sign a" -> put(2, NNeg(g(1)))
    [] nm \in Un2 -> put(2, Fn(Bare(nm), g(1)))
    [] nm = "sin op" -> LET a == g(1) IN [st EXCEPT !.F = (l[3] :> Fn("sin", a)) @@ (l[2] :> Fn("cos", a)) @@ @]
    [] nm = "cos op" -> LET a == g(1) IN [st EXCEPT !.F = (l[3] :> Fn("cos", a)) @@ (l[2] :> Fn("sin", a)) @@ @]
    [] nm = "erf op" -> put(3, ErfFn(g(1)))
    [] nm = "erfc op" -> put(3, NSub(S1, ErfFn(g(1))))
    [] nm \in Un3 -> put(3, Fn(Bare(nm), g(1)))
    [] nm = "pow op" -> put(2, JPowC(Pt0(g(1)), c[1]).v[1])
    [] nm = "min op" -> LET q == NCmp(g(1), g(2)) IN put(3, IF q = 2 THEN Undef ELSE IF q = 1 THEN g(2) ELSE g(1))
    [] nm = "abs val" -> put(2, NAbs(g(1)))
    [] nm = "ceil op" -> put(2, NFun("ceil", g(1)))
    [] nm = "floor op" -> put(2, NFun("floor", g(1)))
    [] nm = "cond assign" -> put(4, choose(g(1), FALSE, g(2), g(3)))
    [] nm = "cond assign s" -> put(3, choose(g(1), FALSE, g(2), g(3)))
    [] nm = "cond eq assign" -> put(4, choose(g(1), TRUE, g(2), g(3)))
    [] nm = "cond eq assign s" -> put(3, choose(g(1), TRUE, g(2), g(3)))
    [] nm = "vec copy" -> [st EXCEPT !.F = [i \in l[3]..(l[3] + l[2] - 1) |-> CellAt(F, l[1] + i - l[3])] @@ @]
    [] nm = "vec dot" -> put(4, FoldLeft(LAMBDA a, i : NAdd(a, NMul(CellAt(F, l[1] + i), CellAt(F, l[2] + i))), S0, [i \in 1..l[3] |-> i - 1]))
    [] nm = "take stock op" -> [st EXCEPT !.F = [i \in l[2]..(l[2] + l[1] - 1) |-> IF i = l[2] THEN c[1] ELSE Undef] @@ @]
    [] nm = "subscript" -> pick(CellAt(F, l[2] + index))
    [] nm = "subscript ref" -> pick(NInt(l[2] + index))
    [] nm = "ref copyout" -> IF ref < 0 THEN lost ELSE put(2, rold)
    [] nm = "ref incr a" -> rput(NAdd(rold, S1))
    [] nm = "ref decr a" -> rput(NSub(rold, S1))
    [] nm = "ref assign d" -> rput(c[1])
    [] nm = "ref assign d zero" -> rput(S0)
    [] nm = "ref assign d one" -> rput(S1)
    [] nm = "ref assign a" -> rput(g(1))
    [] nm = "ref assign ind" -> IF st.ni < Len(xs) THEN [rput(xs[st.ni + 1]) EXCEPT !.ni = @ + 1] ELSE [st EXCEPT !.ni = @ + 1]
    [] nm = "ref eq plus d" -> rput(NAdd(rold, c[1]))
    [] nm = "ref eq min d" -> rput(NSub(rold, c[1]))
    [] nm = "ref eq mult d" -> rput(NMul(rold, c[1]))
    [] nm = "ref eq plus a" -> rput(NAdd(rold, g(1)))
    [] nm = "ref eq min a" -> rput(NSub(rold, g(1)))
    [] nm = "ref eq mult a" -> rput(NMul(rold, g(1)))
    [] nm = "ref cond assign" -> rput(choose(g(1), FALSE, g(2), g(3)))
    [] nm = "ref cond eq assign" -> rput(choose(g(1), TRUE, g(2), g(3)))
    [] nm = "ref cond assign s" -> rput(choose(g(1), FALSE, g(2), rold))
    [] nm = "ref cond eq assign s" -> rput(choose(g(1), TRUE, g(2), rold))
    [] OTHER -> lost

(* the two numbers are surely different *)
Differ(a, b) == LET z == NSub(a, b)
                    tol == NMul(NConv("1e-9"), NAdd(S1, NAdd(NAbs(a), NAbs(b))))
                IN  NIs(a) /\ NIs(b) /\ (NCmp(z, tol) = 1 \/ NCmp(z, NNeg(tol)) = -1)

DocCheck(s, e) ==
  IF UnkTape(s, e) THEN R_(s, Free)
  ELSE IF Bad(s, e) THEN R_(s, Err)
  ELSE IF e.err /= "" THEN R_(s, Ok)
  ELSE
  LET t == s.T[e.tag]
      rows == Len(e.s)
      shape == Len(e.k) = 2 + 6 * rows /\ Len(e.o) = 2 * rows /\ rows >= 2
      nops == e.k[1]
      lives == e.k[2]
      cnt(i) == e.k[2 + 6 * (i - 1) + 1]
      rev(i) == e.k[2 + 6 * (i - 1) + 2]
      locs(i) == SubSeq(e.k, 2 + 6 * (i - 1) + 3, 2 + 6 * i)
      csts(i) == <<NAbout(e.o[2 * i - 1]), NAbout(e.o[2 * i])>>
      (* locations that are sizes, parameters or markers, not variables *)
      vars(i) == CASE e.s[i] \in {"vec copy"} -> {locs(i)[1] + locs(i)[2] - 1, locs(i)[3] + locs(i)[2] - 1}
                   [] e.s[i] \in {"vec dot", "vec axpy", "take stock op", "death not", "extern diff", "extern diff iArr", "extern diff v2"} -> {}
                   [] e.s[i] = "assign p" -> {locs(i)[2]}
                   [] OTHER -> {locs(i)[k] : k \in 1..4}
      run(x) == FoldLeft(LAMBDA st, i : IF st.ok THEN TLCEval(DocStep(st, e.s[i], locs(i), csts(i), x, t.par)) ELSE st,
                         [F |-> NoFun, out |-> <<>>, ni |-> 0, ok |-> TRUE, vague |-> FALSE], [i \in 1..rows |-> i])
      pts == <<t.xs, Nums(e.x)>>
      opaque == \E i \in 1..rows : e.s[i] \in Opaque
      agree(x) == LET z == Eval(t, [i \in 1..Len(x) |-> <<x[i]>>], 0, FALSE)
                      d == run(x)
                  IN  IF z.unk \/ z.err \/ z.rc < 0 THEN TRUE
                      ELSE IF d.vague THEN TRUE
                      ELSE IF ~d.ok THEN opaque
                      ELSE Len(d.out) = t.m /\ d.ni = t.n /\ \A j \in 1..t.m : ~Differ(d.out[j], z.out[j].v[1])
      wrong == IF ~shape THEN 200
               ELSE IF e.s[1] /= "start of tape" \/ e.s[rows] /= "end of tape" THEN 201
               ELSE IF \E i \in 3..(rows - 1) : cnt(i) /= cnt(i - 1) + (IF e.s[i - 1] = "end of op" THEN 2 ELSE 1) THEN 202
               ELSE IF \E i \in 2..rows : cnt(i) + rev(i) /= nops + 1 THEN 203
               ELSE IF cnt(rows) /= nops THEN 204
               ELSE IF \E i \in 1..rows : \E v \in vars(i) : v >= lives THEN 205
               ELSE IF Cardinality({i \in 1..rows : e.s[i] \in {"assign ind", "ref assign ind"}}) /= t.n THEN 206
               ELSE IF Cardinality({i \in 1..rows : e.s[i] = "assign dep"}) /= t.m THEN 207
               ELSE IF opaque THEN 0
               ELSE IF ~agree(pts[1]) THEN 210
               ELSE IF ~agree(pts[2]) THEN 211 ELSE 0
  IN  R_(s, [Ok EXCEPT !.oi = IF wrong = 0 THEN e.k ELSE <<1000 + wrong>>, !.on = Nums(e.o)])
===============================================================================

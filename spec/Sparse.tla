------------------------------- MODULE Sparse -------------------------------
(***************************************************************************)
(* Sparsity patterns and sparse derivatives of recorded programs.          *)
(*                                                                         *)
(* A pattern is bounded from both sides: it must hold every position whose *)
(* derivative differs from zero (exact jets), and nothing that a direct    *)
(* dependence analysis of the recorded operations does not yield.  Two     *)
(* analyses exist: along the branches taken at a point (the structure of   *)
(* the jets), and over all branches (Dep below; for second derivatives     *)
(* with the pairs of independents that meet in a nonlinear operation).     *)
(***************************************************************************)
EXTENDS Traceless

(* ---- dependence over all branches ---------------------------------------- *)
(* a register holds [D |-> independents it depends on, P |-> pairs met nonlinearly] *)
DNone == [D |-> {}, P |-> {}]
Cross(A, B) == {<<i, j>> : i \in A, j \in B} \cup {<<j, i>> : i \in A, j \in B}
DAdd(a, b) == [D |-> a.D \cup b.D, P |-> a.P \cup b.P]
DMul(a, b) == [D |-> a.D \cup b.D, P |-> a.P \cup b.P \cup Cross(a.D, b.D)]
DDiv(a, b) == [D |-> a.D \cup b.D, P |-> a.P \cup b.P \cup Cross(a.D, b.D) \cup Cross(b.D, b.D)]
DNon(a) == [a EXCEPT !.P = @ \cup Cross(a.D, a.D)]
Linear == {"asg", "copy", "neg", "pos", "addc", "subc", "mulc", "divc", "cadd", "csub", "cmul", "addp", "subp", "mulp", "divp", "padd", "psub", "pmul",
           "ldexp", "ceil", "floor", "fabs", "fminc", "minc", "fmaxc", "maxc", "cfmin", "cmin", "cfmax", "cmax", "fminp", "pfmin", "fmaxp", "pfmax"}
Constant == {"asgc", "strin", "frexp", "newc", "new", "newp", "asgp", "negp", "powpc", "unp", "addpc", "subpc", "mulpc", "divpc", "addcp", "subcp", "mulcp", "divcp"}
InPlace == {"eqac", "eqsc", "eqmc", "eqdc", "eqap", "eqsp", "eqmp1", "eqdp", "incpre", "decpre"}
Extremum == {"fmin", "min", "fmax", "max"}
Extremum1 == {"fminc", "minc", "fmaxc", "maxc", "cfmin", "cmin", "cfmax", "cmax", "fminp", "pfmin", "fmaxp", "pfmax"}
(* P |-> FALSE: the pairs are not wanted *)
(* pl /= <<>>: the absolute values are independents of their own, numbered from pl[1] + 1;
   mm: minima and maxima are formed with them *)
Dep0(ins, R0, pairs, pl, mm) ==
  LET Strip(z) == IF pairs THEN z ELSE [z EXCEPT !.P = {}]
      St(s, x) ==
        LET o == x.op
            g(i) == s.R[i]
            isabs == o = "fabs" \/ (o = "unp" /\ x.k = 12) \/ (mm /\ (o \in Extremum \/ o \in Extremum1))
            sw(v) == [s EXCEPT !.R = (x.r :> [D |-> {pl[1] + Len(s.sw) + 1} \cup (IF o \in Extremum \/ o \in Extremum1 THEN v.D ELSE {}), P |-> {}]) @@ @,
                               !.sw = Append(@, v)]
            set(v) == [s EXCEPT !.R = (x.r :> Strip(v)) @@ @, !.all = IF pairs THEN @ \cup v.P ELSE @]
            pr(a, b) == IF pairs THEN DMul(a, b) ELSE DAdd(a, b)
        IN  CASE pl /= <<>> /\ isabs -> sw(IF o = "unp" THEN DNone ELSE IF o \in Extremum THEN DAdd(g(x.a), g(x.b)) ELSE g(x.a))
              [] o = "ind" -> [set([D |-> {s.ni + 1}, P |-> {}]) EXCEPT !.ni = @ + 1]
              [] o = "dep" -> [s EXCEPT !.out = Append(@, g(x.r))]
              [] o \in Constant -> set(DNone)
              [] o \in Linear -> set(g(x.a))
              [] o \in InPlace \/ o \in {"br", "brc", "cbr", "brp", "pbr", "strout", "mkp"} -> s
              [] o \in {"add", "sub"} \/ o \in Extremum -> set(DAdd(g(x.a), g(x.b)))
              [] o = "mul" -> set(pr(g(x.a), g(x.b)))
              [] o = "div" -> set(IF pairs THEN DDiv(g(x.a), g(x.b)) ELSE DAdd(g(x.a), g(x.b)))
              [] o \in {"eqa", "eqs"} -> set(DAdd(g(x.r), g(x.a)))
              [] o = "eqm" -> set(pr(g(x.r), g(x.a)))
              [] o = "eqd" -> set(IF pairs THEN DDiv(g(x.r), g(x.a)) ELSE DAdd(g(x.r), g(x.a)))
              [] o \in {"eqp", "eqmp"} -> set(DAdd(g(x.r), IF pairs THEN DNon(DAdd(g(x.a), g(x.b))) ELSE DAdd(g(x.a), g(x.b))))
              [] o \in {"incpost", "decpost"} -> set(g(x.a))
              [] o = "move" -> set(g(x.a))
              [] o \in {"pow", "atan2", "ldexpr"} -> set(IF pairs THEN DNon(DAdd(g(x.a), g(x.b))) ELSE DAdd(g(x.a), g(x.b)))
              [] o \in {"cond", "condeq"} -> set(DAdd(g(x.b), g(x.k)))
              [] o \in {"cond2", "condeq2"} -> set(DAdd(g(x.r), g(x.b)))
              [] o = "vover" -> [s EXCEPT !.R = [i \in x.r..(x.r + x.b - 1) |->
                                    Strip(DAdd(DMul(g(x.a + i - x.r), g(x.a + ((i - x.r + 1) % x.b))), g(x.a + ((i - x.r + x.k) % x.b))))] @@ @, !.all = @ \cup {<<i, j>> : i, j \in UNION {g(q).D : q \in ((x.a..(x.a + 3)) \cup (x.b..(x.b + 3))) \cap DOMAIN s.R}}]
              [] o = "vaxpy" -> [s EXCEPT !.R = [i \in x.r..(x.r + x.k - 1) |->
                                    Strip(DAdd(DAdd(DMul(g(x.b + i - x.r), g(x.b + ((i - x.r + 1) % x.k))), DMul(g(x.a), g(x.a + i - x.r))), g(x.b + i - x.r)))] @@ @, !.all = @ \cup {<<i, j>> : i, j \in UNION {g(q).D : q \in ((x.a..(x.a + 3)) \cup (x.b..(x.b + 3))) \cap DOMAIN s.R}}]
              [] o = "vdot" -> set(FoldLeft(LAMBDA z, i : DAdd(z, DNon(DAdd(g(x.a + i - 1), g(x.b + i - 1)))), DNone, [i \in 1..x.k |-> i]))
              [] o = "vcopy" -> [s EXCEPT !.R = [i \in x.r..(x.r + x.b - 1) |-> s.R[x.a + i - x.r]] @@ @]
              [] o \in {"powc", "cpow", "cldexp", "cdiv", "pdiv", "powp", "ppow"} \/ o \in UnOps -> set(IF pairs THEN DNon(g(x.a)) ELSE g(x.a))
  IN  FoldLeft(LAMBDA s, x : TLCEval(St(s, x)), [R |-> R0, ni |-> 0, out |-> <<>>, all |-> {}, sw |-> <<>>], ins)
DepAll(t, pairs) == Dep0(t.ins, [i \in DOMAIN t.sR |-> DNone], pairs, <<>>, FALSE)
Dep(t, pairs) == DepAll(t, pairs).out
(* pairs of independents met anywhere in the program: an index domain is not
   restricted to the operations the dependent is computed from *)
Pairs(t) == DepAll(t, TRUE).all

VectorOps == {"avnew", "avcopy", "avset", "avsett", "avfrom", "avass", "avsetc", "avind", "avget", "rd", "rdref", "wr", "wrc", "wrp", "wind", "wdep", "weqa", "weqs", "weqm", "weqd", "weqac", "weqsc",
              "weqmc", "weqdc", "winc", "wincg", "wcond", "wcondeq", "wcond2", "wcondeq2", "avlook", "avkill"}
UsesVectors(t) == \E i \in DOMAIN t.ins : t.ins[i].op \in VectorOps

(* ---- expectations ---------------------------------------------------------- *)
Sure(v) == NSign(v) \in {-1, 1}
Reaches(z, j, i) == LET t == z.out[j].t IN IF t = <<>> THEN FALSE ELSE t[i] /= <<>>
(* 1 required, 0 excluded, 2 either; zs: evaluations at points where the pattern must be valid *)
JacPattern(m, n, zs, may(_, _)) ==
  Concat([j \in 1..m |-> [i \in 1..n |->
     IF ~may(j, i) THEN 0
     ELSE IF \E k \in DOMAIN zs : zs[k].rc >= 0 /\ ~zs[k].nan /\ Reaches(zs[k], j, i) /\ Sure(Par(zs[k], j, i, 0)) THEN 1 ELSE 2]])
Kept_(s, tag) == IF Has(s, tag) THEN [s EXCEPT !.T[tag].kept = KeptAny] ELSE s
Recorded0(t) == [x |-> t.xs, n |-> t.n]
AtRecorded(t) == Eval(t, [i \in 1..t.n |-> <<t.xs[i]>>], 0, TRUE)

(* Jacobian patterns; e.sm 0 index domains, 1 bit patterns; e.cfm 0 safe, 1 tight *)
Noted(s, e) == IF e.err = "" /\ e.rc >= 0 THEN [s EXCEPT !.g = ("pat" :> e.k) @@ @]
               ELSE [s EXCEPT !.g = [i \in DOMAIN @ \ {"pat"} |-> @[i]]]
(* what a propagation at a point says about the recorded kinks *)
Kinks(z) == IF z.tie \/ z.weak THEN 97 ELSE z.rc
JacPat(s, e) ==
  LET s1 == Noted(Kept_(s, e.tag), e) IN
  IF UnkTape(s, e) THEN R_(s1, Free) ELSE IF Bad(s, e) THEN R_(s1, Err) ELSE
  LET t == s.T[e.tag]
      z == At(t, e)
      r == AtRecorded(t)
      d == TLCEval(Dep(t, FALSE))
  IN  IF e.nox /\ e.cfm = 1 THEN R_(s1, Err)
      ELSE IF z.unk THEN R_(s1, Free)
      ELSE IF z.err THEN R_(s1, IF UsesVectors(t) /\ e.cfm = 0 THEN Free ELSE Err)
      ELSE IF e.cfm = 1 /\ z.rc < 0 THEN R_(s1, [Ok EXCEPT !.rc = -1])
      (* subscripts that are variables are not accepted without a point *)
      ELSE IF UsesVectors(t) /\ e.cfm = 0
           THEN R_(s1, [Ok EXCEPT !.rc = 97, !.opt = TRUE, !.oi = JacPattern(e.m, e.n, IF e.nox THEN <<r>> ELSE <<r, z>>, LAMBDA j, i : TRUE)])
      ELSE IF e.cfm = 1 THEN R_(s1, [Ok EXCEPT !.rc = IF e.sm = 0 THEN Kinks(z) ELSE 97, !.oi = JacPattern(e.m, e.n, <<z>>, LAMBDA j, i : Reaches(z, j, i))])
      ELSE R_(s1, [Ok EXCEPT !.rc = 97, !.oi = JacPattern(e.m, e.n, IF e.nox THEN <<r>> ELSE <<r, z>>, LAMBDA j, i : i \in d[j].D)])

(* second derivatives: z[i] evaluated along the i-th unit vector *)
AlongUnits(t, x, n) == TLCEval([i \in 1..n |-> Eval(t, [k \in 1..n |-> <<x[k], IF k = i THEN S1 ELSE S0>>], 1, TRUE)])
HessPattern(n, zss, may(_, _)) ==
  Concat([i \in 1..n |-> [k \in 1..n |->
     IF ~may(i, k) THEN 0
     ELSE IF \E q \in DOMAIN zss : zss[q][1].rc >= 0 /\ ~zss[q][1].nan /\ Sure(Par(zss[q][i], 1, k, 1)) THEN 1 ELSE 2]])
HessPat(s, e) ==
  LET s1 == Noted(Kept_(s, e.tag), e) IN
  IF UnkTape(s, e) THEN R_(s1, Free) ELSE IF Bad(s, e) THEN R_(s1, Err) ELSE
  LET t == s.T[e.tag]
      tight == e.cfm \in {1, 3}
      zs == AlongUnits(t, Nums(e.x), e.n)
      rs == AlongUnits(t, t.xs, e.n)
      d == TLCEval(IF UsesVectors(t) THEN (1..e.n) \X (1..e.n) ELSE Pairs(t))
  IN  IF AnyUnk(zs) \/ (UsesVectors(t) /\ ~tight) THEN R_(s1, Free)
      ELSE IF AnyErr(zs) THEN R_(s1, Err)
      ELSE IF tight /\ zs[1].rc < 0 THEN R_(s1, [Ok EXCEPT !.rc = -1])
      ELSE R_(s1, [Ok EXCEPT !.rc = IF e.cfm = 1 THEN Kinks(zs[1]) ELSE 97, !.oi = HessPattern(e.n, IF tight THEN <<zs>> ELSE IF e.nox THEN <<rs>> ELSE <<rs, zs>>,
                                                    LAMBDA i, k : e.cfm \in {2, 3} \/ <<i, k>> \in d)])

(* ---- sparse drivers ---------------------------------------------------------- *)
Key(w, tag) == w \o ToString(tag)
Known(s, k) == k \in DOMAIN s.g
Count1(f) == Cardinality({i \in DOMAIN f : f[i] = 1})
WellFormed(f) == \A i \in DOMAIN f : f[i] \in {0, 1}
(* the structure found by the first call is used again by the following *)
SparseJac(s, e) ==
  LET s1 == Kept_(s, e.tag) IN
  IF UnkTape(s, e) THEN R_(s1, Free) ELSE IF Bad(s, e) THEN R_(s1, Err) ELSE
  LET t == s.T[e.tag]
      k == Key("sj", e.tag)
      z == At(t, e)
      r == AtRecorded(t)
      d == TLCEval(Dep(t, FALSE))
      val == Concat([j \in 1..e.m |-> [i \in 1..e.n |-> IF z.nan \/ z.tie THEN NaR ELSE Par(z, j, i, 0)]])
      may(j, i) == IF e.cfm = 1 THEN Reaches(z, j, i) ELSE i \in d[j].D
      pat == JacPattern(e.m, e.n, IF e.cfm = 1 THEN <<z>> ELSE <<r, z>>, may)
      found == IF e.rc >= 0 /\ Len(e.k) = e.m * e.n /\ WellFormed(e.k) THEN e.k ELSE <<>>
      old == IF Known(s, k) THEN s.g[k] ELSE <<>>
      covers == Len(old) = e.m * e.n /\ \A j \in 1..e.m : \A i \in 1..e.n : Reaches(z, j, i) => old[(j - 1) * e.n + i] = 1
      s2 == [s1 EXCEPT !.g = (k :> found) @@ @]
      badmem(f) == e.capi = 0 /\ e.mem >= 0 /\ e.mem /= Count1(f)
  IN  IF z.unk \/ (UsesVectors(t) /\ e.cfm /= 1) THEN R_([s1 EXCEPT !.g = (k :> <<>>) @@ @], Free)
      ELSE IF z.err THEN R_([s1 EXCEPT !.g = (k :> <<>>) @@ @], Err)
      ELSE IF e.rep = 0 THEN
           IF z.rc < 0 THEN R_([s1 EXCEPT !.g = (k :> <<>>) @@ @], IF e.cfm = 1 THEN [Ok EXCEPT !.rc = -1] ELSE Free)
           (* storage offered by the caller that does not fit is refused *)
           ELSE IF e.capi = 0 /\ e.mem >= 0 /\ e.rc = -3
                THEN R_([s1 EXCEPT !.g = (k :> <<>>) @@ @],
                        IF e.mem < Count1(pat) \/ e.mem > Cardinality({i \in DOMAIN pat : pat[i] # 0}) \/ 2 \in {pat[i] : i \in DOMAIN pat} THEN [Ok EXCEPT !.rc = -3] ELSE [Ok EXCEPT !.rc = 97])
           ELSE R_(s2, [Ok EXCEPT !.rc = IF badmem(found) THEN -3 ELSE 97, !.oi = pat, !.on = val])
      ELSE IF ~Known(s, k) THEN R_(s1, [Ok EXCEPT !.rc = -3])
      ELSE IF old = <<>> \/ z.rc < 0 THEN R_(s1, Free)
      ELSE IF badmem(old) THEN R_(s1, [Ok EXCEPT !.rc = -3])
      ELSE R_(s1, [Ok EXCEPT !.rc = 97, !.oi = old, !.on = IF covers THEN val ELSE [i \in DOMAIN val |-> NaR]])

Upper(n, f) == Concat([i \in 1..n |-> [k \in 1..(n - i + 1) |-> f[(i - 1) * n + i + k - 1]]])
SparseHess(s, e) ==
  LET s1 == Kept_(s, e.tag) IN
  IF UnkTape(s, e) THEN R_(s1, Free) ELSE IF Bad(s, e) THEN R_(s1, Err) ELSE
  LET t == s.T[e.tag]
      k == Key("sh", e.tag)
      n == e.n
      zs == AlongUnits(t, Nums(e.x), n)
      rs == AlongUnits(t, t.xs, n)
      d == TLCEval(IF UsesVectors(t) THEN (1..e.n) \X (1..e.n) ELSE Pairs(t))
      tight == e.cfm \in {1, 3}
      val == Concat([i \in 1..n |-> [q \in 1..(n - i + 1) |-> IF AnyNan(zs) \/ AnyTie(zs) THEN NaR ELSE Par(zs[i], 1, i + q - 1, 1)]])
      pat == Upper(n, HessPattern(n, IF tight THEN <<zs>> ELSE <<rs, zs>>, LAMBDA i, q : e.cfm \in {2, 3} \/ <<i, q>> \in d))
      found == IF e.rc >= 0 /\ Len(e.k) = (n * (n + 1)) \div 2 /\ WellFormed(e.k) THEN e.k ELSE <<>>
      old == IF Known(s, k) THEN s.g[k] ELSE <<>>
      hpat == Upper(n, HessPattern(n, <<zs>>, LAMBDA i, q : <<i, q>> \in d))
      (* positions that may differ from zero here belong to the structure used *)
      covers == Len(old) = Len(hpat) /\ \A i \in DOMAIN hpat : hpat[i] = 0 \/ old[i] = 1
      s2 == [s1 EXCEPT !.g = (k :> found) @@ @]
      opt == AnyNoHo(zs) \/ AnyTie(zs)
  IN  IF AnyUnk(zs) \/ (UsesVectors(t) /\ ~tight) THEN R_([s1 EXCEPT !.g = (k :> <<>>) @@ @], Free)
      ELSE IF AnyErr(zs) THEN R_([s1 EXCEPT !.g = (k :> <<>>) @@ @], Err)
      ELSE IF e.rep = 0 THEN
           IF zs[1].rc < 0 THEN R_([s1 EXCEPT !.g = (k :> <<>>) @@ @], IF tight THEN [Ok EXCEPT !.rc = -1] ELSE Free)
           ELSE R_(s2, [Ok EXCEPT !.rc = 97, !.oi = pat, !.on = val, !.opt = opt])
      ELSE IF ~Known(s, k) THEN R_(s1, [Ok EXCEPT !.rc = -3])
      ELSE IF old = <<>> \/ zs[1].rc < 0 THEN R_(s1, Free)
      ELSE IF e.mem >= 0 /\ e.mem /= Count1(old) THEN R_(s1, [Ok EXCEPT !.rc = -3])
      ELSE R_(s1, [Ok EXCEPT !.rc = 97, !.oi = old, !.on = IF covers THEN val ELSE [i \in DOMAIN val |-> NaR], !.opt = opt])

(* ---- propagation of bit patterns ------------------------------------------------ *)
(* e.b: for every input variable the bits set in its words *)
Bits(s, e) ==
  LET s1 == Kept_(s, e.tag) IN
  IF UnkTape(s, e) THEN R_(s1, Free) ELSE IF Bad(s, e) \/ e.via = 3 THEN R_(s1, Err) ELSE
  LET t == s.T[e.tag]
      z == At(t, e)
      r == AtRecorded(t)
      d == TLCEval(Dep(t, FALSE))
      tight == e.tight = 1
      pat == JacPattern(e.m, e.n, IF tight THEN <<z>> ELSE <<r, z>>, LAMBDA j, i : IF tight THEN Reaches(z, j, i) ELSE i \in d[j].D)
      cell(j, i) == pat[(j - 1) * e.n + i]
      has(v, b) == b \in {e.b[v][q] : q \in DOMAIN e.b[v]}
      fwd(j, b) == LET c == {cell(j, i) : i \in {q \in 1..e.n : has(q, b)}} IN IF 1 \in c THEN 1 ELSE IF 2 \in c THEN 2 ELSE 0
      bwd(i, b) == LET c == {cell(j, i) : j \in {q \in 1..e.m : has(q, b)}} IN IF 1 \in c THEN 1 ELSE IF 2 \in c THEN 2 ELSE 0
      nb == 32 * e.p
      res == IF e.kind = "f" THEN Concat([j \in 1..e.m |-> [b \in 1..nb |-> fwd(j, b - 1)]]) ELSE Concat([i \in 1..e.n |-> [b \in 1..nb |-> bwd(i, b - 1)]])
  IN  IF z.unk \/ (UsesVectors(t) /\ ~tight) THEN R_(s1, Free)
      ELSE IF z.err THEN R_(s1, Err)
      ELSE IF tight /\ z.rc < 0 THEN R_(s1, IF e.kind = "f" THEN [Ok EXCEPT !.rc = -1] ELSE Free)
      ELSE R_(s1, [Ok EXCEPT !.rc = 97, !.oi = res, !.on = IF tight THEN [j \in 1..e.m |-> Out(z, j, 1)] ELSE <<>>])

(* ---- seed matrices for the pattern obtained last --------------------------------------------------------------- *)
(* every column (row) of the Jacobian belongs to one group, and no two of a
   group meet in a row (column) of that pattern *)
SeedJac(s, e) ==
  LET pp == IF Len(e.k) > 0 THEN e.k[1] ELSE -1
      row == e.opt = 1
      N == IF row THEN e.m ELSE e.n
      at(a, g) == IF row THEN e.k[1 + (g - 1) * e.m + a] ELSE e.k[1 + (a - 1) * pp + g]
      grp(a) == {g \in 1..pp : at(a, g) = 1}
      flag(j, i) == s.g["pat"][(j - 1) * e.n + i] = 1
      meet(a, b) == IF row THEN \E i \in 1..e.n : flag(a, i) /\ flag(b, i) ELSE \E j \in 1..e.m : flag(j, a) /\ flag(j, b)
      used(a) == IF row THEN \E i \in 1..e.n : flag(a, i) ELSE \E j \in 1..e.m : flag(j, a)
      ok == /\ pp >= 0 /\ Len(e.k) = 1 + N * pp
            /\ \A i \in 2..Len(e.k) : e.k[i] \in {0, 1}
            /\ \A a \in 1..N : Cardinality(grp(a)) <= 1 /\ (used(a) => grp(a) /= {})
            /\ \A a, b \in 1..N : a < b /\ meet(a, b) => grp(a) \cap grp(b) = {}
  IN  R_(s, IF "pat" \notin DOMAIN s.g THEN [Ok EXCEPT !.rc = -98] ELSE IF ok THEN Ok ELSE [Ok EXCEPT !.oi = <<-1>>])
SeedHess(s, e) ==
  LET pp == IF Len(e.k) > 0 THEN e.k[1] ELSE -1
      grp(a) == {g \in 1..pp : e.k[1 + (a - 1) * pp + g] = 1}
      flag(j, i) == s.g["pat"][(j - 1) * e.n + i] = 1
      ok == /\ pp >= 0 /\ Len(e.k) = 1 + e.n * pp
            /\ \A i \in 2..Len(e.k) : e.k[i] \in {0, 1}
            /\ \A a \in 1..e.n : Cardinality(grp(a)) = 1
            /\ \A a, b \in 1..e.n : a < b /\ flag(a, b) => grp(a) /= grp(b)
  IN  R_(s, IF "pat" \notin DOMAIN s.g THEN [Ok EXCEPT !.rc = -98] ELSE IF ok THEN Ok ELSE [Ok EXCEPT !.oi = <<-1>>])
=============================================================================

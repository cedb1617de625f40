------------------------------ MODULE AdolcMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of Adolc over a small alphabet of calls.  TLC    *)
(* visits every reachable state of at most Depth calls, checks the         *)
(* invariants and action properties below, and prints for every transition *)
(* of the state graph one shortest history that takes it; each of these    *)
(* histories is executed by the real library and decided by AdolcTrace.    *)
(***************************************************************************)
EXTENDS Adolc, Json

CONSTANTS Model, Depth, Big

VARIABLES s, h
vars == <<s, h>>

I(op, r, a, b, k, c) == [op |-> op, r |-> r, a |-> a, b |-> b, k |-> k, c |-> c]
(* y = sin(x1 x2) + p x1  |  y1 = x^2, y2 = |x| *)
ProgA == <<I("new", 1, 0, 0, 0, "0.0"), I("ind", 1, 0, 0, 0, "1.5"), I("new", 2, 0, 0, 0, "0.0"), I("ind", 2, 0, 0, 0, "-0.5"), I("mul", 3, 1, 2, 0, "0.0"),
           I("sin", 4, 3, 0, 0, "0.0"), I("eqa", 4, 1, 0, 0, "0.0"), I("dep", 4, 0, 0, 0, "0.0")>>
ProgB == <<I("new", 11, 0, 0, 0, "0.0"), I("ind", 11, 0, 0, 0, "-2.0"), I("mul", 12, 11, 11, 0, "0.0"), I("fabs", 13, 11, 0, 0, "0.0"),
           I("dep", 12, 0, 0, 0, "0.0"), I("dep", 13, 0, 0, 0, "0.0")>>
ProgP == <<I("new", 1, 0, 0, 0, "0.0"), I("ind", 1, 0, 0, 0, "1.5"), I("mkp", 1, 0, 0, 0, "3.0"), I("mulp", 2, 1, 1, 0, "0.0"), I("eqm", 2, 1, 0, 0, "0.0"),
           I("dep", 2, 0, 0, 0, "0.0")>>
(* neither independents nor dependents *)
ProgQ == <<I("new", 21, 0, 0, 0, "0.0"), I("asgc", 21, 0, 0, 0, "4.0"), I("mul", 22, 21, 21, 0, "0.0"), I("val", 22, 0, 0, 0, "0.0")>>
Shape(P) == CASE P = "A" -> <<1, 2>> [] P = "B" -> <<2, 1>> [] P = "P" -> <<1, 1>>
Xs(P, i) == CASE P = "A" -> (IF i = 1 THEN <<"1.5", "-0.5">> ELSE <<"0.25", "2.0">>)
              [] P = "B" -> (IF i = 1 THEN <<"-2.0">> ELSE <<"-0.5">>)
              [] P = "P" -> (IF i = 1 THEN <<"1.5">> ELSE <<"-1.0">>)
Seq_(k, a) == [i \in 1..k |-> IF i % 2 = 1 THEN a ELSE "0.5"]

On(t, k) == [c |-> "on", tag |-> t, keep |-> k]
Off == [c |-> "off", flag |-> 0]
Ins(P) == [c |-> "ins", l |-> CASE P = "A" -> ProgA [] P = "B" -> ProgB [] P = "P" -> ProgP [] P = "Q" -> ProgQ]
New == [c |-> "new"]
Cur(t) == [c |-> "cur", tag |-> t]
Fwd(kind, t, P, i, d, p, k) == [c |-> "fwd", kind |-> kind, tag |-> t, m |-> Shape(P)[1], n |-> Shape(P)[2], d |-> d, p |-> p, keep |-> k,
                                x |-> Xs(P, i), X |-> IF kind \in ZeroKinds THEN <<>> ELSE Seq_(Shape(P)[2] * d * p, "1.0")]
NU(kind, m, d, q) == CASE kind \in {"hovti", "hovtinz"} -> q * m * (d + 1) [] kind \in {"hosti", "hosov"} -> m * (d + 1)
                       [] kind \in {"fov", "rf", "rf2", "hov", "rv", "hovnz", "rvnz"} -> q * m [] kind \in {"rfs", "rvs"} -> q [] OTHER -> m
Rev(kind, t, P, d, q) == [c |-> "rev", kind |-> kind, tag |-> t, m |-> Shape(P)[1], n |-> Shape(P)[2], d |-> d, q |-> q, u |-> Seq_(NU(kind, Shape(P)[1], d, q), "2.0")]
Drv(kind, t, P, i) == [c |-> "drv", kind |-> kind, tag |-> t, m |-> Shape(P)[1], n |-> Shape(P)[2], q |-> 0, x |-> Xs(P, i),
                       v |-> IF kind \in {"hess_vec", "jac_vec"} THEN Seq_(Shape(P)[2], "1.0") ELSE <<>>, u |-> IF kind = "vec_jac" THEN Seq_(Shape(P)[1], "1.0") ELSE <<>>]
SetP(t, v) == [c |-> "setp", tag |-> t, v |-> v]

(* ---- alphabets ----------------------------------------------------------- *)
Fwds(t, P) ==
  {Fwd(k, t, P, i, 0, 1, kp) : k \in {"zos"}, i \in 1..2, kp \in 0..1}
  \cup {Fwd("fos", t, P, 1, 1, 1, kp) : kp \in 0..2}
  \cup {Fwd("hos", t, P, 2, d, 1, kp) : d \in 1..2, kp \in 0..2} \cup {Fwd("hos", t, P, 1, 2, 1, 3)}
  \cup {Fwd("hovwk", t, P, 1, 2, 2, kp) : kp \in 0..3} \cup {Fwd("hovwk", t, P, 2, 1, 1, 2)}
  \cup {Fwd("fov", t, P, 2, 1, 2, 0), Fwd("hov", t, P, 2, 2, 2, 0)}
  \cup (IF Big THEN {Fwd(k, t, P, i, 0, 1, kp) : k \in {"fx0", "fxk"}, i \in 1..2, kp \in 0..1} \cup {Fwd("hos", t, P, 1, 3, 1, kp) : kp \in 1..4}
                    \cup {Fwd("f0", t, P, 1, 2, 1, kp) : kp \in 0..3} \cup {Fwd("hovwk", t, P, 1, d, p, d + 1) : d \in 1..3, p \in 1..3} ELSE {})
Revs(t, P) ==
  {Rev(k, t, P, 0, 1) : k \in {"fos", "r1"}} \cup {Rev(k, t, P, 0, 2) : k \in {"fov", "rf"}}
  \cup {Rev(k, t, P, d, 1) : k \in {"hos", "hosti"}, d \in 1..2} \cup {Rev(k, t, P, d, 2) : k \in {"hov", "hovti"}, d \in 1..2}
  \cup {Rev("hosov", t, P, d, q) : d \in 1..2, q \in 1..2}
  \cup (IF Big THEN {Rev(k, t, P, 3, 1) : k \in {"hos", "hosti", "r0"}} \cup {Rev(k, t, P, 3, 2) : k \in {"hov", "rv", "hovti"}}
                    \cup {Rev("hosov", t, P, d, q) : d \in 1..3, q \in 1..3} ELSE {})
Drvs(t, P) == {Drv("function", t, P, 1), Drv("vec_jac", t, P, 2), Drv("jacobian", t, P, 1)} \cup (IF P = "A" THEN {Drv("gradient", t, P, 2), Drv("hess_vec", t, P, 1)} ELSE {})

(* program the tape t holds according to its shape *)
Held(t) == IF s.T[t].mode /= "done" THEN {} ELSE CASE s.T[t].n = 2 -> {"A"} [] s.T[t].m = 2 -> {"B"} [] s.T[t].n = 1 -> {"P"} [] OTHER -> {}

KeptCalls ==
  IF s.next = 0 THEN {New}
  ELSE IF s.T[0].mode = "none" THEN {On(0, k) : k \in 0..1}
  ELSE IF s.T[0].mode = "rec" THEN (IF s.T[0].ins = <<>> THEN {Ins("A")} \cup (IF Big THEN {Ins("B"), Ins("P")} ELSE {}) ELSE {Off})
  ELSE UNION {Fwds(0, P) \cup Revs(0, P) \cup Drvs(0, P) : P \in Held(0)} \cup (IF Held(0) = {"P"} THEN {SetP(0, <<"2.0">>), SetP(0, <<"-1.0">>)} ELSE {})

Tags_ == 0..(s.next - 1)
TapesCalls ==
  IF s.next < (IF Big THEN 3 ELSE 2) THEN {New}
  ELSE {On(t, k) : t \in Tags_, k \in {0, 1}} \cup {Off, [c |-> "curtag"], [c |-> "tags"]}
       \cup (IF Big THEN {Cur(t) : t \in Tags_} ELSE {})
       \cup (IF s.cur /= -1 /\ s.T[s.cur].mode = "rec" /\ Len(s.T[s.cur].ins) < 3 THEN {Ins("A"), Ins("B")} ELSE {})
       \cup (IF s.cur /= -1 /\ ~\E r \in DOMAIN s.T[s.cur].R : r > 20 THEN {Ins("Q")} ELSE {})
       \cup UNION {UNION {{Fwd("hos", t, P, 2, 1, 1, k) : k \in {0, 2}} \cup {Rev("fos", t, P, 0, 1), Rev("hos", t, P, 1, 1), Drv("jacobian", t, P, 1)} : P \in Held(t)} : t \in Tags_}

MisuseCalls ==
  IF s.next = 0 THEN {New, On(0, 0), Cur(0), Fwd("zos", 0, "A", 1, 0, 1, 0), SetP(0, <<"1.0">>)}
  ELSE {On(0, k) : k \in 0..1} \cup {Off, On(1, 0), Cur(1), SetP(0, <<>>), SetP(0, <<"2.0">>), SetP(0, <<"2.0", "1.0">>), SetP(1, <<"1.0">>),
        Fwd("zos", 1, "A", 1, 0, 1, 1), Rev("fos", 1, "A", 0, 1), Drv("function", 1, "A", 1), [c |-> "nparam", tag |-> 0], [c |-> "nparam", tag |-> 1], [c |-> "curtag"]}
       \cup (IF s.T[0].mode = "rec" /\ s.T[0].ins = <<>> THEN {Ins("A"), Ins("P")} ELSE {})
       \cup UNION {{Fwd("zos", 0, P, i, 0, 1, k) : i \in 1..2, k \in {-1, 0, 1, 2}} \cup {Fwd("fos", 0, P, 1, 1, 1, k) : k \in {-1, 1, 3}}
                   \cup {Fwd("hos", 0, P, 1, 2, 1, k) : k \in {-1, 3, 4}} \cup {Fwd("hovwk", 0, P, 1, 1, 2, k) : k \in {2, 3}} \cup {Fwd("fov", 0, P, 1, 1, 2, 0), Fwd("hov", 0, P, 1, 2, 2, 0)}
                   \cup {Rev("fos", 0, P, 0, 1), Rev("fov", 0, P, 0, 2), Rev("hos", 0, P, 2, 1), Rev("hov", 0, P, 1, 2), Rev("hosov", 0, P, 1, 2)}
                   \cup {Drv("function", 0, P, 1), Drv("jacobian", 0, P, 1), Drv("vec_jac", 0, P, 1)} : P \in {"A", "B", "P"}}

Calls == CASE Model = "Kept" -> KeptCalls [] Model = "Tapes" -> TapesCalls [] Model = "Misuse" -> MisuseCalls

(* what every history ends with: unfinished recordings are completed, then
   every tape is evaluated, so that whatever a call broke is noticed *)
RECURSIVE Finish(_)
Finish(st) ==
  IF st.cur = -1 \/ st.T[st.cur].mode /= "rec" THEN <<>>
  ELSE LET P == IF st.T[st.cur].ins = <<>> THEN <<Ins("B")>> ELSE <<>>
       IN  P \o <<Off>> \o Finish(Call(IF P = <<>> THEN st ELSE Call(st, P[1]).s, Off).s)
HeldBy(st, t) == IF st.T[t].mode /= "done" THEN <<>> ELSE CASE st.T[t].n = 2 -> <<"A">> [] st.T[t].m = 2 -> <<"B">> [] st.T[t].n = 1 -> <<"P">> [] OTHER -> <<>>
After(st, q) == FoldLeft(LAMBDA w, e : Call(w, e).s, st, q)
Probe(st) ==
  LET f == Finish(st)
      z == After(st, f)
  IN  f \o FlattenSeq([i \in 1..st.next |-> FlattenSeq([j \in 1..Len(HeldBy(z, i - 1)) |->
        LET P == HeldBy(z, i - 1)[j] IN <<Rev("fos", i - 1, P, 0, 1), Fwd("zos", i - 1, P, 2, 0, 1, 1), Rev("fos", i - 1, P, 0, 1)>>])])
      \o <<[c |-> "curtag"]>>

Init == s = InitState /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \E e \in Calls :
             /\ s' = TLCEval(Call(s, e).s)
             /\ h' = Append(h, e)
             /\ PrintT(<<"PATH", ToJson(h' \o Probe(s'))>>)
Spec == Init /\ [][Next]_vars
View == s

(* ---- what must hold of every state and step of the specification --------- *)
e_ == h'[Len(h')]
Range_(q) == {q[i] : i \in DOMAIN q}
StackOk ==
  /\ s.cur = -1 => s.stack = <<>>
  (* the tapes being recorded are nested in the order they were started *)
  /\ ~Big => Cardinality({t \in DOMAIN s.T : s.T[t].mode = "rec"}) = Len(s.stack)
  /\ ~Big => (s.stack /= <<>> => s.T[s.cur].mode = "rec")
KeptOk == \A t \in DOMAIN s.T :
  /\ s.T[t].kept.deg >= 0 => s.T[t].mode = "done"
  /\ s.T[t].mode = "rec" => s.T[t].kept.deg = -1
Inv == StackOk /\ KeptOk
(* a call changes the tape it names and the current tape only *)
Independent == [][\A t \in DOMAIN s.T : s'.T[t] /= s.T[t] => t = s.cur \/ ("tag" \in DOMAIN e_ /\ e_.tag = t)]_vars
(* only keeping sweeps, drivers, recording and new parameters touch what is kept *)
KeptStable == [][\A t \in DOMAIN s.T : s'.T[t].kept /= s.T[t].kept =>
                   \/ e_.c \in {"on", "off", "drv", "setp"} \/ (e_.c = "fwd" /\ e_.keep > 0)]_vars
(* evaluating never changes the recorded program *)
ProgramStable == [][\A t \in DOMAIN s.T : s'.T[t].ins /= s.T[t].ins => e_.c \in {"on", "ins"}]_vars
(* a refused call leaves everything as it was *)
Refused == [][LET r == Call(s, e_).x IN r.err /\ e_.c /= "ins" => \A t \in DOMAIN s.T : [s'.T[t] EXCEPT !.kept = 0] = [s.T[t] EXCEPT !.kept = 0]]_vars
============================================================================

----------------------------- MODULE ThreadsMC -----------------------------
(***************************************************************************)
(* All interleavings of the calls of several threads.  TRACE holds one     *)
(* history per thread; TLC checks that what each thread has and is told    *)
(* is what it would have and be told alone, and prints every complete      *)
(* order of the calls for the real library.                                *)
(***************************************************************************)
EXTENDS System, Json, IOUtils

H == ndJsonDeserialize(IOEnv.TRACE)
P == DOMAIN H
VARIABLES s, pos, told, order
vars == <<s, pos, told, order>>

Th(p, e) == [th |-> p] @@ e
RECURSIVE Alone(_, _)
Alone(p, k) == IF k = 0 THEN [s |-> InitState, x |-> Ok] ELSE DoOne(Alone(p, k - 1).s, H[p].ev[k])

Init == s = InitState /\ pos = [p \in P |-> 0] /\ told = [p \in P |-> Ok] /\ order = <<>>
CallIn(p) ==
  /\ pos[p] < Len(H[p].ev)
  /\ LET r == TLCEval(Do(s, Th(p, H[p].ev[pos[p] + 1]))) IN s' = r.s /\ told' = [told EXCEPT ![p] = r.x]
  /\ pos' = [pos EXCEPT ![p] = @ + 1]
  /\ order' = Append(order, p)
  /\ ((\A q \in P : pos'[q] = Len(H[q].ev)) => PrintT(<<"PATH", ToJson(order')>>))
Next == \E p \in P : CallIn(p)
Spec == Init /\ [][Next]_vars

NonInterference ==
  \A p \in P : pos[p] > 0 => LET a == Alone(p, pos[p]) IN Mine(s, p) = a.s /\ told[p] = a.x
=============================================================================

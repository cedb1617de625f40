----------------------------- MODULE AdolcTrace -----------------------------
(***************************************************************************)
(* Recorded histories of the real library are checked against Adolc: each  *)
(* line of the trace file is one history [id, ev]; every event carries the *)
(* call with its arguments and what the library reported (rc, err, o, k).  *)
(* One behaviour per history; a history is accepted when every event is    *)
(* consumed.                                                               *)
(***************************************************************************)
EXTENDS System, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, s, bad, chk, nchk
vars == <<c, l, s, bad, chk, nchk>>

(* 0 = agreement, otherwise a description of the disagreement *)
Sound(rc) == rc >= 0
Verdict(x, e) ==
  IF e.err = "crash" THEN <<"crash">>
  ELSE IF x.free THEN <<>>
  ELSE IF x.err THEN (IF e.err = "" THEN <<"error expected, none reported">> ELSE <<>>)
  ELSE IF e.err /= "" /\ x.opt THEN <<>>
  ELSE IF e.err /= "" THEN <<"unexpected error", e.err>>
  ELSE IF x.rc >= 100 THEN (IF e.rc < x.rc - 100 \/ e.rc > 3 THEN <<"return code", e.rc>> ELSE <<>>)
  ELSE IF x.rc = 97 THEN (IF e.rc < 0 THEN <<"return code", e.rc>> ELSE <<>>)
  ELSE IF x.weak /\ x.rc /= AnyRc /\ e.rc >= 0 /\ e.rc <= x.rc THEN <<>>
  ELSE IF x.rc /= AnyRc /\ x.rc /= e.rc THEN <<"return code", e.rc, "expected", x.rc>>
  ELSE <<>>
NumVerdict(x, e) == IF x.free \/ x.err \/ e.err /= "" THEN <<0, 0, 0>> ELSE NMatchSeq(x.on, e.o)
IntBad(x, e) ==
  IF x.free \/ x.err \/ e.err /= "" \/ x.oi = <<>> THEN 0
  ELSE IF Len(x.oi) /= Len(e.k) THEN -1
  ELSE LET b == {i \in DOMAIN x.oi : x.oi[i] /= 2 /\ x.oi[i] /= e.k[i]} IN IF b = {} THEN 0 ELSE CHOOSE i \in b : TRUE

Init == /\ c \in 1..Len(Cases)
        /\ l = 1 /\ s = InitState /\ bad = FALSE /\ chk = 0 /\ nchk = 0

Report(e, why) == PrintT(<<"REJECT", Cases[c].id, l, e.c, why>>)
Consume ==
  /\ ~bad /\ l <= Len(Cases[c].ev)
  /\ LET e == Cases[c].ev[l]
         r == TLCEval(Do(s, e))
         v == Verdict(r.x, e)
         n == IF v = <<>> THEN NumVerdict(r.x, e) ELSE <<0, 0, 0>>
         k == IF v = <<>> THEN IntBad(r.x, e) ELSE 0
         why == IF v /= <<>> THEN v
                ELSE IF n[1] /= 0 THEN <<"value", n[1], IF n[1] <= Len(r.x.on) THEN NShow(r.x.on[n[1]]) ELSE "length", IF n[1] <= Len(e.o) THEN e.o[n[1]] ELSE "length">>
                ELSE IF k /= 0 THEN <<"integer", k, r.x.oi, e.k>> ELSE <<>>
     IN  /\ bad' = (why /= <<>>)
         /\ (why /= <<>> => Report(e, why))
         /\ s' = r.s
         /\ chk' = chk + n[2] /\ nchk' = nchk + n[3]
         /\ (l = Len(Cases[c].ev) /\ why = <<>> => PrintT(<<"ACCEPT", Cases[c].id, l, chk', nchk'>>))
  /\ l' = l + 1 /\ UNCHANGED c
Next == Consume
Spec == Init /\ [][Next]_vars
View == <<c, l, bad>>
=============================================================================

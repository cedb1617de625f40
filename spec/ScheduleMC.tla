----------------------------- MODULE ScheduleMC -----------------------------
(* All schedules for short chains that cost at most Optimum: none is cheaper. *)
EXTENDS Schedule, TLC, TLCExt
CONSTANTS MaxL, MaxC
VARIABLES l, c, z
vars == <<l, c, z>>
Init == l \in 1..MaxL /\ c \in 1..MaxC /\ z = Start(l)
Next == /\ ~z.done
        /\ UNCHANGED <<l, c>>
        /\ \/ \E to \in 1..(MaxL - 1) : CanAdvance(z, to) /\ z' = DoAdvance(z, to)
           \/ CanStore(z, c) /\ (IF z.stk = <<>> THEN TRUE ELSE z.stk[Len(z.stk)] < z.cur) /\ z' = DoStore(z)
           \/ CanDrop(z) /\ z' = DoDrop(z)
           \/ CanFetch(z) /\ z' = DoFetch(z)
           \/ CanTurn(z) /\ z' = DoTurn(z)
           \/ CanStop(z) /\ z' = [z EXCEPT !.done = TRUE]
        /\ z'.adv <= Optimum(l, c)
Spec == Init /\ [][Next]_vars
(* a schedule that is finished has cost the optimum: nothing cheaper exists *)
NothingCheaper == z.done => z.adv = Optimum(l, c)
Safe == z.fine >= 0 /\ Len(z.stk) <= c /\ (z.cur >= 0 => z.cur <= l)
=============================================================================

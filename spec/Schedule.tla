------------------------------ MODULE Schedule ------------------------------
(***************************************************************************)
(* Reversing a chain of l time steps with at most c stored states.         *)
(* The machine knows the current state (cur: number of the step it is the  *)
(* input of, or -1), a stack of stored states, how many steps are still to *)
(* be reversed (fine), and counts the steps executed forward only to get   *)
(* to an earlier state again (adv).                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Start(l) == [cur |-> 0, stk |-> <<>>, fine |-> l, turned |-> FALSE, adv |-> 0, done |-> FALSE]
CanAdvance(z, to) == z.cur >= 0 /\ to > z.cur /\ to < z.fine
DoAdvance(z, to) == [z EXCEPT !.cur = to, !.adv = @ + to - z.cur]
CanStore(z, c) == z.cur >= 0 /\ Len(z.stk) < c
DoStore(z) == [z EXCEPT !.stk = Append(@, z.cur)]
CanDrop(z) == Len(z.stk) > 0
DoDrop(z) == [z EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
CanFetch(z) == Len(z.stk) > 0
DoFetch(z) == [z EXCEPT !.cur = z.stk[Len(z.stk)]]
(* executes and reverses the last step; afterwards the state is lost *)
CanTurn(z) == z.fine > 0 /\ z.cur = z.fine - 1
DoTurn(z) == [z EXCEPT !.fine = @ - 1, !.cur = -1, !.turned = TRUE]
CanStop(z) == z.fine = 0

(* (c + r)! / (c! r!), the number of steps c stored states and r repetitions reach *)
Beta(c, r) == IF r < 0 \/ c < 0 THEN 0 ELSE FoldLeft(LAMBDA a, i : (a * (c + i)) \div i, 1, [i \in 1..r |-> i])
(* b = Beta(c, r) *)
RECURSIVE Reps(_, _, _, _)
Reps(l, c, r, b) == IF b >= l THEN r ELSE Reps(l, c, r + 1, (b * (c + r + 1)) \div (r + 1))
(* least possible number of repeated forward steps *)
Optimum(l, c) == LET r == Reps(l, c, 0, 1) IN r * l - Beta(c + 1, r - 1)
=============================================================================

------------------------------ MODULE Revolve ------------------------------
(* the schedule the library generates, executed on the machine of Schedule;
   errors when checkpointed loops are set up wrongly *)
EXTENDS Doc, Schedule

(* the library supports at most 1000 stored states and 1000 repetitions *)
Supported(l, c) == c >= 1 /\ c <= 1000 /\ (l <= 1 \/ Reps(l, c, 0, 1) <= 1000)

(* client of revolve as the library implements it: fetching another state
   than the last one stored or fetched drops the top of the stack first *)
RevStep(w, a, check, capo, fine, c) ==
  IF ~w.ok THEN w ELSE
  LET z == w.z
      no == [w EXCEPT !.ok = FALSE]
      yes(y) == [w EXCEPT !.z = y]
  IN  CASE a = 0 -> IF CanAdvance(z, capo) /\ fine = z.fine THEN yes(DoAdvance(z, capo)) ELSE no
        [] a = 1 -> IF CanStore(z, c) /\ z.cur = capo /\ check = Len(z.stk) /\ fine = z.fine THEN [yes(DoStore(z)) EXCEPT !.last = capo] ELSE no
        [] a = 2 -> LET y == IF capo /= w.last /\ CanDrop(z) THEN DoDrop(z) ELSE z
                    IN  IF CanFetch(y) /\ y.stk[Len(y.stk)] = capo /\ check = Len(y.stk) - 1 /\ fine = y.fine THEN [yes(DoFetch(y)) EXCEPT !.last = capo] ELSE no
        [] a \in {3, 4} -> IF CanTurn(z) /\ z.turned = (a = 4) /\ fine = z.fine - 1 /\ capo = z.cur THEN yes(DoTurn(z)) ELSE no
        [] a = 5 -> IF CanStop(z) /\ ~z.done THEN yes([z EXCEPT !.done = TRUE]) ELSE no
        [] OTHER -> no
RevRun(k, l, c) ==
  FoldLeft(LAMBDA w, i : TLCEval(IF w.z.done THEN [w EXCEPT !.ok = FALSE] ELSE RevStep(w, k[4 * i - 3], k[4 * i - 2], k[4 * i - 1], k[4 * i], c)),
           [z |-> Start(l), last |-> 0, ok |-> TRUE], [i \in 1..(Len(k) \div 4) |-> i])
Revolve(s, e) ==
  LET w == RevRun(e.k, e.steps, e.snaps)
      enough == e.steps <= 1 \/ Supported(e.steps, e.snaps)
      good == w.ok /\ w.z.done /\ (e.steps <= 1 \/ w.z.adv = Optimum(e.steps, e.snaps))
      refused == Len(e.k) >= 4 /\ e.k[Len(e.k) - 3] = 6
  IN  IF (enough /\ good) \/ (~enough /\ refused) THEN R_(s, Ok) ELSE R_(s, Err)
MaxRange(s, e) == R_(s, [Ok EXCEPT !.oi = <<IF e.a < 0 \/ e.b < 0 THEN -1 ELSE Beta(e.a, e.b)>>])
NumForw(s, e) == R_(s, [Ok EXCEPT !.oi = <<IF ~Supported(e.a, e.b) THEN -1 ELSE Optimum(e.a, e.b)>>])
Expense(s, e) == R_(s, [Ok EXCEPT !.on = <<IF e.a < 1 \/ ~Supported(e.a, e.b) THEN NInt(-1) ELSE NDiv(NInt(Optimum(e.a, e.b)), NInt(e.a))>>])

(* set up without a function, with another tape, or with gaps between the
   locations of the state: the call fails, and the recording can be finished *)
CpMisuse(s, e) ==
  R_([s EXCEPT !.T[e.tag] = [@ EXCEPT !.mode = "done", !.unk = TRUE]], [Ok EXCEPT !.oi = <<IF e.kind = "fine" THEN 0 ELSE 1>>])
=============================================================================

------------------------------- MODULE Extern -------------------------------
(* errors around external functions and fixed-point iterations; their regular
   calls are operations of programs (Prog) *)
EXTENDS Revolve

(* a recording with gaps between the locations of the arguments or results,
   or a sweep for which no callback has been registered *)
ExtMisuse(s, e) ==
  R_([s EXCEPT !.T[e.tag] = [@ EXCEPT !.mode = "done", !.unk = TRUE]], [Ok EXCEPT !.oi = <<IF e.kind = "fine" THEN 0 ELSE 1>>])

(* a fixed-point iteration which needs more steps than it may take, or a sweep it does not offer *)
FpMisuse(s, e) ==
  LET slow == e.kind = "slow"
      err == e.kind \in {"fov", "fovr", "hos", "slow"}   \* no reverse sweep after a failed one
      b(x) == IF x THEN 1 ELSE 0
  IN  R_([s EXCEPT !.T[e.tag] = [@ EXCEPT !.mode = "done", !.unk = TRUE], !.T[2] = [@ EXCEPT !.mode = "done", !.unk = TRUE]],
         [Ok EXCEPT !.oi = <<b(err), b(slow), b(slow)>>])
=============================================================================

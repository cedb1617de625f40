------------------------------- MODULE CIface -------------------------------
(***************************************************************************)
(* The C interface: each entry point names an operation of the library and *)
(* must behave as that operation, on tapes recorded through location       *)
(* tokens and on traceless handles (see the harness, which records every   *)
(* program through C calls only).  Entry points ending in an underscore    *)
(* take column-major arrays by reference.                                  *)
(***************************************************************************)
EXTENDS Sparse

CForward == [forward1 |-> "f0", forward2 |-> "f0m1", forward3 |-> "fx0", forward4 |-> "fxk", forward5 |-> "fhov", forward6 |-> "ffov",
             zos_ |-> "zos", hos_ |-> "hos", fov_ |-> "fov", hov_ |-> "hov"]
CReverse == [reverse1 |-> "r0", reverse2 |-> "r0s", reverse3 |-> "r1", reverse4 |-> "r1s", reverse5 |-> "rv", reverse6 |-> "rvs",
             reverse7 |-> "rf", reverse8 |-> "rf2", reverse9 |-> "rfs", reverse10 |-> "ri",
             fos_ |-> "fos", hos_ |-> "hos", hosti_ |-> "hosti", fov_ |-> "fov", hov_ |-> "hov", hovti_ |-> "hovti"]
CDriver == [function_ |-> "function", gradient_ |-> "gradient", jacobian_ |-> "jacobian", vec_jac_ |-> "vec_jac", jac_vec_ |-> "jac_vec",
            hessian_ |-> "hessian", hess_vec_ |-> "hess_vec", lagra_hess_vec_ |-> "lagra_hess_vec"]
Renamed(e, f) == IF e.kind \in DOMAIN f THEN [e EXCEPT !.kind = f[@]] ELSE e
CNames(e) == CASE e.c = "fwd" -> Renamed(e, CForward) [] e.c = "rev" -> Renamed(e, CReverse) [] e.c = "drv" -> Renamed(e, CDriver) [] OTHER -> e

(* numbers of independents and dependents of a recorded tape *)
NumInDep(s, e) == IF UnkTape(s, e) THEN R_(s, Free) ELSE IF ~Has(s, e.tag) THEN R_(s, Err) ELSE IF s.T[e.tag].mode /= "done" THEN R_(s, Free)
                  ELSE R_(s, [Ok EXCEPT !.oi = <<s.T[e.tag].n, s.T[e.tag].m>>])
=============================================================================

------------------------------- MODULE Num -------------------------------
(***************************************************************************)
(* The scalar field of the specification: the real numbers, extended by    *)
(* one element NaR ("not a real": undefined, infinite or not determined).  *)
(*                                                                         *)
(* The definitions below are the mathematical ones.  TLC cannot evaluate   *)
(* arithmetic on the reals, so when the specification is run, module Num   *)
(* is evaluated by Num.java, which represents a real by                    *)
(*     << high word, low word, bound, exact >>                             *)
(* a double-precision approximation, a running bound of the rounding error *)
(* any evaluation of the same expression may have accumulated, and a flag  *)
(* telling whether the approximation is exact.  NMatch and NSign take the  *)
(* bound into account, so a comparison never depends on rounding.          *)
(***************************************************************************)
EXTENDS Reals, Sequences

NaR == <<>>
NIs(x) == x /= NaR

LOCAL Lift1(f(_), x) == IF NIs(x) THEN f(x) ELSE NaR
LOCAL Lift2(f(_, _), x, y) == IF NIs(x) /\ NIs(y) THEN f(x, y) ELSE NaR

NInt(i) == i
(* the number named by a token of a script: "n/d" or a decimal *)
NConv(s) == CHOOSE x \in Real : TRUE
(* a number printed with seven digits *)
NAbout(s) == CHOOSE x \in Real : TRUE
(* the number x, of which an iteration reports about ten digits *)
NBlur(x) == x
NAdd(x, y) == Lift2(LAMBDA a, b : a + b, x, y)
NSub(x, y) == Lift2(LAMBDA a, b : a - b, x, y)
NMul(x, y) == Lift2(LAMBDA a, b : a * b, x, y)
NNeg(x) == Lift1(LAMBDA a : -a, x)
NDiv(x, y) == IF NIs(x) /\ NIs(y) /\ y /= 0 THEN x / y ELSE NaR

(* \sum_{i=lo}^{hi} a[i] * b[s-i] *)
RECURSIVE NDot(_, _, _, _, _)
NDot(a, b, lo, hi, s) ==
  IF lo > hi THEN 0 ELSE NAdd(NMul(a[lo], b[s - lo]), NDot(a, b, lo + 1, hi, s))

(* Elementary functions are characterised, not computed: *)
NFun(f, x) ==
  CASE f = "sqrt" -> IF NIs(x) /\ x >= 0 THEN CHOOSE y \in Real : y >= 0 /\ y * y = x ELSE NaR
    [] f = "cbrt" -> Lift1(LAMBDA a : CHOOSE y \in Real : y * y * y = a, x)
    [] f = "floor" -> Lift1(LAMBDA a : CHOOSE y \in Int : y <= a /\ a < y + 1, x)
    [] f = "ceil" -> Lift1(LAMBDA a : CHOOSE y \in Int : y >= a /\ a > y - 1, x)
    (* exp, log, sin, cos, asin, acos, atan, sinh, cosh, asinh, acosh, atanh,
       erf (scaled by sqrt(pi)/2): the classical functions *)
    [] OTHER -> CHOOSE y \in Real : TRUE
NPow(x, y) == CHOOSE z \in Real : TRUE      (* x^y for x > 0 *)
NAtan2(y, x) == CHOOSE z \in Real : TRUE    (* the argument of the complex number x + iy *)

(* -1, 0 or 1;  2 if the sign is not determined *)
NSign(x) == IF ~NIs(x) THEN 2 ELSE IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
(* -1, 0, 1: order of x and y;  2 if not determined *)
NCmp(x, y) == NSign(NSub(x, y))
(* truncation to an integer *)
NTrunc(x) == CHOOSE i \in Int : TRUE
(* is the number known exactly (no rounding anywhere in its history)? *)
NExact(x) == TRUE

(* the observed decimal string s denotes the number x (NaR is never refuted) *)
NMatch(x, s) == TRUE
(* all of a sequence: << index of the first mismatch or 0, compared, not compared >> *)
NMatchSeq(xs, ss) == <<0, Len(xs), 0>>
NShow(x) == "x"
(* the number a decimal string denotes, nan/inf give NaR *)
NObs(s) == CHOOSE x \in Real : TRUE
==========================================================================

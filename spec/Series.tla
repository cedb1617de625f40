------------------------------ MODULE Series ------------------------------
(***************************************************************************)
(* Truncated power series over Num: <<c_0, c_1, ..., c_d>>.  Elementary    *)
(* functions are determined by the differential equations that define      *)
(* them, solved coefficient by coefficient.                                *)
(***************************************************************************)
EXTENDS Num, Integers, SequencesExt, TLC

S0 == NInt(0)
S1 == NInt(1)
S2 == NInt(2)
SHalf == NDiv(S1, S2)
(* the constant series x of degree d *)
SConst(x, d) == <<x>> \o [k \in 1..d |-> S0]
SNaR(d) == [k \in 1..(d + 1) |-> NaR]
SAdd(a, b) == TLCEval([k \in 1..Len(a) |-> NAdd(a[k], b[k])])
SSub(a, b) == TLCEval([k \in 1..Len(a) |-> NSub(a[k], b[k])])
SNeg(a) == TLCEval([k \in 1..Len(a) |-> NNeg(a[k])])
SScale(c, a) == TLCEval([k \in 1..Len(a) |-> NMul(c, a[k])])
SMul(a, b) == TLCEval([k \in 1..Len(a) |-> NDot(a, b, 1, k, k + 1)])
(* add a number to the constant term *)
SShift(a, x) == [a EXCEPT ![1] = NAdd(a[1], x)]
(* a / b:   q_k = (a_k - \sum_{i<k} q_i b_{k-i}) / b_0 *)
SDiv(a, b) ==
  FoldLeft(LAMBDA q, k : Append(q, NDiv(NSub(a[k], NDot(q, b, 1, k - 1, k + 1)), b[1])),
           <<>>, [k \in 1..Len(a) |-> k])
SRecip(b) == SDiv(SConst(S1, Len(b) - 1), b)
(* derivative with respect to the series variable, times it:  k * c_k *)
SD(a) == TLCEval([k \in 1..Len(a) |-> NMul(NInt(k - 1), a[k])])
(* the series w with w_0 given and t w' = g (g_0 is ignored) *)
SInt(w0, g) == TLCEval([k \in 1..Len(g) |-> IF k = 1 THEN w0 ELSE NDiv(g[k], NInt(k - 1))])

(* w' = w u' *)
SExp(u) ==
  LET du == SD(u) IN
  FoldLeft(LAMBDA w, k : Append(w, IF k = 1 THEN NFun("exp", u[1])
                                  ELSE NDiv(NDot(du, w, 2, k, k + 1), NInt(k - 1))),
           <<>>, [k \in 1..Len(u) |-> k])
(* w' = u' / u *)
SLog(u) == SInt(NFun("log", u[1]), SDiv(SD(u), u))
(* w^2 = u *)
SSqrt(u) ==
  FoldLeft(LAMBDA w, k : Append(w, IF k = 1 THEN NFun("sqrt", u[1])
                                  ELSE NDiv(NSub(u[k], NDot(w, w, 2, k - 1, k + 1)), NMul(S2, w[1]))),
           <<>>, [k \in 1..Len(u) |-> k])
(* s' = sg1 c u', c' = sg2 s u' : << s, c >> *)
SPair(f, g, sg, u) ==
  LET du == SD(u)
      p == FoldLeft(LAMBDA w, k :
             IF k = 1 THEN <<<<NFun(f, u[1])>>, <<NFun(g, u[1])>>>>
             ELSE << Append(w[1], NDiv(NDot(du, w[2], 2, k, k + 1), NInt(k - 1))),
                     Append(w[2], LET z == NDiv(NDot(du, w[1], 2, k, k + 1), NInt(k - 1))
                                  IN  IF sg < 0 THEN NNeg(z) ELSE z) >>,
             <<<<>>, <<>>>>, [k \in 1..Len(u) |-> k])
  IN  p
SSinCos(u) == SPair("sin", "cos", -1, u)
SShCh(u) == SPair("sinh", "cosh", 1, u)
(* u w' = c w u' ;  w_0 given *)
SPowRec(w0, c, u) ==
  FoldLeft(LAMBDA w, k :
     Append(w, IF k = 1 THEN w0
               ELSE LET s(i) == NMul(NMul(NSub(NMul(c, NInt(i)), NInt(k - 1 - i)), u[i + 1]), w[k - i])
                        t == FoldLeft(LAMBDA a, i : NAdd(a, s(i)), S0, [i \in 1..(k - 1) |-> i])
                    IN  NDiv(t, NMul(NInt(k - 1), u[1]))),
     <<>>, [k \in 1..Len(u) |-> k])
RECURSIVE SPowNat(_, _)
SPowNat(u, n) == IF n = 0 THEN SConst(S1, Len(u) - 1) ELSE SMul(u, SPowNat(u, n - 1))
IsNat(c) == NExact(c) /\ NSign(c) >= 0 /\ NSign(c) # 2 /\ NCmp(c, NInt(13)) = -1 /\ NCmp(NFun("floor", c), c) = 0
(* u^c for a constant c *)
SPowC(u, c) ==
  IF IsNat(c) THEN SPowNat(u, NTrunc(c))
  ELSE IF NExact(c) /\ IsNat(NNeg(c)) THEN SRecip(SPowNat(u, NTrunc(NNeg(c))))
  ELSE SPowRec(NPow(u[1], c), c, u)
SCbrt(u) == SPowRec(NFun("cbrt", u[1]), NDiv(S1, NInt(3)), u)
SOne(u) == SConst(S1, Len(u) - 1)
SZero(u) == SConst(S0, Len(u) - 1)
SSqr(u) == SMul(u, u)

(* The unary elementary functions f, given as << f(u), f'(u) >>, and the
   derivative of the inverse functions as rational expressions. *)
UnOps == {"sqrt", "exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh",
          "tanh", "asinh", "acosh", "atanh", "cbrt", "log10s", "erfs", "erfcs", "neg", "pos"}
Quad(f, g, u) == << SInt(NFun(f, u[1]), SMul(SD(u), g)), g >>
UnPair(f, u) ==
  CASE f = "sqrt" -> LET w == SSqrt(u) IN << w, SRecip(SScale(S2, w)) >>
    [] f = "exp" -> LET w == SExp(u) IN << w, w >>
    [] f \in {"log", "log10s"} -> << SLog(u), SRecip(u) >>
    [] f = "sin" -> LET p == SSinCos(u) IN << p[1], p[2] >>
    [] f = "cos" -> LET p == SSinCos(u) IN << p[2], SNeg(p[1]) >>
    [] f = "tan" -> LET p == SSinCos(u)
                        w == SDiv(p[1], p[2]) IN << w, SAdd(SOne(u), SSqr(w)) >>
    [] f = "sinh" -> LET p == SShCh(u) IN << p[1], p[2] >>
    [] f = "cosh" -> LET p == SShCh(u) IN << p[2], p[1] >>
    [] f = "tanh" -> LET p == SShCh(u)
                         w == SDiv(p[1], p[2]) IN << w, SSub(SOne(u), SSqr(w)) >>
    [] f = "asin" -> Quad(f, SRecip(SSqrt(SSub(SOne(u), SSqr(u)))), u)
    [] f = "acos" -> Quad(f, SNeg(SRecip(SSqrt(SSub(SOne(u), SSqr(u))))), u)
    [] f = "atan" -> Quad(f, SRecip(SAdd(SOne(u), SSqr(u))), u)
    [] f = "asinh" -> Quad(f, SRecip(SSqrt(SAdd(SOne(u), SSqr(u)))), u)
    [] f = "acosh" -> Quad(f, SRecip(SSqrt(SSub(SSqr(u), SOne(u)))), u)
    [] f = "atanh" -> Quad(f, SRecip(SSub(SOne(u), SSqr(u))), u)
    [] f = "cbrt" -> LET w == SCbrt(u) IN << w, SRecip(SScale(NInt(3), SSqr(w))) >>
    [] f = "erfs" -> Quad("erf", SExp(SNeg(SSqr(u))), u)
    [] f = "erfcs" -> LET p == Quad("erf", SExp(SNeg(SSqr(u))), u) IN << SNeg(p[1]), SNeg(p[2]) >>
    [] f = "neg" -> << SNeg(u), SNeg(SOne(u)) >>
    [] f = "pos" -> << u, SOne(u) >>
===========================================================================

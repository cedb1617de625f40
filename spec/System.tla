------------------------------- MODULE System -------------------------------
(* every transition of the library, taped and traceless *)
EXTENDS Store

DoOne(s, e) ==
            CASE e.c = "tl" -> TL(s, e)
              [] e.c = "jp" -> JacPat(s, e)
              [] e.c = "hp" -> HessPat(s, e)
              [] e.c = "sj" -> SparseJac(s, e)
              [] e.c = "sh" -> SparseHess(s, e)
              [] e.c = "bits" -> Bits(s, e)
              [] e.c = "seedj" -> SeedJac(s, e)
              [] e.c = "seedh" -> SeedHess(s, e)
              [] e.c = "numid" -> NumInDep(s, e)
              [] e.c = "ten" -> TensorEval(s, e)
              [] e.c = "taddr" -> TensorAddress(s, e)
              [] e.c = "tval" -> TensorValue(s, e)
              [] e.c = "iten" -> InverseN(InverseTensor(s, e), e.n * Binom(e.p + e.d, e.d))
              [] e.c = "itp" -> InverseN(InverseProp(s, e), e.n * (e.d + 1))
              [] e.c = "jsolv" -> JacSolv0(s, e)
              [] e.c = "forode" -> Forode(s, e)
              [] e.c = "accode" -> Accode(s, e)
              [] e.c = "jacode" -> Jacode(s, e)
              [] e.c = "lie" -> Lie(s, e)
              [] e.c = "pl" -> PLCall(s, e)
              [] e.c = "nsw" -> NumSwitches(s, e)
              [] e.c = "tstats" -> Stats(s, e)
              [] e.c = "doc" -> DocCheck(s, e)
              [] e.c = "revolve" -> Revolve(s, e)
              [] e.c = "maxrange" -> MaxRange(s, e)
              [] e.c = "numforw" -> NumForw(s, e)
              [] e.c = "expense" -> Expense(s, e)
              [] e.c = "cperr" -> CpMisuse(s, e)
              [] e.c = "exterr" -> ExtMisuse(s, e)
              [] e.c = "fperr" -> FpMisuse(s, e)
              [] e.c = "mem" -> Mem(s, e)
              [] OTHER -> Call(s, CNames(e))

(***************************************************************************)
(* Threads.  Each thread has a state of its own; a call made in a thread   *)
(* reads and writes the state of this thread only, in whatever order the   *)
(* calls of the threads happen.  A thread that begins has no tapes.        *)
(***************************************************************************)
Mine(s, p) == IF p \in DOMAIN s.thr THEN s.thr[p] ELSE InitState
Do(s, e) ==
  IF "th" \notin DOMAIN e THEN DoOne(s, e)
  ELSE IF e.c = "start" \/ e.c = "exit" THEN R_([s EXCEPT !.thr = (e.th :> InitState) @@ @], Ok)
  ELSE LET r == DoOne(Mine(s, e.th), e) IN [s |-> [s EXCEPT !.thr = (e.th :> r.s) @@ @], x |-> r.x]
=============================================================================

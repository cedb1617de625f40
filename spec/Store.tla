------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The storage of active variables.  s.mem[t] maps every live variable of  *)
(* tape t to the slot it occupies and the value it holds.  Which free slot *)
(* a variable gets is not specified; every event reports the complete      *)
(* table, which must assign distinct slots, leave slots and values of the  *)
(* variables the call does not touch alone, and give adjacent slots to     *)
(* variables created by a contiguous request.                              *)
(***************************************************************************)
EXTENDS Extern, Integers

MemOf(s, t) == IF t \in DOMAIN s.mem THEN s.mem[t] ELSE [tab |-> NoFun, hi |-> -1, single |-> FALSE, rec |-> FALSE]
Grp(g, i) == 100 * g + i
Members(tab, g) == {i \in DOMAIN tab : i \div 100 = g}

(* reported: live slots, size of the storage, largest number of live slots of a recording (or -1), then id, slot, id, slot, ... *)
RepIds(k) == [i \in 1..((Len(k) - 3) \div 2) |-> k[2 * i + 2]]
RepLocs(k) == [i \in 1..((Len(k) - 3) \div 2) |-> k[2 * i + 3]]

(* new table of values, and the variables whose slot may change *)
MemStep(tab, e) ==
  LET V(i) == tab[i].v
      c == IF "c1" \in DOMAIN e THEN NConv(e.c1) ELSE S1
      vals == [i \in DOMAIN tab |-> V(i)]
      set(f, i, v) == [f EXCEPT ![i] = v]
      mk(ids, f) == [i \in {ids[j] : j \in DOMAIN ids} |-> f[CHOOSE j \in DOMAIN ids : ids[j] = i]] @@ vals
      n(g) == Cardinality(Members(tab, g))
      grp(g, f) == [i \in {Grp(g, j) : j \in DOMAIN f} |-> f[i % 100]] @@ [i \in DOMAIN tab \ Members(tab, g) |-> V(i)]
      all(g) == [j \in 1..n(g) |-> V(Grp(g, j))]
      R(f, mov) == [f |-> f, mov |-> mov]
  IN  CASE e.op = "mk" -> R(mk(e.ids, [j \in DOMAIN e.ids |-> NConv(e.vals[j])]), {})
        [] e.op = "copy" -> R(mk(<<e.a>>, <<V(e.b)>>), {})
        [] e.op = "expr" -> R(mk(<<e.a>>, <<NAdd(NMul(V(e.b), V(e.b)), c)>>), {})
        [] e.op = "rm" -> R([i \in DOMAIN tab \ {e.a} |-> V(i)], {})
        [] e.op = "rmg" -> R([i \in DOMAIN tab \ Members(tab, e.a) |-> V(i)], {})
        [] e.op = "asg" -> R(set(vals, e.a, V(e.b)), {})
        [] e.op = "asgc" -> R(set(vals, e.a, c), {})
        [] e.op = "inc" -> R(set(vals, e.a, NAdd(V(e.a), c)), {})
        [] e.op = "asgt" -> R(set(vals, e.a, NAdd(NMul(V(e.b), V(e.b)), c)), {e.a})
        [] e.op = "mv" -> R([i \in DOMAIN tab \ {e.b} |-> IF i = e.a THEN V(e.b) ELSE V(i)], {e.a})
        [] e.op = "mvnew" -> R([i \in (DOMAIN tab \ {e.b}) \cup {e.a} |-> IF i = e.a THEN V(e.b) ELSE V(i)], {})
        [] e.op = "swap" -> R(set(set(vals, e.a, V(e.b)), e.b, V(e.a)), {e.a, e.b})
        [] e.op = "push" -> R(grp(e.a, Append(all(e.a), c)), Members(tab, e.a))
        [] e.op = "pushm" -> R([i \in DOMAIN grp(e.a, Append(all(e.a), V(e.b))) \ {e.b} |-> grp(e.a, Append(all(e.a), V(e.b)))[i]], Members(tab, e.a))
        [] e.op = "front" -> R(grp(e.a, <<c>> \o all(e.a)), Members(tab, e.a))
        [] e.op = "erase" -> R(grp(e.a, RemoveAt(all(e.a), e.b)), Members(tab, e.a))
        [] e.op = "rev" -> R(grp(e.a, Reverse(all(e.a))), Members(tab, e.a))
        [] e.op = "vcopy" -> R(grp(e.a, all(e.b)), Members(tab, e.a))
        (* an element addressed by an active subscript *)
        [] e.op = "wr" -> R(set(vals, Grp(e.a, 1 + NTrunc(V(e.b))), c), Members(tab, e.a))
        [] OTHER -> R(vals, {})

(* requests of adjacent slots are not possible with single slots, nor is another
   kind of management while variables live, nor the one which is in use *)
MemErr(m, e) == CASE e.op = "mk" -> e.cont /\ m.single
                  [] e.op = "ens" -> m.single
                  [] e.op = "type" -> (DOMAIN m.tab /= {}) \/ ((e.a = 1) = m.single)
                  [] OTHER -> FALSE

Mem(s, e) ==
  LET m == MemOf(s, s.cur)
      r == TLCEval(MemStep(m.tab, e))
      ids == RepIds(e.k)
      locs == RepLocs(e.k)
      good == /\ Len(e.k) >= 3 /\ Len(e.k) % 2 = 1
              /\ {ids[j] : j \in DOMAIN ids} = DOMAIN r.f /\ Len(ids) = Cardinality(DOMAIN r.f)
              /\ \A i, j \in DOMAIN locs : locs[i] = locs[j] => i = j                                     \* distinct slots
              /\ e.k[1] = Len(ids)                                                                        \* all of them counted, nothing lost
              /\ \A i \in DOMAIN locs : locs[i] >= 0 /\ locs[i] < e.k[2]
              /\ \A i \in DOMAIN ids : ids[i] \in DOMAIN m.tab \ r.mov => locs[i] = m.tab[ids[i]].l       \* nobody else moves
              /\ (e.op = "mk" => (e.cont => \A j \in 1..(Len(e.ids) - 1) :
                    LET at(i) == locs[CHOOSE q \in DOMAIN ids : ids[q] = i] IN at(e.ids[j + 1]) = at(e.ids[j]) + 1))
              /\ (e.op = "untrace" => \A i \in DOMAIN locs : e.k[3] > locs[i]) /\ (e.op = "untrace" => e.k[3] > m.hi)
      at(i) == locs[CHOOSE j \in DOMAIN ids : ids[j] = i]
      tab == IF good THEN [i \in DOMAIN r.f |-> [l |-> at(i), v |-> r.f[i]]] ELSE m.tab
      rec == IF e.op = "trace" THEN TRUE ELSE IF e.op = "untrace" THEN FALSE ELSE m.rec
      m1 == [tab |-> tab, rec |-> rec, single |-> IF e.op = "type" THEN e.a = 1 ELSE m.single,
             hi |-> IF ~rec THEN -1 ELSE FoldLeft(LAMBDA a, l : IF l > a THEN l ELSE a, m.hi, locs)]
  IN  IF MemErr(m, e) THEN R_(s, Err)
      ELSE R_([s EXCEPT !.mem = (s.cur :> m1) @@ @],
              [Ok EXCEPT !.oi = IF good THEN e.k ELSE <<-1, -1>>, !.on = [j \in DOMAIN ids |-> IF ids[j] \in DOMAIN r.f THEN r.f[ids[j]] ELSE NaR]])
=============================================================================

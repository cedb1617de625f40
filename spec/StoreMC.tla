------------------------------ MODULE StoreMC ------------------------------
(***************************************************************************)
(* The block manager: a list of free blocks, searched from its front,      *)
(* joined with the freed slot only there, sorted and consolidated when a   *)
(* request needs it, storage doubled when nothing fits.  TLC explores all  *)
(* histories of at most Depth requests and checks that used slots and free *)
(* blocks always partition the storage; each transition is printed as one  *)
(* history for the real manager.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS Depth, MaxIds, MaxBlock, MaxSize
VARIABLES size, free, used, h
vars == <<size, free, used, h>>

Initial == 4
RemoveZero(f) == SelectSeq(f, LAMBDA b : b.n > 0)
RECURSIVE Dbl(_, _, _)
Dbl(new, old, n) == IF new - old < n THEN Dbl(2 * new, old, n) ELSE new
(* the tail block, if free, is extended and becomes the first one *)
Grow(z, n) ==
  LET new == Dbl(IF z.size = 0 THEN Initial ELSE 2 * z.size, z.size, n)
      tails == {i \in DOMAIN z.free : z.free[i].at + z.free[i].n = z.size}
      t == CHOOSE i \in tails : \A j \in tails : i <= j
  IN  [size |-> new,
       free |-> RemoveZero(IF tails = {} THEN <<[at |-> z.size, n |-> new - z.size]>> \o z.free
                           ELSE <<[at |-> z.free[t].at, n |-> z.free[t].n + new - z.size]>> \o RemoveAt(z.free, t))]
Take(z0) ==
  LET z == IF z0.free = <<>> THEN Grow(z0, 0) ELSE z0
      f == Head(z.free)
      rest == Tail(z.free)
  IN  [at |-> f.at,
       z |-> IF f.n > 1 THEN [z EXCEPT !.free = <<[at |-> f.at + 1, n |-> f.n - 1]>> \o rest]
             ELSE IF rest = <<>> THEN Grow([z EXCEPT !.free = <<[at |-> f.at + 1, n |-> 0]>>], 0)
             ELSE [z EXCEPT !.free = rest]]
Give(z, l) ==
  LET f == Head(z.free) IN
  IF l + 1 = f.at THEN [z EXCEPT !.free = <<[at |-> l, n |-> f.n + 1]>> \o Tail(@)]
  ELSE IF f.at + f.n = l THEN [z EXCEPT !.free = <<[at |-> f.at, n |-> f.n + 1]>> \o Tail(@)]
  ELSE [z EXCEPT !.free = <<[at |-> l, n |-> 1]>> \o @]
Join(f) ==
  FoldLeft(LAMBDA a, b : IF a /= <<>> /\ Last(a).at + Last(a).n = b.at THEN Front(a) \o <<[at |-> Last(a).at, n |-> Last(a).n + b.n]>> ELSE Append(a, b), <<>>, f)
Reserve(z, n, nused) ==
  IF z.size - nused > n /\ Head(z.free).n >= n THEN z
  ELSE IF z.size - nused > n /\ (2 * z.size > 3 * nused \/ z.size > Initial)
       THEN LET f == Join(SortSeq(z.free, LAMBDA a, b : a.at < b.at))
                fit == {i \in DOMAIN f : f[i].n >= n}
                i == CHOOSE i \in fit : \A j \in fit : i <= j
            IN  IF fit = {} THEN Grow([z EXCEPT !.free = f], n) ELSE [z EXCEPT !.free = <<f[i]>> \o RemoveAt(f, i)]
       ELSE Grow(z, n)
RECURSIVE TakeN(_, _, _)
TakeN(z, k, acc) == IF k = 0 THEN [at |-> acc, z |-> z] ELSE LET t == Take(z) IN TakeN(t.z, k - 1, Append(acc, t.at))

Z == [size |-> size, free |-> free]
NewId == CHOOSE i \in 1..(MaxIds + 1) : i \notin DOMAIN used /\ \A j \in 1..(MaxIds + 1) : j \notin DOMAIN used => i <= j
Init == size = 0 /\ free = <<>> /\ used = [i \in {} |-> 0] /\ h = <<>>
Alloc == /\ Cardinality(DOMAIN used) < MaxIds
         /\ LET t == Take(Z) IN size' = t.z.size /\ free' = t.z.free /\ used' = (NewId :> t.at) @@ used /\ h' = Append(h, [op |-> "mk", n |-> 1, id |-> NewId])
(* a block is created and destroyed as a whole, as is an array *)
Block == \E n \in 2..MaxBlock :
         /\ Cardinality(DOMAIN used) + n <= MaxIds
         /\ LET t == TakeN(Reserve(Z, n, Cardinality(DOMAIN used)), n, <<>>)
                ids == SetToSortSeq((1..MaxIds) \ DOMAIN used, <)
            IN  /\ size' = t.z.size /\ free' = t.z.free
                /\ used' = [i \in {ids[j] : j \in 1..n} |-> t.at[CHOOSE j \in 1..n : ids[j] = i]] @@ used
                /\ h' = Append(h, [op |-> "block", n |-> n, id |-> 0])
                /\ Assert(\A j \in 1..(n - 1) : t.at[j + 1] = t.at[j] + 1, <<"not adjacent", t.at>>)
Free == \E i \in DOMAIN used :
         LET z == Give(Z, used[i]) IN size' = z.size /\ free' = z.free /\ used' = [j \in DOMAIN used \ {i} |-> used[j]] /\ h' = Append(h, [op |-> "rm", n |-> 0, id |-> i])
Next == Len(h) < Depth /\ size <= MaxSize /\ (Alloc \/ Block \/ Free) /\ PrintT(<<"PATH", ToJson(h')>>)
Spec == Init /\ [][Next]_vars
View == <<size, free, used>>

Slots(b) == b.at..(b.at + b.n - 1)
Partition ==
  /\ \A i, j \in DOMAIN used : used[i] = used[j] => i = j
  /\ \A i, j \in DOMAIN free : i /= j => Slots(free[i]) \cap Slots(free[j]) = {}
  /\ UNION {Slots(free[i]) : i \in DOMAIN free} \cup {used[i] : i \in DOMAIN used} = 0..(size - 1)
  /\ \A i \in DOMAIN free : free[i].n > 0 /\ \A j \in DOMAIN used : used[j] \notin Slots(free[i])
(* before the first request there is no storage; afterwards some slot is always free *)
Room == size > 0 => free /= <<>>
=============================================================================

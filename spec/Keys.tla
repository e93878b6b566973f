-------------------------------- MODULE Keys --------------------------------
(* The discipline of random keys.  A key is spent by drawing numbers from  *)
(* it or by splitting it into new keys; nobody may spend it again.  Folding *)
(* integers into a key derives new keys too, one per integer.              *)
(*                                                                         *)
(* Split(n): keys are paths from the key of the user.  The machine spends  *)
(* live keys in any order; MCKeys-like invariants say that whatever it does*)
(* the keys drawn from are unrelated, hence their numbers independent.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* an event: <<kind, key, keys derived or <<>> , datum folded>>            *)
Src(e) == e[2]
New(e) == e[3]
ToSet_(s) == {s[j] : j \in DOMAIN s}
Derived(E) == UNION {ToSet_(New(E[j])) : j \in DOMAIN E}

(* discipline of a history of events, in whatever order they are listed *)
SpentOnce(E) ==
  LET srcs == [j \in DOMAIN E |-> IF E[j][1] = "fold" THEN <<E[j][2], E[j][4]>> ELSE <<E[j][2], -1>>]
      plain == {E[j][2] : j \in {q \in DOMAIN E : E[q][1] # "fold"}}
      folded == {E[j][2] : j \in {q \in DOMAIN E : E[q][1] = "fold"}}
  IN Cardinality(ToSet_(srcs)) = Cardinality(DOMAIN E) /\ plain \cap folded = {}
Descends(roots, E) == {E[j][2] : j \in DOMAIN E} \subseteq (roots \cup Derived(E))
NewDistinct(roots, E) ==
  LET RECURSIVE Count(_)
      Count(q) == IF q = 0 THEN 0 ELSE Len(New(E[q])) + Count(q - 1)
  IN Cardinality(Derived(E)) = Count(Len(E)) /\ Derived(E) \cap roots = {}

(* ---------------------------------------------------------------- model *)
CONSTANT D, W     \* depth of the derivations, width of the splits
VARIABLES live, hist
Child(k, n) == [j \in 1..n |-> Append(k, j)]
Init == live = {<<>>} /\ hist = <<>>
Draw(k) == live' = live \ {k} /\ hist' = Append(hist, <<"draw", k, <<>>, 0>>)
Split(k, n) == /\ Len(k) < D
               /\ live' = (live \ {k}) \cup ToSet_(Child(k, n))
               /\ hist' = Append(hist, <<"split", k, Child(k, n), 0>>)
Next == \E k \in live : Draw(k) \/ \E n \in 1..W : Split(k, n)

Related(a, b) == \E s \in 0..D : (Len(a) >= s /\ SubSeq(a, 1, s) = b) \/ (Len(b) >= s /\ SubSeq(b, 1, s) = a)
Drawn == {q \in DOMAIN hist : hist[q][1] = "draw"}
Disciplined == SpentOnce(hist) /\ Descends({<<>>}, hist) /\ NewDistinct({<<>>}, hist)
Independent == \A q, r \in Drawn : q # r => ~Related(hist[q][2], hist[r][2])
NotSpent == \A k \in live : \A q \in DOMAIN hist : hist[q][2] # k
(* the definition tells apart what the machine cannot do: spending a key again *)
Again == \A q \in DOMAIN hist : ~SpentOnce(Append(hist, <<"draw", hist[q][2], <<>>, 0>>))
View == <<live, ToSet_(hist)>>
=============================================================================

------------------------------ MODULE ApaLoop ------------------------------
(* Unbounded version for Apalache: arbitrary B, S >= 0 and K >= 1.  The    *)
(* traces are replaced by their lengths and the iteration last saved.      *)
(* IndInv is inductive, and implies that the schedule is respected.        *)
EXTENDS Integers
CONSTANTS
  \* @type: Int;
  B,
  \* @type: Int;
  S,
  \* @type: Int;
  K
VARIABLES
  \* @type: Str;
  pc,
  \* @type: Int;
  it,
  \* @type: Int;
  skip,
  \* @type: Int;
  saved,
  \* @type: Int;
  nburn,
  \* @type: Int;
  lastrow,
  \* @type: Bool;
  lastflag,
  \* @type: Int;
  sk
\* sk stands for saved * K (kept linear: K is unbounded)
CInit == B \in Nat /\ S \in Nat /\ K \in Nat /\ K >= 1
Init == /\ pc = IF B > 0 THEN "burn" ELSE IF S > 0 THEN "main" ELSE "done"
        /\ it = 0 /\ skip = 0 /\ saved = 0 /\ nburn = 0 /\ lastrow = B /\ lastflag = FALSE /\ sk = 0
Burn == /\ pc = "burn" /\ it' = it + 1 /\ nburn' = nburn + 1 /\ lastflag' = TRUE
        /\ skip' = IF it + 1 = B THEN 0 ELSE skip + 1
        /\ pc' = IF it + 1 = B THEN IF S > 0 THEN "main" ELSE "done" ELSE "burn"
        /\ UNCHANGED <<saved, lastrow, sk>>
Main == /\ pc = "main" /\ it' = it + 1 /\ lastflag' = FALSE /\ UNCHANGED nburn
        /\ \/ skip + 1 = K /\ skip' = 0 /\ saved' = saved + 1 /\ lastrow' = it + 1 /\ sk' = sk + K
              /\ pc' = IF saved + 1 = S THEN "done" ELSE "main"
           \/ skip + 1 < K /\ skip' = skip + 1 /\ UNCHANGED <<saved, lastrow, pc, sk>>
Next == Burn \/ Main
IndInv ==
  /\ pc \in {"burn", "main", "done"}
  /\ it >= 0 /\ skip >= 0 /\ saved >= 0 /\ nburn >= 0 /\ sk >= 0
  /\ lastrow = B + sk
  /\ (saved = 0) => (sk = 0)
  /\ pc = "burn" => it < B /\ nburn = it /\ saved = 0 /\ skip = it
  /\ pc # "burn" => nburn = B /\ it = B + sk + skip
  /\ pc = "main" => saved < S /\ skip < K
  /\ pc = "done" => saved = S /\ skip = 0
  /\ lastflag => (it > 0 /\ it <= B)
  /\ (it > B) => ~lastflag
  /\ (it > 0 /\ it <= B) => lastflag
\* any state satisfying the invariant
IndInit == /\ pc \in {"burn", "main", "done"}
           /\ it \in Int /\ skip \in Int /\ saved \in Int /\ nburn \in Int /\ lastrow \in Int /\ sk \in Int
           /\ lastflag \in BOOLEAN
           /\ IndInv
Goal == pc = "done" => it = B + sk /\ nburn = B /\ saved = S /\ lastrow = it
=============================================================================

------------------------------ MODULE Judging ------------------------------
(* Common part of the judge modules: records are visited as the nodes of a *)
(* binary tree so that TLC's workers share them; the verdict never stops   *)
(* TLC, it prints each failing clause.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLE idx

Records == ndJsonDeserialize(IOEnv.RECORDS)
N == Len(Records)
Prop == IOEnv.PROP

JInit == idx = 1
JNext == \E c \in {2 * idx, 2 * idx + 1} : c <= N /\ idx' = c

NF == 2147483647

Report(clauses) == \A c \in clauses : PrintT(<<"FAIL", idx, c>>)

(* a within tol of b, whatever a (NF codes a non-finite number) *)
Near(a, b, tol) == a < 1000000000 /\ a > -1000000000 /\
                   (IF a >= b THEN a - b ELSE b - a) <= tol
Abs(x) == IF x < 0 THEN -x ELSE x
(* clause c fails unless p *)
Need(p, c) == IF p THEN {} ELSE {c}
=============================================================================

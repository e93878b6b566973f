------------------------------ MODULE MCLayout ------------------------------
(* All small configurations, and sizes around the limits of the types: the *)
(* layout of the initial state is kept by every step of a run, the traces  *)
(* have one more axis and nothing else, and every index fits its type.     *)
EXTENDS Layout, TLC
CONSTANTS Store
VARIABLES cfg, sig, t, saved
vars == <<cfg, sig, t, saved>>
Floats == {"float16", "bfloat16", "float32", "float64"}
Configs == {c \in [m : {1, 3}, d : {1, 2, 8, 9, 16, 17}, p : {1, 256, 257, 65536, 65537}, n : {0, 5}, small : Floats, large : Floats,
                   mst : {"uint8", "uint16"}, xt : {"uint8"}, x64 : {0, 1}, mp : {0, 1}, ratios : {0, 1}] :
             Domain(c) /\ (c.m = 1 \/ (c.d = 2 /\ c.p = 1)) /\ (c.p = 1 \/ c.d = 2)}
Init == cfg \in Configs /\ sig = Sig(cfg) /\ t = 0 /\ saved = <<>>
Step == t < 3 /\ sig' = StepSig(sig, Store) /\ t' = t + 1 /\ saved' = Append(saved, sig) /\ UNCHANGED cfg
Done == t = 3 /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
FixedPoint == sig = Sig(cfg)
Stackable == \A i, j \in 1..Len(saved) : saved[i] = saved[j]
Wide == Holds(cfg)
(* one level, one predictor or one row less would do with the narrower type *)
Tight == LET s == Sig(cfg) IN (s.leaf_indices[2] = "uint16" => Pow2_(cfg.d) - 1 > 255) /\ (s.var_trees[2] = "uint16" => cfg.p - 1 > 255)
=============================================================================

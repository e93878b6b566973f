------------------------------- MODULE Layout -------------------------------
(* Layout of the sampler state: the shape and type of every field, as a    *)
(* function of the configuration, how the types flow through one step, and *)
(* the layout of the saved traces. A state whose layout is not a fixed     *)
(* point of the step can not be stepped in a loop.                         *)
(*                                                                         *)
(* Types: "bool", "uint8".., "int32".., "float16", "bfloat16", ...         *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Pow2_(_)
Pow2_(k) == IF k = 0 THEN 1 ELSE 2 * Pow2_(k - 1)

(* narrowest unsigned type that holds 0..max; max < 2^31 in the model *)
MinU(max) == IF max < 256 THEN "uint8" ELSE IF max < 65536 THEN "uint16" ELSE "uint32"
MaxOf(t) == CASE t = "uint8" -> 255 [] t = "uint16" -> 65535 [] OTHER -> 2147483647

(* floating types: a partial order with float32 above both half types *)
FloatRank(t) == CASE t \in {"float16", "bfloat16"} -> 1 [] t = "float32" -> 2 [] t = "float64" -> 3
Promote(a, b) == IF a = b THEN a
                 ELSE IF FloatRank(a) = 1 /\ FloatRank(b) = 1 THEN "float32"
                 ELSE IF FloatRank(a) > FloatRank(b) THEN a ELSE b
NoWider(a, b) == Promote(a, b) = b

(* c: m trees, d levels, p predictors, n points, small and large types,    *)
(* mst, xt types of max_split and X, x64 default width, mp, ratios flags   *)
Counter(c) == IF c.x64 = 1 THEN "int64" ELSE "int32"
Absent == <<<<>>, "absent">>
Sig(c) ==
  LET N == Pow2_(c.d) H == Pow2_(c.d - 1) IN
  [ leaf_trees |-> <<<<c.m, N>>, c.small>>,
    var_trees |-> <<<<c.m, H>>, MinU(c.p - 1)>>,
    split_trees |-> <<<<c.m, H>>, c.mst>>,
    affluence_trees |-> IF c.mp = 1 THEN <<<<c.m, H>>, "bool">> ELSE Absent,
    leaf_indices |-> <<<<c.m, c.n>>, MinU(N - 1)>>,
    resid |-> <<<<c.n>>, c.large>>,
    sigma2 |-> <<<<>>, c.large>>,
    grow_prop_count |-> <<<<>>, Counter(c)>>, grow_acc_count |-> <<<<>>, Counter(c)>>,
    prune_prop_count |-> <<<<>>, Counter(c)>>, prune_acc_count |-> <<<<>>, Counter(c)>>,
    p_nonterminal |-> <<<<c.d>>, c.large>>,
    p_propose_grow |-> <<<<H>>, c.large>>,
    sigma2_alpha |-> <<<<>>, c.large>>, sigma2_beta |-> <<<<>>, c.large>>,
    max_split |-> <<<<c.p>>, c.mst>>,
    y |-> <<<<c.n>>, c.small>>,
    X |-> <<<<c.p, c.n>>, c.xt>>,
    min_points_per_leaf |-> IF c.mp = 1 THEN <<<<>>, Counter(c)>> ELSE Absent,
    log_trans_prior |-> IF c.ratios = 1 THEN <<<<c.m>>, c.large>> ELSE Absent,
    log_likelihood |-> IF c.ratios = 1 THEN <<<<c.m>>, c.large>> ELSE Absent ]
Fields == {"leaf_trees", "var_trees", "split_trees", "affluence_trees", "leaf_indices", "resid", "sigma2",
           "grow_prop_count", "grow_acc_count", "prune_prop_count", "prune_acc_count", "p_nonterminal", "p_propose_grow",
           "sigma2_alpha", "sigma2_beta", "max_split", "y", "X", "min_points_per_leaf", "log_trans_prior", "log_likelihood"}
(* what the configuration must satisfy *)
Domain(c) == NoWider(c.small, c.large) /\ NoWider("float32", c.large) /\ (c.x64 = 1 \/ c.large = "float32")

(* types through one step; store: cast the new leaves to the stored type *)
With(f, t) == <<f[1], t>>
StepSig(s, store) ==
  LET small == s.leaf_trees[2] large == s.sigma2[2]
      sums == Promote("float32", small)          \* residual sums plus the old leaves
      leaf == IF store THEN small ELSE Promote(sums, large)
      ratio(f) == IF f = Absent THEN Absent ELSE With(f, Promote(large, "float32"))
  IN [s EXCEPT !.leaf_trees = With(s.leaf_trees, leaf),
               !.resid = With(s.resid, Promote(s.resid[2], leaf)),
               !.sigma2 = With(s.sigma2, s.sigma2_beta[2]),
               !.log_likelihood = ratio(s.log_likelihood),
               !.log_trans_prior = IF @ = Absent THEN Absent ELSE With(@, s.p_propose_grow[2])]

(* traces: one more axis at the front *)
BurnFields == {"sigma2", "grow_prop_count", "grow_acc_count", "prune_prop_count", "prune_acc_count", "log_trans_prior", "log_likelihood"}
MainFields == BurnFields \cup {"leaf_trees", "var_trees", "split_trees"}
Stack(s, F, k) == [f \in Fields |-> IF f \in F /\ s[f] # Absent THEN <<<<k>> \o s[f][1], s[f][2]>> ELSE Absent]

(* the types hold what is stored in them *)
Holds(c) == LET s == Sig(c) IN
  /\ MaxOf(s.leaf_indices[2]) >= Pow2_(c.d) - 1
  /\ MaxOf(s.var_trees[2]) >= c.p - 1
=============================================================================

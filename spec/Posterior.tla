----------------------------- MODULE Posterior -----------------------------
(* The joint distribution of trees, leaves, noise variance and data that   *)
(* the chain has to leave unchanged: if the trees, leaves and variance are *)
(* drawn from the prior and the data from the model, any number of steps   *)
(* of the chain with those data gives again trees, leaves and variance     *)
(* distributed as the prior, and standardised residuals distributed as     *)
(* independent standard normals (C28).                                     *)
EXTENDS Kernel, Conditional

NormV(v, s) == [i \in DOMAIN v |-> IF s[i] = 0 THEN 0 ELSE v[i]]
EnoughAt(K, V, S, i) ==
  ~K.req \/ LET ix == IndexOf(K, V, S) IN CountAt(K, ix, 2 * i) >= K.minp /\ CountAt(K, ix, 2 * i + 1) >= K.minp

(* all the trees with positive prior probability *)
RECURSIVE Closure(_, _, _)
Closure(K, F, Seen) ==
  IF F = {} THEN Seen
  ELSE LET new == UNION {{<<a[1], a[2]>> : a \in {Grow(t[1], t[2], mv.i, mv.v, mv.c) :
                            mv \in {g \in GrowMoves(K, t[1], t[2]) :
                               LET b == Grow(t[1], t[2], g.i, g.v, g.c) IN EnoughAt(K, b[1], b[2], g.i)}}} : t \in F} \ Seen
       IN Closure(K, new, Seen \cup new)
AllTrees(K) == LET E == {<<Empty(K.d), Empty(K.d)>>} IN Closure(K, E, E)

(* prior probabilities in millionths; A the set of all trees *)
PriorTable(K, A) ==
  LET lp == [T \in A |-> LnPrior(K, T[1], T[2])]
      top == CHOOSE x \in {lp[T] : T \in A} : \A T \in A : lp[T] <= x
      wt == [T \in A |-> ExpNeg(top - lp[T])]
      z == SumOn(wt, A)
      s == z \div 1500000 + 1
      zz == z \div s
  IN [T \in A |-> (DivMicro(wt[T], zz) + s \div 2) \div s]

(* ---- the prior as a generating process: each node in turn stays a leaf or
   gets a rule; f is the probability so far as a prime factorization ---- *)
Fresh(K) == [V |-> Empty(K.d), S |-> Empty(K.d), todo |-> {1}, f |-> One, ok |-> TRUE]
Pick(g) == CHOOSE i \in g.todo : \A j \in g.todo : i <= j
AsLeaf(K, g) ==
  LET i == Pick(g) IN
  [g EXCEPT !.todo = @ \ {i}, !.f = Mul(@, FFrac(<<16 - WNode(K, i), 16>>))]
(* a node drawn as nonterminal without a possible rule makes the draw void *)
AsVoid(g) == [g EXCEPT !.ok = FALSE, !.todo = {}]
AsRule(K, g, v, c) ==
  LET i == Pick(g)
      a == Grow(g.V, g.S, i, v, c)
  IN [V |-> a[1], S |-> a[2], todo |-> (g.todo \ {i}) \cup {2 * i, 2 * i + 1},
      f |-> Mul(g.f, Dvd(Dvd(FFrac(<<WNode(K, i), 16>>), Fact(Cardinality(Drawable(g.V, g.S, K.ms, i)))),
                         Fact(Cardinality(Cuts(g.V, g.S, K.ms, i, v))))),
      ok |-> EnoughAt(K, a[1], a[2], i)]
CanRule(K, g) == WNode(K, Pick(g)) > 0 /\ Pick(g) <= Len(g.S)
=============================================================================

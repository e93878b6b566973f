------------------------------ MODULE McmcLoop ------------------------------
(* The run loop (bartz.mcmcloop.run_mcmc): B burn-in iterations, then S    *)
(* times K iterations of which the last is saved. The Markov chain is      *)
(* abstracted to its iteration number: state t is the state after t steps. *)
EXTENDS Schedule, Sequences
CONSTANTS BMax, SMax, KMax
VARIABLES B, S, K,               \* the schedule, fixed
          pc, it, skip, saved, burn, main, log
vars == <<B, S, K, pc, it, skip, saved, burn, main, log>>

Init == /\ B \in 0..BMax /\ S \in 0..SMax /\ K \in 1..KMax
        /\ pc = IF B > 0 THEN "burn" ELSE IF S > 0 THEN "main" ELSE "done"
        /\ it = 0 /\ skip = 0 /\ saved = 0
        /\ burn = <<>> /\ main = <<>> /\ log = <<>>

Iterate(b) == /\ it' = it + 1
              /\ log' = Append(log, [i |-> it, skip |-> skip, burnin |-> b])

Burn == /\ pc = "burn" /\ Iterate(TRUE)
        /\ burn' = Append(burn, it + 1)
        /\ IF it + 1 = B
           THEN skip' = 0 /\ pc' = IF S > 0 THEN "main" ELSE "done"
           ELSE skip' = skip + 1 /\ pc' = pc
        /\ UNCHANGED <<saved, main>>
Main == /\ pc = "main" /\ Iterate(FALSE)
        /\ IF skip + 1 = K
           THEN /\ skip' = 0 /\ saved' = saved + 1
                /\ main' = Append(main, it + 1)
                /\ pc' = IF saved + 1 = S THEN "done" ELSE pc
           ELSE skip' = skip + 1 /\ UNCHANGED <<saved, main, pc>>
        /\ UNCHANGED burn
Next == (Burn \/ Main) /\ UNCHANGED <<B, S, K>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pc = "done" =>
  /\ it = Total(B, S, K)
  /\ Len(burn) = B /\ \A j \in DOMAIN burn : burn[j] = BurnRow(j)
  /\ Len(main) = S /\ \A j \in DOMAIN main : main[j] = MainRow(B, K, j)
  /\ Len(log) = Total(B, S, K)
  /\ \A j \in DOMAIN log : /\ log[j].i = LogI(j) /\ log[j].skip = LogSkip(B, K, j)
                           /\ log[j].burnin = LogBurnin(B, j)
Always == /\ it = Len(log) /\ it <= Total(B, S, K)
          /\ (pc = "main" \/ pc = "done") => it = B + saved * K + skip
          /\ \A j \in DOMAIN main : main[j] = MainRow(B, K, j)
          /\ \A j \in DOMAIN burn : burn[j] = BurnRow(j)
Terminates == <>(pc = "done")

=============================================================================

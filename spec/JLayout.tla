------------------------------ MODULE JLayout ------------------------------
(* Judge of the layout of recorded states and traces (C27).                *)
EXTENDS Layout, Judging
R == Records[idx]

(* stage: "init", "step", ... have the layout of the state; "burn", "main" *)
(* the one of the traces with R.rows rows; fields not listed are absent    *)
Expected == CASE R.stage = "burn" -> Stack(Sig(R.cfg), BurnFields, R.rows)
              [] R.stage = "main" -> Stack(Sig(R.cfg), MainFields, R.rows)
              [] OTHER -> Sig(R.cfg)
SigFails ==
       Need(Domain(R.cfg), "machinery-domain")
  \cup {"type-or-shape-of-" \o f : f \in {f \in Fields : R.fields[f] # Expected[f]}}
  \cup Need(R.same = 1, "not-a-state-of-the-same-kind")
  \cup Need(R.opt = R.opt0, "options-changed")

(* type helpers: argument 2^e + o *)
Width(e, o) == IF e < 8 \/ (e = 8 /\ o < 0) THEN 8 ELSE IF e < 16 \/ (e = 16 /\ o < 0) THEN 16 ELSE IF e < 32 \/ (e = 32 /\ o < 0) THEN 32 ELSE 64
HelpFails ==
       Need(\A k \in 1..Len(R.minu) : R.minu[k][3] = Width(R.minu[k][1], R.minu[k][2]), "minimal-unsigned-type")
  \cup Need(\A k \in 1..Len(R.tounsigned) : R.tounsigned[k][1] = R.tounsigned[k][2] /\ R.tounsigned[k][3] = 1, "signed-to-unsigned")
  \cup Need(\A k \in 1..Len(R.huge) : R.huge[k] = 1, "largest-value")
  \cup Need(\A k \in 1..Len(R.ppf) : Near(R.ppf[k][1], R.ppf[k][2], 2 + R.ppf[k][2] \div 100000), "broadcast-callback")

Fails == IF R.raised # "" THEN {"raised: " \o R.raised}
         ELSE CASE R.kind = "sig" -> SigFails
                [] R.kind = "help" -> HelpFails
JVerdict == Report(Fails)
=============================================================================

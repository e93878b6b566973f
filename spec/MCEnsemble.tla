---------------------------- MODULE MCEnsemble ----------------------------
EXTENDS Ensemble
MC_MS == <<2, 1>>
MC_X  == << <<0, 0>>, <<1, 1>>, <<2, 0>>, <<2, 1>> >>
=============================================================================

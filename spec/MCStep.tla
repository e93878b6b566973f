------------------------------ MODULE MCStep ------------------------------
EXTENDS McmcStep
MC_MS == <<2, 1>>
MC_X  == << <<0, 0>>, <<1, 1>>, <<2, 0>>, <<2, 1>> >>
MC_X3 == << <<0, 0>>, <<1, 1>>, <<2, 0>> >>
MC_MS0 == <<1, 0>>     \* second predictor without cutpoints
MC_X0 == << <<0, 0>>, <<1, 0>> >>
MC_Y == <<1, -2, 3, 0>>
MC_Y3 == <<1, -2, 3>>
MC_Y2 == <<2, -1>>
=============================================================================

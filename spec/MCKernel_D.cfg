CONSTANT KK <- KD
SPECIFICATION Spec
INVARIANTS Valid Total DetailedBalance LogsAgree PrunesLegal LikPotential

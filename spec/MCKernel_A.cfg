CONSTANT KK <- KA
SPECIFICATION Spec
INVARIANTS Valid Total DetailedBalance LogsAgree PrunesLegal LikPotential

CONSTANT KK <- KB
SPECIFICATION Spec
INVARIANTS Valid Total DetailedBalance LogsAgree PrunesLegal LikPotential

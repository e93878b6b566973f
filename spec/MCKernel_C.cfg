CONSTANT KK <- KC
SPECIFICATION Spec
INVARIANTS Valid Total DetailedBalance LogsAgree PrunesLegal LikPotential

CONSTANT KK <- KE
SPECIFICATION Spec
INVARIANTS Valid Total DetailedBalance LogsAgree PrunesLegal LikPotential

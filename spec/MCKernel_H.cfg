CONSTANT KK <- KH
SPECIFICATION Spec
INVARIANTS Valid Total DetailedBalance LogsAgree PrunesLegal LikPotential
INVARIANT MultSame

CONSTANT KK <- KC
SPECIFICATION Spec
INVARIANTS SupportIn ProbabilityAgrees Proper SupportOut TableAdds

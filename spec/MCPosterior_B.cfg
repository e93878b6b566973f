CONSTANT KK <- KB
SPECIFICATION Spec
INVARIANTS SupportIn ProbabilityAgrees Proper SupportOut TableAdds

CONSTANT KK <- KA
SPECIFICATION Spec
INVARIANTS SupportIn ProbabilityAgrees Proper SupportOut TableAdds

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT FilterIsJoint WeightsAreProbabilities CovariancesAreProper OrderIsIrrelevant LabelsAreIrrelevant SplittingIsIrrelevant
PROPERTY MissingChangesNothing OutcomesDoNotMove

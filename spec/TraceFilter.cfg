SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT PosteriorIsDistribution CovariancesArePositive AllDone

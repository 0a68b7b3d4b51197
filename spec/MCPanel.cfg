SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT RowOrderIsIrrelevant LabelsAreIrrelevant Separable LateRowsAreIrrelevant DiscardingIsComplete DiscardedRowsExist

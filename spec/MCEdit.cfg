SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT StaysValid UniqueParameters OnlyRemoves LinearIsNested Idempotent Commute RestrictionsShrink

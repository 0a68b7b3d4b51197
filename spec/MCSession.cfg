SPECIFICATION Spec
INVARIANT TypeOk
PROPERTY Keeps
PROPERTY Pure
PROPERTY Isolated
CHECK_DEADLOCK FALSE

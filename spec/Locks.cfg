SPECIFICATION Spec
CONSTANT N = 2
INVARIANTS NoDeadlock Owned Released Twice
CHECK_DEADLOCK FALSE

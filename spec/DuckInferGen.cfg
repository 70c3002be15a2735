SPECIFICATION Spec
INVARIANT OnlyParentheses
INVARIANT Idempotent
INVARIANT Protected
INVARIANT Erased
INVARIANT WellTyped
CHECK_DEADLOCK FALSE

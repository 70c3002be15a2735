SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
CHECK_DEADLOCK FALSE

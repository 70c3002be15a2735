SPECIFICATION Spec
INVARIANT WroteWhatIsRead
INVARIANT Behind
INVARIANT Unfinished
CHECK_DEADLOCK FALSE

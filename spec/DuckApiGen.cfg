SPECIFICATION Spec
VIEW View
CONSTRAINT Short
INVARIANTS RefusedUnchanged FailedCallTakesArguments PushesOnTop AsksChangeNothing GoodRefs OneType LengthIsElements
CHECK_DEADLOCK FALSE

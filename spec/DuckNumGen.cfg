SPECIFICATION Spec
CONSTANT Ks = {0, 7, 8, 15, 16, 31, 32, 52, 53, 62, 63}
CONSTANT Xs = {0, 1, 2, 52, 970, 1022, 1023, 1024, 1075, 1085, 1086, 1500, 2045, 2046, 2047}
INVARIANT Euclid
INVARIANT Ring
INVARIANT Order
INVARIANT FloatLaws
INVARIANT Monotone
CHECK_DEADLOCK FALSE

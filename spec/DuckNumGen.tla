------------------------------ MODULE DuckNumGen ------------------------------
(* All pairs of numbers around the places where representations change.  The laws of arithmetic are checked on the
   specification itself, and every pair is printed, to be computed by the real system too. *)
EXTENDS DuckNum, Json, IOUtils
CONSTANT Ks, Xs
Ints == {Z(n, m) : n \in BOOLEAN, m \in UNION {{Sub(Pow(k), One), Pow(k), Add(Pow(k), One)} : k \in Ks} \cup {Nat_(3), Nat_(10)}}
IntVals == {VI(z) : z \in {z \in Ints : Fits(z)}}
Fracs == {<<>>, One, Pow(51), Sub(Pow(52), One)}
Flts == {DecF([n |-> n, x |-> x, m |-> m]) : n \in BOOLEAN, x \in Xs, m \in Fracs}
FltVals == {VF(f) : f \in Flts}
Vals == IntVals \cup FltVals \cup {VB(TRUE), VB(FALSE)}

VARIABLES a, b
vars == <<a, b>>
Init == a \in Vals /\ b = [k |-> "none"]
Pick == b.k = "none" /\ b' \in Vals /\ a' = a
        /\ PrintT("@@P " \o ToJson([a |-> a, b |-> b']))
Next == Pick
Spec == Init /\ [][Next]_vars

Paired == b.k # "none"
IntPair == Paired /\ a.k = "i" /\ b.k = "i"
FltPair == Paired /\ a.k = "f" /\ b.k = "f"
(* Division undoes multiplication, and the remainder is smaller than the divisor and has the dividend's sign. *)
Euclid == IntPair /\ b.z.m # <<>> =>
            LET q == ZQuot(a.z, b.z)
                r == ZRem(a.z, b.z) IN
            /\ ZAdd(ZMul(q, b.z), r) = a.z
            /\ Less(r.m, b.z.m) /\ (r.m = <<>> \/ r.n = a.z.n)
            /\ ZQuot(ZMul(a.z, b.z), b.z) = a.z
Ring == IntPair => /\ ZAdd(a.z, b.z) = ZAdd(b.z, a.z) /\ ZMul(a.z, b.z) = ZMul(b.z, a.z)
                   /\ ZAdd(ZAdd(a.z, b.z), ZNeg(b.z)) = a.z
                   /\ ZMul(ZAdd(a.z, b.z), ZAdd(a.z, ZNeg(b.z))) = ZAdd(ZMul(a.z, a.z), ZNeg(ZMul(b.z, b.z)))
Order == Paired /\ a.k # "b" /\ b.k # "b" /\ a.k = b.k /\ (a.k = "f" => a.f.c # "nan" /\ b.f.c # "nan") =>
            LET n == (IF Op("<", a, b).v THEN 1 ELSE 0) + (IF Op(">", a, b).v THEN 1 ELSE 0) + (IF Op("=", a, b).v THEN 1 ELSE 0) IN n = 1
Wellformed(f) == f.c = "fin" => /\ f.e >= MinE /\ f.e <= MaxE /\ Bits(f.m) <= 53 /\ Bits(f.m) > 0 /\ (Bits(f.m) = 53 \/ f.e = MinE)
FloatLaws == FltPair =>
   LET s == FAdd(a.f, b.f)
       d == FSub(a.f, b.f)
       p == FMul(a.f, b.f)
       q == FDiv(a.f, b.f) IN
   /\ \A f \in {s, d, p, q} : Wellformed(f)
   /\ s = FAdd(b.f, a.f) /\ p = FMul(b.f, a.f) /\ (d.c # "zero" => d = FNeg(FSub(b.f, a.f)))
   /\ FDiv(a.f, FOfZ(Z(FALSE, One))) = a.f /\ FMul(a.f, FOfZ(Z(FALSE, One))) = a.f
   \* gradual underflow: a difference is zero only for equal numbers
   /\ (a.f.c \in {"fin", "zero"} /\ b.f.c \in {"fin", "zero"} => (d.c = "zero") = FEq(a.f, b.f))
(* Rounding is monotone, and exact up to 2^53. *)
Monotone == IntPair => /\ (ZLess(a.z, b.z) => ~FLess(FOfZ(b.z), FOfZ(a.z)))
                       /\ (Bits(a.z.m) <= 53 /\ a.z.m # <<>> => LET f == FOfZ(a.z) IN IF f.e >= 0 THEN Z(f.n, ShL(f.m, f.e)) = a.z ELSE Z(f.n, ShR(f.m, -f.e)) = a.z /\ ShL(ShR(f.m, -f.e), -f.e) = f.m)
===============================================================================

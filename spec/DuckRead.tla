------------------------------- MODULE DuckRead -------------------------------
(***************************************************************************)
(* The reader: what a source text denotes.                                 *)
(*                                                                         *)
(* A transition system over the bytes of the text.  Its state:             *)
(*   m    where it is: "gap" between tokens, "tok" inside a name or        *)
(*        number, "str"/"esc" inside a string, "com" inside a comment;     *)
(*        "done": the first form is complete and the rest is not looked    *)
(*        at; "rej": no continuation is a form; "oos": the notation gives  *)
(*        the text no single meaning (see Classify)                        *)
(*   cur  the bytes of the current token                                   *)
(*   st   the canonical notations of the data read so far, for each        *)
(*        enclosing list that is still open                                *)
(*   res  the canonical notation of the form                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, DuckChars

MaxDepth == 900         \* the default limits are 1000; texts this deep are not judged

Ws == 0..32
LParen == 40
RParen == 41
Quote == 34
Semi == 59
Back == 92
Hash == 35
Minus == 45
Dot == 46
Digit == 48..57
IsDigit(b) == b \in Digit
IsName(b) == b > 32 /\ b \notin {Quote, LParen, RParen, Semi}

Cat(ss) == FoldLeft(LAMBDA a, x : a \o x, "", ss)
Bytes(bs) == Cat([i \in DOMAIN bs |-> PrintChar[bs[i] + 1]])
Digits(ds) == Cat([i \in DOMAIN ds |-> ToString(ds[i])])

-------------------------------------------------------------------------------
(* Numbers. Naturals are sequences of decimal digits, most significant first. *)
Strip0(ds) == LET i == SelectInSeq(ds, LAMBDA d : d # 0) IN IF i = 0 THEN <<>> ELSE SubSeq(ds, i, Len(ds))
StripT(ds) == Reverse(Strip0(Reverse(ds)))
Vals(bs) == [i \in DOMAIN bs |-> bs[i] - 48]
AllDigits(bs) == Len(bs) > 0 /\ \A i \in DOMAIN bs : IsDigit(bs[i])

RECURSIVE LessEq(_, _)
LessEq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
                ELSE IF a = <<>> THEN TRUE
                ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LessEq(Tail(a), Tail(b))
MaxInt == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>

(* n * 16 + d, on little-endian digits *)
MulAdd16(n, d) ==
  LET r == FoldLeft(LAMBDA a, x : LET v == x * 16 + a.c IN [c |-> v \div 10, o |-> Append(a.o, v % 10)], [c |-> d, o |-> <<>>], n) IN
  IF r.c = 0 THEN r.o ELSE IF r.c < 10 THEN Append(r.o, r.c) ELSE r.o \o <<r.c % 10, r.c \div 10>>
HexVal(b) == IF IsDigit(b) THEN b - 48 ELSE IF b \in 97..102 THEN b - 87 ELSE IF b \in 65..70 THEN b - 55 ELSE -1
FromHex(bs) == Strip0(Reverse(FoldLeft(LAMBDA n, b : MulAdd16(n, HexVal(b)), <<>>, bs)))

Unsigned(t) == IF t # <<>> /\ t[1] = Minus THEN Tail(t) ELSE t
Sign(t) == IF t # <<>> /\ t[1] = Minus THEN "-" ELSE ""
IsHex(u) == Len(u) > 2 /\ u[1] = 48 /\ u[2] \in {120, 88} /\ \A i \in 3..Len(u) : HexVal(u[i]) >= 0
IsInt(t) == AllDigits(Unsigned(t)) \/ IsHex(Unsigned(t))
IntOf(t) ==
  LET u == Unsigned(t)
      ds == IF IsHex(u) THEN FromHex(SubSeq(u, 3, Len(u))) ELSE Strip0(Vals(u)) IN
  IF ~LessEq(ds, MaxInt) THEN "oos"
  ELSE IF ds = <<>> THEN "i0" ELSE "i" \o Sign(t) \o Digits(ds)

(* A float has digits around at most one point, with a digit before it or after it, and perhaps an exponent; the point or
   the exponent makes it a float. *)
FloatParts(t) ==
  LET u == Unsigned(t)
      e == SelectInSeq(u, LAMBDA b : b \in {101, 69})
      m == IF e = 0 THEN u ELSE SubSeq(u, 1, e - 1)
      x == IF e = 0 THEN <<>> ELSE SubSeq(u, e + 1, Len(u))
      p == SelectInSeq(m, LAMBDA b : b = Dot)
      w == IF p = 0 THEN m ELSE SubSeq(m, 1, p - 1)
      f == IF p = 0 THEN <<>> ELSE SubSeq(m, p + 1, Len(m)) IN
  [ok |-> /\ \A i \in DOMAIN w : IsDigit(w[i])
          /\ \A i \in DOMAIN f : IsDigit(f[i])
          /\ Len(w) + Len(f) > 0
          /\ (e # 0 => AllDigits(Unsigned(x)))
          /\ (p # 0 \/ e # 0),
   w |-> w, f |-> f, x |-> x]
RECURSIVE ToInt(_)
ToInt(ds) == IF ds = <<>> THEN 0 ELSE 10 * ToInt(Front(ds)) + Last(ds)
IsFloat(t) == FloatParts(t).ok
(* The value is mantissa * 10^scale.  It is read exactly (the nearest double) when the mantissa has at most 15 digits and
   the scale is at most 22 either way: both are doubles then, and one rounding remains. *)
FloatOf(t) ==
  LET p == FloatParts(t)
      ds == Vals(p.w \o p.f)
      xs == Vals(Unsigned(p.x))
      sig == StripT(Strip0(ds)) IN
  IF Len(Strip0(xs)) > 3 THEN "oos"
  ELSE IF sig = <<>> THEN "f" \o Sign(t) \o "0e0"
  ELSE LET sc == (IF Sign(p.x) = "-" THEN -ToInt(xs) ELSE ToInt(xs)) - Len(p.f)
           mant == Strip0(ds)
           sc2 == sc + Len(mant) - Len(sig) IN
       IF Len(mant) > 15 \/ sc > 22 \/ sc < -22 THEN "oos"
       ELSE "f" \o Sign(t) \o Digits(sig) \o "e" \o ToString(sc2)

(* A run of name characters. Some runs have no single meaning: those that start like a number and go on like a name, where
   a number can end (1.5abc), numbers too large, and the empty name. *)
StartsFloat(t) == \E n \in 1..(Len(t) - 1) : IsFloat(SubSeq(t, 1, n))
Classify(t) ==
  IF t = <<116, 114, 117, 101>> THEN "bt"
  ELSE IF t = <<102, 97, 108, 115, 101>> THEN "bf"
  ELSE IF IsInt(t) THEN IntOf(t)
  ELSE IF IsFloat(t) THEN FloatOf(t)
  ELSE IF t[1] = Hash THEN IF Len(t) = 1 THEN "y%23" ELSE "y" \o Bytes(Tail(t))
  ELSE IF (IsDigit(t[1]) \/ t[1] \in {Minus, Dot}) /\ StartsFloat(t) THEN "oos"
  ELSE "y" \o Bytes(t)

-------------------------------------------------------------------------------
Initial == [m |-> "gap", cur |-> <<>>, st |-> <<>>, res |-> ""]
Rej(s) == [s EXCEPT !.m = "rej", !.cur = <<>>, !.st = <<>>]
Oos(s) == [s EXCEPT !.m = "oos", !.cur = <<>>, !.st = <<>>]

(* A datum is complete: it is the form, or the next element of the innermost open list. *)
Datum(s, d) ==
  IF d = "oos" THEN Oos(s)
  ELSE IF s.st = <<>> THEN [s EXCEPT !.m = "done", !.cur = <<>>, !.res = d]
  ELSE [s EXCEPT !.m = "gap", !.cur = <<>>, !.st[Len(s.st)] = Append(@, d)]

Open(s) == IF Len(s.st) >= MaxDepth THEN Oos(s) ELSE [s EXCEPT !.m = "gap", !.cur = <<>>, !.st = Append(@, <<>>)]
ListOf(ds) == IF ds = <<>> THEN "n"
              ELSE "(" \o FoldLeft(LAMBDA a, x : a \o " " \o x, ds[1], Tail(ds)) \o ")"
Close(s) == IF s.st = <<>> THEN Rej(s)
            ELSE Datum([s EXCEPT !.st = Front(@)], ListOf(Last(s.st)))

GapStep(s, b) ==
  IF b \in Ws THEN s
  ELSE IF b = Semi THEN [s EXCEPT !.m = "com"]
  ELSE IF b = LParen THEN Open(s)
  ELSE IF b = RParen THEN Close(s)
  ELSE IF b = Quote THEN [s EXCEPT !.m = "str", !.cur = <<>>]
  ELSE [s EXCEPT !.m = "tok", !.cur = <<b>>]

Step(s, b) ==
  CASE s.m \in {"done", "rej", "oos"} -> s
    [] s.m = "gap" -> GapStep(s, b)
    [] s.m = "com" -> IF b \in {10, 13} THEN [s EXCEPT !.m = "gap"] ELSE s
    [] s.m = "tok" -> IF IsName(b) THEN [s EXCEPT !.cur = Append(@, b)]
                      ELSE IF s.cur = <<Hash>> /\ b = LParen THEN Open(s)
                      ELSE LET t == Datum(s, Classify(s.cur)) IN
                           IF t.m = "gap" THEN GapStep(t, b) ELSE t
    [] s.m = "str" -> IF b = Quote THEN Datum(s, "s'" \o Bytes(s.cur) \o "'")
                      ELSE IF b = Back THEN [s EXCEPT !.m = "esc"]
                      ELSE [s EXCEPT !.cur = Append(@, b)]
    [] s.m = "esc" -> [s EXCEPT !.m = "str", !.cur = Append(@, IF b = 110 THEN 10 ELSE b)]

(* The text ends here. *)
Finish(s) ==
  IF s.m \in {"done", "rej", "oos"} THEN s
  ELSE IF s.m = "tok" THEN LET t == Datum(s, Classify(s.cur)) IN IF t.m = "gap" THEN Rej(t) ELSE t
  ELSE Rej(s)

Read(bs) == LET s == Finish(FoldLeft(Step, Initial, bs)) IN
            IF s.m = "done" THEN s.res ELSE s.m

(* The value of the program (quote <text>): the datum, if the text is exactly one.  Layout and comments around it change
   nothing. "closed": the text itself closed the list, and what the program is then depends on the text. *)
QuoteOpen == <<LParen, 113, 117, 111, 116, 101, 32>>
ReadQuoted(bs) ==
  LET s == FoldLeft(Step, Initial, QuoteOpen \o bs \o <<10>>) IN
  IF s.m = "oos" THEN "oos"
  ELSE IF s.m = "done" THEN "closed"
  ELSE IF s.m = "gap" /\ Len(s.st) = 1 /\ Len(s.st[1]) = 2 THEN s.st[1][2]
  ELSE "rej"
===============================================================================

------------------------------ MODULE DuckReadGen -----------------------------
(* The other direction: data written down token by token, with every layout between the tokens.  The text is what a writer
   who knows the notation would produce; the reader's transition system must read the data back (WroteWhatIsRead), which
   says that the notation is unambiguous and that layout and comments mean nothing.  Complete texts are printed, to be read
   by the real reader as well. *)
EXTENDS DuckRead, Json, IOUtils
Depth == IOEnv.DUCK_DEPTH
Limit == CHOOSE n \in 1..9 : ToString(n) = Depth
LayoutsUsed == CHOOSE n \in 1..6 : ToString(n) = IOEnv.DUCK_LAYOUTS

(* token text and the datum it denotes, by hand *)
Atoms == << [b |-> <<97>>, d |-> "ya"],
            [b |-> <<45>>, d |-> "y-"],
            [b |-> <<48>>, d |-> "i0"],
            [b |-> <<45, 55>>, d |-> "i-7"],
            [b |-> <<46, 53>>, d |-> "f5e-1"],
            [b |-> <<49, 46>>, d |-> "f1e0"],
            [b |-> <<48, 120, 97>>, d |-> "i10"],
            [b |-> <<116, 114, 117, 101>>, d |-> "bt"],
            [b |-> <<34, 41, 59, 32, 92, 34, 34>>, d |-> "s'%29%3b%20%22'"],
            [b |-> <<34, 34>>, d |-> "s''"],
            [b |-> <<46>>, d |-> "y%2e"] >>
Layouts == SubSeq(<< <<>>, <<59, 40, 34, 10>>, <<32>>, <<9, 10>>, <<59, 59, 13>>, <<0, 32>> >>, 1, LayoutsUsed)

VARIABLES txt, val, num, whole
vars == <<txt, val, num, whole>>
Init == txt = <<>> /\ val = <<>> /\ num = 0 /\ whole = ""

\* two names need something between them
Glued(b, lay) == lay = <<>> /\ txt # <<>> /\ IsName(Last(txt)) /\ IsName(b[1])
Put(d) == IF val = <<>> THEN whole' = d /\ val' = val
          ELSE whole' = whole /\ val' = [val EXCEPT ![Len(val)] = Append(@, d)]
More == whole = "" /\ num < Limit
Write(b, lay) == txt' = txt \o lay \o b /\ num' = num + 1
Atom == \E k \in DOMAIN Atoms, l \in DOMAIN Layouts :
          More /\ ~Glued(Atoms[k].b, Layouts[l]) /\ Write(Atoms[k].b, Layouts[l]) /\ Put(Atoms[k].d)
OpenList == \E l \in DOMAIN Layouts : More /\ num + Len(val) + 2 <= Limit /\ Write(<<LParen>>, Layouts[l]) /\ val' = Append(val, <<>>) /\ whole' = whole
CloseList == \E l \in DOMAIN Layouts :
          More /\ val # <<>> /\ Write(<<RParen>>, Layouts[l])
          /\ LET d == ListOf(Last(val)) IN
             IF Len(val) = 1 THEN whole' = d /\ val' = <<>>
             ELSE whole' = whole /\ val' = [Front(val) EXCEPT ![Len(val) - 1] = Append(@, d)]
Say == whole # "" /\ num < 99 /\ PrintT("@@T " \o ToJson(txt)) /\ num' = 99 /\ UNCHANGED <<txt, val, whole>>
Next == Atom \/ OpenList \/ CloseList \/ Say
Spec == Init /\ [][Next]_vars

WroteWhatIsRead == whole # "" => Read(txt) = whole
Behind == whole # "" => \A l \in DOMAIN Layouts : Read(txt \o <<32>> \o Layouts[l]) = whole /\ ReadQuoted(Layouts[l] \o txt \o Layouts[l]) = whole
Unfinished == whole = "" => Read(txt) = "rej"
===============================================================================

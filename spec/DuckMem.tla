-------------------------------- MODULE DuckMem --------------------------------
(***************************************************************************)
(* The built-in allocator (DuckLib/memory.c).                              *)
(*                                                                         *)
(* State: the arena size, the blocks handed out (id, offset, size) and the *)
(* place of the allocator's own table (offset, entries), which lives in    *)
(* the same arena and may grow and move.  An outcome is judged against     *)
(* these; free lists, merging, splitting and fit strategies are absent.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Align == 8
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* Space a request of n bytes may occupy. *)
Slot(n) == n + Align - (n % Align)

Ends(s) == {[o |-> b.o, e |-> b.o + b.n] : b \in s.live} \cup {[o |-> s.tab, e |-> s.tab + s.len * s.entry]}

(* Nothing overlaps and nothing leaves the arena. *)
Disjoint(s) ==
  /\ \A b \in s.live : b.o >= 0 /\ b.o + b.n <= s.size /\ b.o % Align = 0
  /\ s.tab >= 0 /\ s.tab + s.len * s.entry <= s.size
  /\ \A b, c \in s.live : b.id # c.id => b.o + b.n <= c.o \/ c.o + c.n <= b.o
  /\ \A b \in s.live : b.o + b.n <= s.tab \/ s.tab + s.len * s.entry <= b.o

(* Free stretches: from the end of something (or 0) to the next start (or the end of the arena), less the rounding. *)
Gaps(s) ==
  LET E == Ends(s)
      starts == {0} \cup {Slot(x.e) : x \in E} IN
  {Min2(s.size, CHOOSE m \in {x.o : x \in E} \cup {s.size} :
        m >= p /\ \A q \in {x.o : x \in E} \cup {s.size} : q >= p => m <= q) - p
     : p \in {p \in starts : p <= s.size /\ \A x \in E : ~(x.o <= p /\ p < x.e)}}

(* Enough room for the request and for a larger table, in one stretch: the request cannot fail. *)
Roomy(s, n) == \E g \in Gaps(s) : g >= Slot(n) + (s.len + 4) * s.entry + 2 * Align

Block(s, id) == CHOOSE b \in s.live : b.id = id
Has(s, id) == \E b \in s.live : b.id = id
Others(s, id) == {b \in s.live : b.id # id}

(* t is the state observed after operation o in state s, err the reported result, ok whether contents that had to be kept
   were (per block, and for a resized block its common prefix). *)
MemAllowed(s, o, err, ok, t) ==
  /\ t.size = s.size /\ t.entry = s.entry
  /\ ok
  /\ Disjoint(t)
  /\ CASE o.o = "malloc" ->
            IF err = "ok" THEN /\ o.n > 0
                               /\ Has(t, o.id) /\ Others(t, o.id) = s.live /\ Block(t, o.id).n = o.n
            ELSE /\ t.live = s.live
                 /\ IF o.n = 0 THEN err = "invalid" ELSE err = "oom" /\ ~Roomy(s, o.n)
       [] o.o = "realloc" ->
            IF err = "ok" THEN /\ o.n > 0
                               /\ Has(t, o.id) /\ Others(t, o.id) = Others(s, o.id) /\ Block(t, o.id).n = o.n
            ELSE /\ t.live = s.live
                 /\ IF o.n = 0 THEN err = "invalid"
                    ELSE err = "oom" /\ ~Roomy(s, o.n)
       [] o.o = "free" ->
            IF Has(s, o.id) THEN err = "ok" /\ t.live = Others(s, o.id)
            ELSE err = "null" /\ t.live = s.live
       [] o.o = "freebad" -> err \in {"null", "dangling"} /\ t.live = s.live

MemOps(s, i) ==
  {[o |-> "malloc", id |-> i, n |-> n] : n \in {1, 24, 100}} \cup
  {[o |-> "realloc", id |-> b, n |-> n] : b \in 1..(i - 1), n \in {1, 40, 130}} \cup
  {[o |-> "free", id |-> b, n |-> 0] : b \in 1..(i - 1)}
================================================================================

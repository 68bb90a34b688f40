---------------------------- MODULE HistoryTrace ----------------------------
(* The answers recorded along a history of queries: each is the answer which a
   session that computed nothing before gives to that query.  Answers are
   given as sequences of (numbered) entries without significant order.  A
   request for remembered results may be answered by nothing instead. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

Hist == JsonDeserialize(IOEnv.data)   \* << [name, steps |-> << [k, asks, some, v, f] >>] >>
Set(s) == {s[i] : i \in 1..Len(s)}
Same(v, f) == Len(v) = Len(f) /\ Set(v) = Set(f)

VARIABLES h, n
vars == <<h, n>>
Init == h \in 1..Len(Hist) /\ n = 0
Transparent(s) == IF s.asks /\ ~s.some THEN TRUE ELSE Same(s.v, s.f)
Next == /\ n < Len(Hist[h].steps)
        /\ Assert(Transparent(Hist[h].steps[n + 1]), <<"answer depends on the history", Hist[h].name, n + 1, Hist[h].steps[n + 1]>>)
        /\ n' = n + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
=============================================================================

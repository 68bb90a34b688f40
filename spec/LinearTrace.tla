----------------------------- MODULE LinearTrace -----------------------------
(* Recorded histories of operations on formal sums are behaviours of Linear.
   Every step shows some registers (o, in iteration order) and may show one
   of them in reversed order (v).  The order is increasing in the key for
   dir=1, decreasing for dir=-1; for dir=0 it is increasing in the height, and
   it must be one total order for all sums of the history.                   *)
EXTENDS Linear, IOUtils, Json
Data == JsonDeserialize(IOEnv.data)
ASSUME Laws
Tab(x) == [k \in DOMAIN x |-> OfTerms(x[k])]
Tables == [h \in 1..Len(Data) |-> [ex |-> Tab(Data[h].ex), img |-> Tab(Data[h].img), sc |-> [j \in DOMAIN Data[h].sc |-> Tab(Data[h].sc[j])], ht |-> Data[h].ht]]
VARIABLES h, n, w, before
vars == <<h, n, w, before>>
Init == h \in 1..Len(Data) /\ n = 0 /\ w = [k \in 1..Data[h].regs |-> Nil] /\ before = {}
Ordered(D, s) == \A i \in 1..(Len(s) - 1) : CASE D.dir = 1 -> s[i][1] < s[i + 1][1] [] D.dir = -1 -> s[i][1] > s[i + 1][1] [] OTHER -> D.ht[s[i][1]] <= D.ht[s[i + 1][1]]
Pairs(s) == {<<s[i][1], s[j][1]>> : i \in 1..Len(s), j \in 1..Len(s)} \cap {<<s[p[1]][1], s[p[2]][1]>> : p \in {q \in (1..Len(s)) \X (1..Len(s)) : q[1] < q[2]}}
Next == /\ n < Len(Data[h].steps)
        /\ LET D == Data[h]
               e == D.steps[n + 1]
               r == After(Tables[h], w, e)
               new == IF D.dir = 0 THEN before \cup UNION {Pairs(e.o[j][2]) : j \in 1..Len(e.o)} ELSE {}
           IN /\ Assert(r.res = e.r, <<"result", D.kind, h, n + 1, e.op, e.a, e.r, "expected", r.res>>)
              /\ \A j \in 1..Len(e.o) : Assert(Shows(e.o[j][2], r.w[e.o[j][1]]) /\ Ordered(D, e.o[j][2]), <<"sum", D.kind, h, n + 1, e, "expected", e.o[j][1], r.w[e.o[j][1]]>>)
              /\ e.op \in {"first", "last"} /\ e.r # <<-1>> =>
                   Assert(\E j \in 1..Len(e.o) : LET o == e.o[j][2] IN e.o[j][1] = e.a[1] /\ e.r = o[IF e.op = "first" THEN 1 ELSE Len(o)], <<"end term", D.kind, h, n + 1, e>>)
              /\ Assert(e.v = <<>> \/ \E j \in 1..Len(e.o) : e.o[j][1] = e.v[1] /\ e.v[2] = Reverse(e.o[j][2]), <<"reversed", D.kind, h, n + 1, e>>)
              /\ Assert(\A p \in new : <<p[2], p[1]>> \notin new, <<"order", D.kind, h, n + 1, e>>)
              /\ w' = r.w /\ before' = new
        /\ n' = n + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
=============================================================================

----------------------------- MODULE PolysTrace -----------------------------
(* Recorded histories of polynomial operations are behaviours of Polys.     *)
EXTENDS Polys, IOUtils, Json

Data == JsonDeserialize(IOEnv.data)    \* << [kind, par, steps |-> << [op, a, r] >>] >>
ASSUME Laws
VARIABLES h, n, st
vars == <<h, n, st>>
Init == h \in 1..Len(Data) /\ n = 0 /\ st = [p |-> <<<<>>, <<>>, <<>>>>, t |-> <<>>]
Next == /\ n < Len(Data[h].steps)
        /\ LET D == Data[h] e == D.steps[n + 1] w == After(D.par, st, e) IN
           /\ Assert(w.res = e.r, <<"operation", D.kind, h, n + 1, e, "expected", w.res, "state", st>>)
           /\ e.op = "print" => Assert(e.s = Text(st.p[e.a[1] + 1]), <<"text", h, n + 1, e, "expected", Text(st.p[e.a[1] + 1])>>)
           /\ e.op = "match" => Assert(e.r[1] \in {Len(st.t), Index(st.t, st.p[e.a[1] + 1]) + 1}, <<"table", h, n + 1, e, st>>)
           \* (a find enters nothing, a match enters the polynomial if it is new)
           /\ st' = IF e.op = "match" /\ e.r[1] > Len(st.t) THEN [w.st EXCEPT !.t = Append(st.t, st.p[e.a[1] + 1])] ELSE w.st
        /\ n' = n + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
=============================================================================

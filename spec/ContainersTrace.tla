--------------------------- MODULE ContainersTrace ---------------------------
(* Recorded histories of container operations are behaviours of Containers. *)
EXTENDS Containers, IOUtils, Json

Data == JsonDeserialize(IOEnv.data)    \* << [kind, par, steps |-> << [op, a, r] >>] >>
VARIABLES h, n, st
vars == <<h, n, st>>
Init == h \in 1..Len(Data) /\ n = 0 /\ st = Start(Data[h].kind)
Loose(D, e) == D.kind = "pr" \/ (D.kind = "bm" /\ e.op = "front")
OK(D, e) == IF D.kind = "pr" THEN PreorderOK(e.op, e.a, e.r) ELSE BMFrontOK(st[e.a[1] + 1], e.a, e.r)
Next == /\ n < Len(Data[h].steps)
        /\ LET D == Data[h] e == D.steps[n + 1] IN
           IF Loose(D, e) THEN Assert(OK(D, e), <<"operation", D.kind, h, n + 1, e, "state", st>>) /\ UNCHANGED st
           ELSE LET w == After(D.kind, D.par, st, e.op, e.a) IN
                /\ Assert(w.res = e.r, <<"operation", D.kind, h, n + 1, e, "expected", w.res, "state", st>>)
                /\ st' = w.st
        /\ n' = n + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
=============================================================================

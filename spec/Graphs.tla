------------------------------- MODULE Graphs -------------------------------
(* Strong components of finite directed graphs (successor lists, 0-based).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.data)
VARIABLES d, x, seen
D == Data[d]
N == Len(D.g)
Succ(a) == {D.g[a][i]+1 : i \in 1..Len(D.g[a])}
\* exploration: the set reached from a chosen start vertex grows one vertex at a time
Init == d \in 1..Len(Data) /\ x = 0 /\ seen = {}
Start == x = 0 /\ x' \in 1..N /\ seen' = {x'} /\ d' = d
Frontier == (UNION {Succ(a) : a \in seen}) \ seen
Grow == x # 0 /\ Frontier # {} /\ seen' = seen \cup Frontier /\ UNCHANGED <<d,x>>
Spec == Init /\ [][Start \/ Grow]_<<d,x,seen>>
Set1(q) == {q[i]+1 : i \in 1..Len(q)}
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {Succ(a) : a \in S} IN IF T = S THEN S ELSE Reach(T)
Comp(a) == CHOOSE c \in 1..Len(D.comps) : a \in Set1(D.comps[c])
Increasing(q) == \A i \in 1..(Len(q)-1) : q[i] < q[i+1]
Agree ==
  /\ x # 0 /\ Frontier = {} =>
       /\ Assert(\E c \in 1..Len(D.comps) : x \in Set1(D.comps[c]),<<"vertex missing",D,x-1>>)
       /\ Assert(Set1(D.comps[Comp(x)]) = {a \in seen : x \in Reach({a})},<<"component",D,x-1>>)
  /\ x = 0 =>
       /\ Assert(\A c \in 1..Len(D.comps) : Increasing(D.comps[c]) /\ D.comps[c] # <<>>,<<"order in component",D>>)
       /\ Assert(\A c,e \in 1..Len(D.comps) : c # e => Set1(D.comps[c]) \cap Set1(D.comps[e]) = {},<<"components overlap",D>>)
       /\ Assert(Len(D.induced) = Len(D.comps),<<"induced size",D>>)
       \* the induced graph has exactly the arrows between components, to earlier ones
       /\ Assert(\A c \in 1..Len(D.comps) :
             /\ Set1(D.induced[c]) = {Comp(b) : b \in UNION {Succ(a) : a \in Set1(D.comps[c])}} \ {c}
             /\ Cardinality(Set1(D.induced[c])) = Len(D.induced[c])
             /\ (\A e \in Set1(D.induced[c]) : e < c),<<"induced graph",D>>)
=============================================================================

------------------------------- MODULE Block -------------------------------
(* A block is the fibre product of the orbit graphs of a real form and of a
   dual real form: pairs (x,y) with opposite involutions.  Explored through
   cross actions and Cayley transforms of pairs, in parallel with the tables
   of the implementation's block; and its dual block is the same set with x
   and y exchanged.                                                         *)
EXTENDS Lin, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.data)
VARIABLES d, phase, x, y, z
vars == <<d,phase,x,y,z>>
D == Data[d]
r == D.rank
ss == D.ss
X(k) == D.kgb[k]          \* real form, elements 1..
Y(k) == D.dkgb[k]         \* dual real form
B == Len(D.block)
E(k) == D.block[k]        \* recorded element: x,y, status, cross, cayley, icayley (all 0 based)

Opposite(a,b) == Y(b).inv = [j \in 1..r |-> [i \in 1..r |-> -X(a).inv[i][j]]]
Fibre == {<<a,b>> \in (1..Len(D.kgb)) \X (1..Len(D.dkgb)) : Opposite(a,b)}

InvCay(K,b,s) == IF K[b].status[s] = 2 THEN LET f == K[b].cayley[s]+1 IN {f,K[f].cross[s]+1} ELSE {}
\* descent status of the pair: 0 C-,1 ic,2 r1,3 r2,4 C+,5 rn,6 i1,7 i2
StatusOf(a,b,s) ==
  LET t == X(a).status[s]  u == Y(b).status[s] IN
  CASE t = 0 -> 0 [] t = 4 -> 4 [] t = 1 -> 1
    [] t = 3 -> IF X(a).cross[s]+1 = a THEN 7 ELSE 6
    [] t = 2 -> IF u = 1 THEN 5 ELSE IF Y(b).cross[s]+1 = b THEN 2 ELSE 3
\* the dual types agree
DualTypes(a,b,s) ==
  LET t == X(a).status[s]  u == Y(b).status[s] IN
  CASE t = 0 -> u = 4 [] t = 4 -> u = 0 [] t \in {1,3} -> u = 2 [] t = 2 -> u \in {1,3}
CrossP(a,b,s) == <<X(a).cross[s]+1,Y(b).cross[s]+1>>
CayleyP(a,b,s) == IF StatusOf(a,b,s) \in {6,7} THEN {<<X(a).cayley[s]+1,q>> : q \in InvCay(D.dkgb,b,s)} ELSE {}
ICayleyP(a,b,s) == IF StatusOf(a,b,s) \in {2,3} THEN {<<q,Y(b).cayley[s]+1>> : q \in InvCay(D.kgb,a,s)} ELSE {}

At(k) == <<E(k).x+1,E(k).y+1>>
Init == d \in 1..Len(Data) /\ phase = "start" /\ x = 0 /\ y = 0 /\ z = 0
Begin == phase = "start" /\ phase' = "block" /\ d' = d /\ z' = 1 /\ x' = At(1)[1] /\ y' = At(1)[2]
\* the second value of a double-valued transform is the cross image of the first
Cross == \E s \in 1..ss : x' = CrossP(x,y,s)[1] /\ y' = CrossP(x,y,s)[2] /\ z' = E(z).cross[s]+1
Cayley == \E s \in 1..ss : StatusOf(x,y,s) \in {6,7} /\ z' = E(z).cayley[s]+1
             /\ \E p \in CayleyP(x,y,s) : /\ x' = p[1] /\ y' = p[2]
                                          /\ (z' \in 1..B => At(z') \in CayleyP(x,y,s))
                                          /\ (z' \in 1..B => p = At(z'))
ICayley == \E s \in 1..ss : StatusOf(x,y,s) \in {2,3} /\ z' = E(z).icayley[s]+1
             /\ \E p \in ICayleyP(x,y,s) : /\ x' = p[1] /\ y' = p[2]
                                           /\ (z' \in 1..B => p = At(z'))
Next == Begin \/ (phase = "block" /\ (Cross \/ Cayley \/ ICayley) /\ UNCHANGED <<d,phase>>)
Spec == Init /\ [][Next]_vars

DB(k) == D.dblock[k]
Swap == [k \in {0,1,2,3,4,5,6,7} |-> CASE k = 0 -> 4 [] k = 4 -> 0 [] k = 1 -> 5 [] k = 5 -> 1
            [] k = 2 -> 7 [] k = 7 -> 2 [] k = 3 -> 6 [] k = 6 -> 3]
DualIndex(k) == CHOOSE j \in 1..B : DB(j).x = E(k).y /\ DB(j).y = E(k).x
Agree == phase = "block" =>
  /\ z \in 1..B
  /\ Assert(At(z) = <<x,y>>,<<"element",D.name,z-1,x-1,y-1>>)
  /\ Assert(Opposite(x,y),<<"fibre",D.name,z-1>>)
  /\ Assert(\A s \in 1..ss : E(z).status[s] = StatusOf(x,y,s) /\ DualTypes(x,y,s),<<"status",D.name,z-1>>)
  /\ Assert(\A s \in 1..ss :
       CASE E(z).status[s] \in {6,7} -> /\ E(z).cayley[s]+1 \in 1..B /\ At(E(z).cayley[s]+1) \in CayleyP(x,y,s)
                                        /\ LET c == E(z).cayley[s]+1 IN
                                           {At(c),At(E(c).cross[s]+1)} = CayleyP(x,y,s)
                                        /\ E(z).icayley[s] = z-1
         [] E(z).status[s] \in {2,3} -> /\ E(z).icayley[s]+1 \in 1..B /\ At(E(z).icayley[s]+1) \in ICayleyP(x,y,s)
                                        /\ LET c == E(z).icayley[s]+1 IN
                                           {At(c),At(E(c).cross[s]+1)} = ICayleyP(x,y,s)
                                        /\ E(z).cayley[s] = z-1
         [] OTHER -> E(z).cayley[s] = z-1 /\ E(z).icayley[s] = z-1,<<"Cayley",D.name,z-1>>)
  /\ Assert(E(z).index = z-1,<<"index",D.name,z-1>>)
  \* dual block
  /\ Assert(\E j \in 1..B : DB(j).x = E(z).y /\ DB(j).y = E(z).x,<<"dual element",D.name,z-1>>)
  /\ Assert(LET j == DualIndex(z) IN
       \A s \in 1..ss : /\ DB(j).status[s] = Swap[E(z).status[s]]
                        /\ DB(j).cross[s]+1 = DualIndex(E(z).cross[s]+1)
                        /\ (E(z).status[s] \in {6,7} => LET c == DB(j).icayley[s]+1 IN
                              {c,DB(c).cross[s]+1} = {DualIndex(E(z).cayley[s]+1),DualIndex(E(E(z).cayley[s]+1).cross[s]+1)})
                        /\ (E(z).status[s] \in {2,3} => LET c == DB(j).cayley[s]+1 IN
                              {c,DB(c).cross[s]+1} = {DualIndex(E(z).icayley[s]+1),DualIndex(E(E(z).icayley[s]+1).cross[s]+1)}),
            <<"dual block",D.name,z-1>>)
\* elements are numbered by increasing length, and the sizes agree
Static == phase = "start" =>
  /\ Assert(B = Cardinality(Fibre) /\ D.size = B /\ Len(D.dblock) = B /\ D.size2 = B,<<"size",D.name,Cardinality(Fibre)>>)
  /\ Assert(\A k \in 1..(B-1) : X(E(k).x+1).length <= X(E(k+1).x+1).length,<<"order of lengths",D.name>>)
  /\ Assert(D.forms,<<"forms",D.name>>)
Complete == TLCGet("stats").distinct = SumSeq([i \in 1..Len(Data) |-> 1 + Len(Data[i].block)])
=============================================================================

-------------------------------- MODULE KGB --------------------------------
(* K\G/B as the set of strong involutions in a real form, up to conjugation
   by the torus.  Such an element is a pair (theta, tau): theta an involution
   (matrix on weights), tau a theta-fixed rational coweight (torus factor),
   taken modulo (1+theta)X_*.  Cross action and Cayley transform act on these
   pairs; the exploration starts at element 0 of the implementation's table
   and follows its tables in parallel.                                      *)
EXTENDS Lin, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.data)
VARIABLES d, phase, x, th, ta
vars == <<d,phase,x,th,ta>>

D == Data[d]
r == D.rank
ss == Len(D.sroots)
N == Len(D.posroots)
K == Len(D.kgb)                \* elements 1..K here, 0..K-1 in the implementation
Elt(y) == D.kgb[y]
SR(s) == D.sroots[s]
SC(s) == D.scoroots[s]

\* matrices act on weights from the left, on coweights from the right
ReflM(rt,crt) == [j \in 1..r |-> Refl(UnitV(r,j),rt,crt)]
\* rational coweight times matrix
RvM(q,M) == [n |-> VM(q.n,M), d |-> q.d]
RvDot(q,rt) == Dot(q.n,rt)          \* times q.d
RvIsInt(q,rt) == RvDot(q,rt) % q.d = 0
Fixed(q,M) == RvEq(RvM(q,M),q)
\* project to the fixed part
Proj(q,M) == RvNorm([n |-> AddV(q.n,VM(q.n,M)), d |-> 2*q.d])
RvRefl(q,rt,crt) == RvNorm([n |-> SubV(q.n,ScaleV(Dot(q.n,rt),crt)), d |-> q.d])
RvSubV(q,v) == [n |-> SubV(q.n,ScaleV(q.d,v)), d |-> q.d]
RvAddV(q,v) == [n |-> AddV(q.n,ScaleV(q.d,v)), d |-> q.d]

\* the lattice (1+theta)X_* modulo 2 X_*
Mod2(v) == [i \in 1..Len(v) |-> v[i] % 2]
RECURSIVE Span2(_)
Span2(vs) == IF vs = <<>> THEN {ZeroV(r)}
             ELSE LET S == Span2(Tail(vs)) IN S \cup {Mod2(AddV(v,vs[1])) : v \in S}
FixGens(M) == [i \in 1..r |-> VM(UnitV(r,i),[j \in 1..r |-> AddV(M[j],UnitV(r,j))])]
Trivial(M) == Span2([i \in 1..r |-> Mod2(FixGens(M)[i])])
Equiv(q,p,M) == LET e == RvNorm(RvSub(q,p)) IN e.d = 1 /\ VM(e.n,M) = e.n /\ Mod2(e.n) \in Trivial(M)

\* types of roots
Imag(M,rt) == MV(M,rt,r) = rt
Real(M,rt) == MV(M,rt,r) = NegV(rt)
PosRoot(rt) == Dot(rt,D.trc) > 0
ImagPos(M) == {i \in 1..N : Imag(M,D.posroots[i])}
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN ZeroV(r) ELSE LET i == CHOOSE i \in S : TRUE IN AddV(D.poscoroots[i],SumSet(S \ {i}))
\* tau + rho^vee_imaginary, on which the cross action of W is linear
Shifted(M,q) == RvAdd(q,[n |-> SumSet(ImagPos(M)), d |-> 2])
Even(q,rt) == RvDot(q,rt) % (2*q.d) = 0
\* status: 0 complex descent, 1 compact, 2 real, 3 noncompact, 4 complex ascent
Status(M,sh,rt) == IF Imag(M,rt) THEN (IF Even(sh,rt) THEN 1 ELSE 3)
                   ELSE IF Real(M,rt) THEN 2
                   ELSE IF PosRoot(MV(M,rt,r)) = PosRoot(rt) THEN 4 ELSE 0

\* ---- transitions
CrossM(M,rt,crt) == LET S == ReflM(rt,crt) IN MM(S,MM(M,S,r),r)
CrossQ(M,q,s) == IF Imag(M,SR(s)) THEN RvSubV(RvRefl(q,SR(s),SC(s)),SC(s)) ELSE RvRefl(q,SR(s),SC(s))
CayleyM(M,s) == MM(ReflM(SR(s),SC(s)),M,r)
CayleyQ(M,q,s) == Proj(q,CayleyM(M,s))

Init == d \in 1..Len(Data) /\ phase = "start" /\ x = 0 /\ th = <<>> /\ ta = [n |-> <<>>, d |-> 1]
Base == /\ phase = "start" /\ phase' = "kgb" /\ d' = d
        /\ x' = 1 /\ th' = D.delta /\ ta' = Elt(1).tf
Cross(s) == /\ x' = Elt(x).cross[s]+1
            /\ th' = CrossM(th,SR(s),SC(s))
            /\ x' \in 1..K => /\ Assert(Equiv(CrossQ(th,ta,s),Elt(x').tf,th'),<<"cross action",D.name,x-1,s-1,CrossQ(th,ta,s),x'-1>>)
                              /\ ta' = Elt(x').tf
Cayley(s) == /\ Status(th,Shifted(th,ta),SR(s)) = 3
             /\ x' = Elt(x).cayley[s]+1
             /\ th' = CayleyM(th,s)
             /\ x' \in 1..K => /\ Assert(Equiv(CayleyQ(th,ta,s),Elt(x').tf,th'),<<"Cayley",D.name,x-1,s-1,CayleyQ(th,ta,s),x'-1>>)
                               /\ ta' = Elt(x').tf
Step == phase = "kgb" /\ phase' = phase /\ d' = d /\ \E s \in 1..ss : Cross(s) \/ Cayley(s)
Order == phase = "start" /\ phase' = "order" /\ UNCHANGED <<d,x,th,ta>>
Next == Base \/ Step \/ Order
Spec == Init /\ [][Next]_vars

\* length of an involution: half the number of complex positive roots made
\* negative, plus the dimension of the split part, relative to delta
Lgth == LET c == Cardinality({k \in 1..N : LET b == MV(th,D.posroots[k],r) IN ~PosRoot(b) /\ b # NegV(D.posroots[k])})
            rl == Cardinality({k \in 1..N : Real(th,D.posroots[k])})
            tr == Dot([j \in 1..r |-> D.delta[j][j]],[j \in 1..r |-> 1]) - Dot([j \in 1..r |-> th[j][j]],[j \in 1..r |-> 1])
        IN (c + rl + (tr \div 2)) \div 2
\* Cayley transform through root k agrees with that through s k, conjugated
SNum(s,k) == D.refl[s][k]    \* number of the positive root among +- s(root k)
ConjCayley(k,u,v) == \A s \in 1..ss : (SNum(s,k) # k) =>
   LET u1 == Elt(u).cross[s]+1  v1 == Elt(v).cross[s]+1 IN Elt(u1).allcayley[SNum(s,k)]+1 = v1

\* ---- agreement of the implementation's attributes with the state
Agree == phase = "kgb" =>
  /\ x \in 1..K
  /\ LET e == Elt(x)  sh == Shifted(th,ta) IN
     /\ Assert(e.inv = th,<<"involution",D.name,x-1>>)
     /\ Assert(RvOk(e.tf) /\ Fixed(e.tf,th),<<"torus factor not fixed",D.name,x-1>>)
     /\ Assert(\A s \in 1..ss : e.status[s] = Status(th,sh,SR(s)),<<"status",D.name,x-1>>)
     /\ Assert(\A k \in 1..N : e.allstatus[k] = Status(th,sh,D.posroots[k]),<<"status of roots",D.name,x-1>>)
     \* torus bits: torus factor relative to the base grading vector
     /\ Assert(RvEq(Proj(RvSubV(D.base,e.bits),th),e.tf),<<"torus bits",D.name,x-1>>)
     /\ Assert(\A i \in 1..r : e.bits[i] \in {0,1},<<"bits",D.name,x-1>>)
     \* length increases by one along ascents
     /\ Assert(e.length = Lgth,<<"length",D.name,x-1>>)
     \* inverse Cayley transform
     /\ Assert(\A s \in 1..ss : LET y == e.cayley[s]+1 IN
          CASE e.status[s] = 2 -> y \in 1..K /\ Elt(y).status[s] = 3 /\ Elt(y).cayley[s] = x-1
            [] e.status[s] = 3 -> y # x
            [] OTHER -> y = x,<<"inverse Cayley",D.name,x-1>>)
     \* reflections in arbitrary roots, Cayley transforms through them
     /\ Assert(\A k \in 1..N : LET y == e.allcross[k]+1 IN
          /\ y \in 1..K
          /\ Elt(y).inv = CrossM(th,D.posroots[k],D.poscoroots[k])
          /\ Equiv(RvRefl(sh,D.posroots[k],D.poscoroots[k]),Shifted(Elt(y).inv,Elt(y).tf),Elt(y).inv),<<"cross by roots",D.name,x-1>>)
     /\ Assert(\A k \in 1..N : LET y == e.allcayley[k]+1 IN
          /\ y \in 1..K
          /\ IF e.allstatus[k] = 3 THEN /\ Elt(y).inv = MM(ReflM(D.posroots[k],D.poscoroots[k]),th,r)
                                        /\ ConjCayley(k,x,y)
             ELSE IF e.allstatus[k] = 2 THEN Elt(y).allcayley[k] = x-1 /\ Elt(y).allstatus[k] = 3
             ELSE y = x,<<"Cayley by roots",D.name,x-1>>)
     \* twist by the distinguished involution
     /\ Assert(LET y == e.twist+1  M == MM(D.delta,MM(th,D.delta,r),r) IN
                 y \in 1..K /\ Elt(y).inv = M /\ Equiv(RvM(ta,D.delta),Elt(y).tf,M),<<"twist",D.name,x-1>>)
     \* conversion from involution and torus factor, with other representatives
     /\ Assert(\A y \in Range(e.back) : y = x-1,<<"element from torus factor",D.name,x-1>>)
     /\ Assert(e.synth,<<"synthesised real form",D.name,x-1>>)
     /\ Assert(e.hash = x-1 /\ e.eq,<<"number of element",D.name,x-1>>)

\* ---- irredundance: elements over the same involution are inequivalent
Irredundant == \A y,z \in 1..K : (y < z /\ Elt(y).inv = Elt(z).inv) => ~Equiv(Elt(y).tf,Elt(z).tf,Elt(y).inv)

\* ---- partial order: ideals generated by the Hasse diagram are the closures
RECURSIVE Ideals(_)
Ideals(seq) == LET n == Len(seq)+1 IN
  IF n > K THEN seq
  ELSE Ideals(Append(seq,{n} \cup UNION {seq[z+1] : z \in Range(D.hasse[n])}))
Sat(s,z) == LET e == Elt(z) IN
   CASE e.status[s] \in {0,4} -> {z,e.cross[s]+1}
     [] e.status[s] = 1 -> {z}
     [] e.status[s] = 3 -> {z,e.cross[s]+1,e.cayley[s]+1}
     [] e.status[s] = 2 -> LET y == e.cayley[s]+1 IN {z,y,Elt(y).cross[s]+1}
Below(s,y) == IF Elt(y).status[s] = 0 THEN Elt(y).cross[s]+1 ELSE Elt(y).cayley[s]+1
OrderOK ==
  /\ \A y \in 1..K : \A z \in Range(D.hasse[y]) : z+1 < y /\ Elt(z+1).length = Elt(y).length-1
  /\ \A y \in 1..(K-1) : Elt(y).length <= Elt(y+1).length
  /\ LET I == Ideals(<<>>) IN \A y \in 1..K :
       IF Elt(y).length = 0 THEN I[y] = {y}
       ELSE /\ \E s \in 1..ss : Elt(y).status[s] \in {0,2}
            /\ \A s \in 1..ss : Elt(y).status[s] \in {0,2} =>
                  I[y] = UNION {Sat(s,z) : z \in I[Below(s,y)]}
Orders == phase = "order" => /\ Assert(OrderOK,<<"order",D.name>>)
                             /\ Assert(Irredundant,<<"redundant elements",D.name>>)
                             /\ Assert(\A s \in 1..ss : RvIsInt(D.base,SR(s)),<<"base grading vector",D.name>>)
Complete == TLCGet("stats").distinct = SumSeq([i \in 1..Len(Data) |-> 2 + Len(Data[i].kgb)])
=============================================================================

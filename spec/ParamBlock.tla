----------------------------- MODULE ParamBlock -----------------------------
(* Blocks of parameters at a rational infinitesimal character gamma.  A block
   element is a pair (x,kappa): x in K\G/B with involution theta, kappa =
   gamma - lambda a (-theta)-fixed rational weight modulo (1-theta)X^*.  The
   cross actions and Cayley transforms through the simple roots of the
   integral subsystem act on such pairs; the exploration follows the
   implementation's block in parallel.  Elements without singular descents
   are the final parameters.                                                *)
EXTENDS Lin, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.data)
Groups == JsonDeserialize(IOEnv.groups)
VARIABLES d, phase, z, x, kap, kn
vars == <<d,phase,z,x,kap,kn>>
View == <<d,phase,z,x,kn>>

D == Data[d]
G == Groups[D.group]
r == G.rank
ss == Len(G.sroots)
N == Len(G.posroots)
Elt(a) == G.kgb[a]
Th(a) == Elt(a).inv
Rt(k) == G.posroots[k]
Crt(k) == G.poscoroots[k]
PosRoot(rt) == Dot(rt,G.trc) > 0
B == Len(D.block)
T(b) == D.block[b]

RvDotN(q,c) == Dot(q.n,c)                   \* <q,c> times q.d
IntDot(q,c) == RvDotN(q,c) % q.d = 0
RvMulM(M,q) == [n |-> MV(M,q.n,r), d |-> q.d]
RvSubV(q,v) == [n |-> SubV(q.n,ScaleV(q.d,v)), d |-> q.d]
RvAddV(q,v) == [n |-> AddV(q.n,ScaleV(q.d,v)), d |-> q.d]
RvRefl(q,k) == RvNorm([n |-> SubV(q.n,ScaleV(Dot(q.n,Crt(k)),Rt(k))), d |-> q.d])

\* integral system
Integral == {k \in 1..N : IntDot(D.gamma,Crt(k))}
IntSimple == {k \in Integral : ~\E a,b \in Integral : AddV(Crt(a),Crt(b)) = Crt(k)}
I(s) == D.intsimple[s]                      \* positive root number of integral simple root s
ni == Len(D.intsimple)
Singular(s) == Dot(D.gamma.n,Crt(I(s))) = 0

\* types of roots for an involution
Img(M,k) == MV(M,Rt(k),r) = Rt(k)
Rel(M,k) == MV(M,Rt(k),r) = NegV(Rt(k))
\* tables of rho_real and of (1-theta)X^* modulo 2 for all elements of all groups
RECURSIVE SumOver(_,_,_)
SumOver(g,S,k) == IF k = 0 THEN ZeroV(g.rank) ELSE IF k \in S THEN AddV(g.posroots[k],SumOver(g,S,k-1)) ELSE SumOver(g,S,k-1)
RealRoots(g,M) == {k \in 1..Len(g.posroots) : MV(M,g.posroots[k],g.rank) = NegV(g.posroots[k])}
Mod2(v) == [i \in 1..Len(v) |-> v[i] % 2]
RECURSIVE Span2(_,_)
Span2(n,vs) == IF vs = <<>> THEN {ZeroV(n)}
             ELSE LET S == Span2(n,Tail(vs)) IN S \cup {Mod2(AddV(v,vs[1])) : v \in S}
RhoRealT == [i \in 1..Len(Groups) |-> LET g == Groups[i] IN
   [a \in 1..Len(g.kgb) |-> [n |-> SumOver(g,RealRoots(g,g.kgb[a].inv),Len(g.posroots)), d |-> 2]]]
TrivialT == [i \in 1..Len(Groups) |-> LET g == Groups[i] IN
   [a \in 1..Len(g.kgb) |-> Span2(g.rank,[j \in 1..g.rank |-> Mod2(SubV(UnitV(g.rank,j),g.kgb[a].inv[j]))])]]
Shifted(a,q) == RvAdd(q,RhoRealT[D.group][a])
Parity(a,q,k) == LET sh == Shifted(a,q) IN (RvDotN(sh,Crt(k)) \div sh.d) % 2 = 1

\* kappa modulo (1-theta)X^*
Trivial(a) == TrivialT[D.group][a]
Equiv(q,p,a) == LET e == RvNorm(RvSub(q,p)) IN e.d = 1 /\ MV(Th(a),e.n,r) = NegV(e.n) /\ Mod2(e.n) \in Trivial(a)
Canon(q,a) == LET p == RvNorm(q)
                  S == {[i \in 1..r |-> (p.n[i] + p.d*t[i]) % (2*p.d)] : t \in Trivial(a)}
              IN <<CHOOSE v \in S : TRUE, p.d>>

\* ---- transitions on pairs
SRn(s) == G.simple[s]                        \* number of simple root s as positive root
CrossX(k,a) == Elt(a).allcross[k]+1
CayleyX(k,a) == Elt(a).allcayley[k]+1
\* conjugation by reflection k: kappa + rho_real transforms linearly
ConjK(k,a,q) == RvNorm(RvSub(RvRefl(Shifted(a,q),k),RhoRealT[D.group][CrossX(k,a)]))
NumOf(v) == CHOOSE k \in 1..N : Rt(k) = v \/ Rt(k) = NegV(v)
Simple(k) == \E s \in 1..ss : SRn(s) = k
Lower(k) == CHOOSE s \in 1..ss : Dot(Rt(k),Crt(SRn(s))) > 0
\* Cayley transforms of (a,q) through an imaginary root, inverse ones through a
\* real root: set of values of kappa
RECURSIVE CayleyK(_,_,_)
CayleyK(k,a,q) ==
  IF Simple(k) THEN IF Img(Th(a),k) THEN {q,RvAddV(q,Rt(k))}
                    ELSE {RvNorm([n |-> SubV(ScaleV(2,q.n),ScaleV(Dot(q.n,Crt(k)),Rt(k))), d |-> 2*q.d])}
  ELSE LET s == SRn(Lower(k))
           k1 == NumOf(Refl(Rt(k),Rt(s),Crt(s)))
           a1 == CrossX(s,a)
       IN {ConjK(s,CayleyX(k1,a1),p) : p \in CayleyK(k1,a1,ConjK(s,a,q))}

\* descent status: 0 C-,1 ic,2 r1,3 r2,4 C+,5 rn,6 i1,7 i2
Status(a,q,s) == LET k == I(s)  M == Th(a) IN
  IF Img(M,k) THEN IF Elt(a).allstatus[k] = 1 THEN 1
                   ELSE IF Elt(a).allcross[k]+1 = a THEN 7 ELSE 6
  ELSE IF Rel(M,k) THEN IF Parity(a,q,k)
                        THEN (IF Equiv(ConjK(k,a,q),q,a) THEN 2 ELSE 3)
                        ELSE 5
  ELSE IF PosRoot(MV(M,Rt(k),r)) THEN 4 ELSE 0
\* pairs related to (a,q)
CrossP(a,q,s) == <<Elt(a).allcross[I(s)]+1,ConjK(I(s),a,q)>>
CayleyP(a,q,s) ==
  LET k == I(s)  b == Elt(a).allcayley[k]+1
      st == Status(a,q,s)
  IN IF st \in {6,7} THEN {<<b,p>> : p \in CayleyK(k,a,q)}
     ELSE IF st \in {2,3} THEN {<<c,p>> : c \in {b,Elt(b).allcross[k]+1}, p \in CayleyK(k,a,q)}
     ELSE {}
Is(b,p) == b \in 1..B /\ T(b).x+1 = p[1] /\ Equiv(T(b).kap,p[2],p[1])

Init == d \in 1..Len(Data) /\ phase = "start" /\ z = 0 /\ x = 0 /\ kap = [n |-> <<>>,d |-> 1] /\ kn = <<>>
Begin == /\ phase = "start" /\ phase' = "block" /\ d' = d
         /\ z' = D.start+1 /\ x' = D.p.x+1
         /\ kap' = RvSubV(RvSub(D.gamma,G.rho),D.p.lr)
         /\ kn' = Canon(kap',x')
Cross == \E s \in 1..ni : LET p == CrossP(x,kap,s) IN
   z' = T(z).cross[s]+1 /\ x' = p[1] /\ kap' = p[2] /\ kn' = Canon(p[2],p[1])
Cayley == \E s \in 1..ni : \E p \in CayleyP(x,kap,s) :
   /\ z' \in {T(z).links[s][1]+1,T(z).links[s][2]+1}
   /\ z' \in 1..B /\ Is(z',p)
   /\ x' = p[1] /\ kap' = p[2] /\ kn' = Canon(p[2],p[1])
Next == \/ Begin
        \/ phase = "block" /\ (Cross \/ Cayley) /\ UNCHANGED <<d,phase>>
        \/ phase = "start" /\ phase' = "order" /\ UNCHANGED <<d,z,x,kap,kn>>
Spec == Init /\ [][Next]_vars

Survives(b) == \A s \in 1..ni : Singular(s) => T(b).status[s] \in {4,5,6,7}
\* the recorded parameter q is element b at infinitesimal character gamma
ParamIs(q,b) == /\ q.x = T(b).x
                /\ Equiv(RvSubV(RvSub(D.gamma,G.rho),q.lr),T(b).kap,q.x+1)
                /\ RvEq(q.nu,D.gamma)          \* %p yields the infinitesimal character
                /\ RvOk(q.nu)

\* the list of parameters may number the elements differently (elements of
\* equal length): position of element b, and element at position i
Pos(b) == CHOOSE i \in 1..Len(D.params) : ParamIs(D.params[i],b)
Agree == phase = "block" =>
  /\ Assert(z \in 1..B,<<"no such element",D.name,z-1,x-1,kap>>)
  /\ Assert(Is(z,<<x,kap>>),<<"element",D.name,z-1,x-1,kap>>)
  /\ Assert(\A s \in 1..ni : T(z).status[s] = Status(x,kap,s),<<"status",D.name,z-1,[s \in 1..ni |-> Status(x,kap,s)]>>)
  \* links are exactly the Cayley transforms
  /\ Assert(\A s \in 1..ni : LET C == CayleyP(x,kap,s)  L == T(z).links[s] IN
        /\ \A p \in C : Is(L[1]+1,p) \/ Is(L[2]+1,p)
        /\ \A i \in 1..2 : L[i] = -1 \/ \E p \in C : Is(L[i]+1,p)
        /\ L[1] = -1 => L[2] = -1
        /\ L[1] # -1 => L[1] # L[2]
        /\ (T(z).status[s] \in {2,7}) = (L[2] # -1),<<"Cayley links",D.name,z-1>>)
  /\ Assert(\A s \in 1..ni :
        LET c == T(z).cross[s]+1 IN T(c).cross[s]+1 = z
        /\ T(c).length - T(z).length = (CASE T(z).status[s] = 4 -> 1 [] T(z).status[s] = 0 -> -1 [] OTHER -> 0)
        /\ \A i \in 1..2 : LET L == T(z).links[s][i]+1 IN
             L > 0 => T(L).length - T(z).length = (IF T(z).status[s] \in {6,7} THEN 1 ELSE -1),<<"length",D.name,z-1>>)
  /\ Assert(T(z).surv = Survives(z),<<"survives",D.name,z-1>>)
  \* the parameter of this element in the full list
  /\ Assert(Cardinality({i \in 1..Len(D.params) : ParamIs(D.params[i],z)}) = 1 /\ Len(D.params) = B,<<"parameter",D.name,z-1>>)
  \* operations on single parameters
  /\ Assert(\A s \in 1..Len(D.pcross[Pos(z)]) : ParamIs(D.pcross[Pos(z)][s],T(z).cross[s]+1),<<"cross of parameter",D.name,z-1>>)
  /\ Assert(\A s \in 1..Len(D.pcayley[Pos(z)]) : LET L == T(z).links[s] IN
        IF L[1] = -1 THEN ParamIs(D.pcayley[Pos(z)][s],z)
        ELSE ParamIs(D.pcayley[Pos(z)][s],L[1]+1) \/ (L[2] # -1 /\ ParamIs(D.pcayley[Pos(z)][s],L[2]+1)),<<"Cayley of parameter",D.name,z-1>>)
  /\ Assert(\A s \in 1..Len(D.vcross[Pos(z)]) : ParamIs(D.vcross[Pos(z)][s],T(z).cross[s]+1),<<"cross by root",D.name,z-1>>)
  /\ Assert(\A s \in 1..Len(D.vcayley[Pos(z)]) : LET L == T(z).links[s] IN
        IF L[1] = -1 THEN ParamIs(D.vcayley[Pos(z)][s],z)
        ELSE ParamIs(D.vcayley[Pos(z)][s],L[1]+1) \/ (L[2] # -1 /\ ParamIs(D.vcayley[Pos(z)][s],L[2]+1)),<<"Cayley by root",D.name,z-1>>)

\* ---- Bruhat order on list positions: ideals of the Hasse diagram, saturated
\* under strict good descents (complex, or real with two inverse Cayley transforms)
RECURSIVE Ideals(_)
Ideals(seq) == LET n == Len(seq)+1 IN
  IF n > B THEN seq
  ELSE Ideals(Append(seq,{n} \cup UNION {seq[b+1] : b \in Range(D.hasse[n])}))
Good(s,b) == T(b).status[s] \in {0,2}
Links(b,s) == {T(b).links[s][i]+1 : i \in {j \in 1..2 : T(b).links[s][j] # -1}}
Sat(s,b) == {b,T(b).cross[s]+1} \cup Links(b,s) \cup
            (IF T(b).status[s] = 2 THEN {T(c).cross[s]+1 : c \in Links(b,s)} ELSE {})
Below(s,b) == IF T(b).status[s] = 0 THEN {T(b).cross[s]+1} ELSE Links(b,s)
\* at: element at each list position, po: its inverse
OrderOK(II,at,po) ==
  /\ \A i \in 1..B : \A c \in Range(D.hasse[i]) : c+1 < i /\ T(at[c+1]).length = T(at[i]).length-1
  /\ \A i \in 1..(B-1) : T(at[i]).length <= T(at[i+1]).length
  /\ \A i \in 1..B : LET b == at[i] IN
       IF \A s \in 1..ni : ~Good(s,b)
       THEN II[i] = {i} \cup UNION {II[po[T(b).links[s][1]+1]] : s \in {u \in 1..ni : T(b).status[u] = 3}}
       ELSE \A s \in 1..ni : Good(s,b) =>
              LET S == {po[c] : c \in UNION {Sat(s,at[j]) : j \in UNION {II[po[e]] : e \in Below(s,b)}}}
              IN i \in S /\ (\A j \in S : j <= i) /\ II[i] = {i} \cup UNION {II[j] : j \in S \ {i}}
\* increasing sequence of the survivors in a set of positions
SurvSeq(S,at) == SelectSeq([i \in 1..B |-> i],LAMBDA i : i \in S /\ Survives(at[i]))
ListIs(L,S,at) == Len(L) = Len(S) /\ \A i \in 1..Len(L) : ParamIs(L[i],at[S[i]])
\* a partial block is formed below the normal form of the parameter: singular
\* complex descents are removed first
RECURSIVE NormalOf(_)
NormalOf(b) == LET S == {s \in 1..ni : Singular(s) /\ T(b).status[s] = 0} IN
  IF S = {} THEN {b} ELSE UNION {NormalOf(T(b).cross[s]+1) : s \in S}
\* the same in any order compatible with the lengths
ListIsSet(L,S,at) == /\ Len(L) = Len(S)
                     /\ \A i \in 1..Len(S) : \E j \in 1..Len(L) : ParamIs(L[j],at[S[i]]) /\ T(at[S[i]]).length = T(at[S[j]]).length
Orders == phase = "order" =>
  LET II == Ideals(<<>>)
      at == [i \in 1..B |-> CHOOSE b \in 1..B : ParamIs(D.params[i],b)]
      po == [b \in 1..B |-> CHOOSE i \in 1..B : at[i] = b]
  IN
  /\ Assert({D.intsimple[s] : s \in 1..ni} = IntSimple /\ IsInj(D.intsimple),<<"integral simple roots",D.name>>)
  /\ Assert(\A s \in 1..ss : Dot(D.gamma.n,Crt(SRn(s))) >= 0,<<"dominant",D.name>>)
  /\ Assert(\A b \in 1..B : T(b).length >= 0,<<"length",D.name>>)
  /\ Assert(\A i \in 1..B : \E b \in NormalOf(at[i]) : D.plen[i] = T(b).length,<<"length of parameter",D.name>>)
  /\ Assert(OrderOK(II,at,po),<<"order",D.name>>)
  /\ Assert(ListIs(D.final,SurvSeq(1..B,at),at),<<"final parameters",D.name>>)
  /\ Assert(IF Survives(D.start+1) THEN D.startpos \in 0..(Len(D.final)-1) /\ ParamIs(D.final[D.startpos+1],D.start+1)
            ELSE D.startpos = -1,<<"position",D.name>>)
  /\ Assert(\A t \in Range(D.partial) : \E b \in NormalOf(at[t.z+1]) : ListIsSet(t.list,SurvSeq(II[po[b]],at),at),<<"partial block",D.name>>)
Complete == TLCGet("stats").distinct = SumSeq([i \in 1..Len(Data) |-> 2 + Len(Data[i].block)])
=============================================================================

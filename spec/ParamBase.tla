----------------------------- MODULE ParamBase ------------------------------
(* Parameters of standard modules of a real form as triples (x,kappa,gamma):
   x in K\G/B with involution theta, gamma the infinitesimal character and
   kappa = gamma - lambda, a (-theta)-fixed rational weight that counts modulo
   (1-theta)X^*.  Simple reflections act on triples: complex and real ones
   give equivalent parameters; imaginary ones are cross actions in a coherent
   family.  Everything is relative to a recorded real form g (root datum and
   K\G/B tables, themselves checked by KGB.tla).                            *)
EXTENDS Lin, TLC, Json, IOUtils

Groups == JsonDeserialize(IOEnv.groups)

Kx(g,a) == g.kgb[a]
ThM(g,a) == g.kgb[a].inv
NrPosR(g) == Len(g.posroots)
PRt(g,k) == g.posroots[k]
PCo(g,k) == g.poscoroots[k]
IsPos(g,v) == Dot(v,g.trc) > 0
SN(g,s) == g.simple[s]                      \* simple root s as positive root
NSimple(g) == Len(g.sroots)
RvDotNum(q,c) == Dot(q.n,c)                 \* <q,c> times q.d
RvReflV(q,rt,co) == RvNorm([n |-> SubV(q.n,ScaleV(Dot(q.n,co),rt)), d |-> q.d])
RvMinusV(q,v) == [n |-> SubV(q.n,ScaleV(q.d,v)), d |-> q.d]
RvPlusV(q,v) == [n |-> AddV(q.n,ScaleV(q.d,v)), d |-> q.d]
RvMat(g,M,q) == RvNorm([n |-> MV(M,q.n,g.rank), d |-> q.d])

ImgRt(g,a,k) == MV(ThM(g,a),PRt(g,k),g.rank) = PRt(g,k)
RealRt(g,a,k) == MV(ThM(g,a),PRt(g,k),g.rank) = NegV(PRt(g,k))
ImgSetT == [i \in 1..Len(Groups) |-> LET g == Groups[i] IN [a \in 1..Len(g.kgb) |-> {k \in 1..NrPosR(g) : ImgRt(g,a,k)}]]
RealSetT == [i \in 1..Len(Groups) |-> LET g == Groups[i] IN [a \in 1..Len(g.kgb) |-> {k \in 1..NrPosR(g) : RealRt(g,a,k)}]]
SimpImgT == [i \in 1..Len(Groups) |-> LET g == Groups[i] IN [a \in 1..Len(g.kgb) |->
   LET S == ImgSetT[i][a] IN {k \in S : ~\E b,c \in S : AddV(PRt(g,b),PRt(g,c)) = PRt(g,k)}]]

RECURSIVE SumRoots(_,_,_)
SumRoots(g,S,k) == IF k = 0 THEN ZeroV(g.rank) ELSE IF k \in S THEN AddV(PRt(g,k),SumRoots(g,S,k-1)) ELSE SumRoots(g,S,k-1)
Mod2(v) == [i \in 1..Len(v) |-> v[i] % 2]
RECURSIVE Span2(_,_)
Span2(n,vs) == IF vs = <<>> THEN {ZeroV(n)}
             ELSE LET S == Span2(n,Tail(vs)) IN S \cup {Mod2(AddV(v,vs[1])) : v \in S}
RhoRealT == [i \in 1..Len(Groups) |-> LET g == Groups[i] IN
   [a \in 1..Len(g.kgb) |-> [n |-> SumRoots(g,RealSetT[i][a],NrPosR(g)), d |-> 2]]]
\* (1-theta)X^* as a subset of the (-theta)-fixed lattice vectors modulo 2
TrivialT == [i \in 1..Len(Groups) |-> LET g == Groups[i] IN
   [a \in 1..Len(g.kgb) |-> Span2(g.rank,[j \in 1..g.rank |-> Mod2(SubV(UnitV(g.rank,j),ThM(g,a)[j]))])]]

\* i: group number
EquivK(i,a,q,p) == LET g == Groups[i]  e == RvNorm(RvSub(q,p)) IN
   e.d = 1 /\ MV(ThM(g,a),e.n,g.rank) = NegV(e.n) /\ Mod2(e.n) \in TrivialT[i][a]
CanonK(i,a,q) == LET p == RvNorm(q)
                     S == {[j \in 1..Len(p.n) |-> (p.n[j] + p.d*t[j]) % (2*p.d)] : t \in TrivialT[i][a]}
                 IN <<CHOOSE v \in S : TRUE, p.d>>
Trip(a,q,c) == [x |-> a, k |-> RvNorm(q), g |-> RvNorm(c)]
SameT(i,t,u) == t.x = u.x /\ t.g = u.g /\ EquivK(i,t.x,t.k,u.k)
KeyT(i,t) == <<t.x,CanonK(i,t.x,t.k),t.g>>
\* the triple of a recorded parameter (x,lambda-rho,gamma)
OfParam(i,q) == LET g == Groups[i] IN Trip(q.x+1,RvMinusV(RvSub(q.nu,g.rho),q.lr),q.nu)
\* the constraint: (1+theta)gamma = (1+theta)lambda
LegalT(i,t) == LET g == Groups[i] IN RvMat(g,ThM(g,t.x),t.k) = RvNorm(RvNeg(t.k))

CrossOf(i,k,a) == Groups[i].kgb[a].allcross[k]+1
CayleyOf(i,k,a) == Groups[i].kgb[a].allcayley[k]+1
IsSimpleNr(i,k) == \E s \in 1..NSimple(Groups[i]) : SN(Groups[i],s) = k
LowerOf(i,k) == LET g == Groups[i] IN CHOOSE s \in 1..NSimple(g) : Dot(PRt(g,k),PCo(g,SN(g,s))) > 0
NrOf(i,v) == LET g == Groups[i] IN CHOOSE k \in 1..NrPosR(g) : PRt(g,k) = v \/ PRt(g,k) = NegV(v)
ShiftK(i,a,q) == RvAdd(q,RhoRealT[i][a])
\* kappa + rho_real transforms linearly
ConjK(i,k,a,q) == LET g == Groups[i] IN
   RvNorm(RvSub(RvReflV(ShiftK(i,a,q),PRt(g,k),PCo(g,k)),RhoRealT[i][CrossOf(i,k,a)]))
\* cross action (any status) on x and kappa together with the reflection of gamma
ReflT(i,s,t) == LET g == Groups[i]  k == SN(g,s) IN
   Trip(CrossOf(i,k,t.x),ConjK(i,k,t.x,t.k),RvReflV(t.g,PRt(g,k),PCo(g,k)))
ParityK(i,a,q,k) == LET sh == ShiftK(i,a,q) IN (RvDotNum(sh,PCo(Groups[i],k)) \div sh.d) % 2 = 1
ComplexS(i,s,a) == LET k == SN(Groups[i],s) IN k \notin ImgSetT[i][a] /\ k \notin RealSetT[i][a]
ComplexDescent(i,s,a) == LET g == Groups[i] IN ComplexS(i,s,a) /\ ~IsPos(g,MV(ThM(g,a),PRt(g,SN(g,s)),g.rank))
CompactS(i,s,a) == LET k == SN(Groups[i],s) IN k \in ImgSetT[i][a] /\ Groups[i].kgb[a].allstatus[k] = 1
EvalS(i,s,q) == Dot(q.n,PCo(Groups[i],SN(Groups[i],s)))
DominantG(i,q) == \A s \in 1..NSimple(Groups[i]) : EvalS(i,s,q) >= 0

\* Cayley transforms through a simple root: sets of triples (gamma unchanged)
CayleyUp(i,s,t) == LET k == SN(Groups[i],s)  b == CayleyOf(i,k,t.x)
                       rt == PRt(Groups[i],k)
                       u == Trip(b,t.k,t.g)  v == Trip(b,RvPlusV(t.k,rt),t.g)
                   IN IF SameT(i,u,v) THEN <<u>> ELSE <<u,v>>
CayleyDown(i,s,t) == LET g == Groups[i]  k == SN(g,s)  b == CayleyOf(i,k,t.x)  c == CrossOf(i,k,b)
                         co == PCo(g,k)
                         kk == [n |-> SubV(ScaleV(2,t.k.n),ScaleV(Dot(t.k.n,co),PRt(g,k))), d |-> 2*t.k.d]
                         u == Trip(b,kk,t.g)  v == Trip(c,kk,t.g)
                     IN IF b = c THEN <<u>> ELSE <<u,v>>

\* ---- equivalence: closure under complex simple reflections and those real
\* ones that move gamma.  (An element of W that preserves positivity of the
\* imaginary roots is a product of complex and real reflections: a reduced word
\* never meets an imaginary letter; real reflections that fix gamma only matter
\* for non-semifinal parameters and are not used.)
Steps(i,t,S) == {ReflT(i,s,t) : s \in {u \in S : LET k == SN(Groups[i],u) IN
   k \notin ImgSetT[i][t.x] /\ (k \in RealSetT[i][t.x] => EvalS(i,u,t.g) # 0)}}
RECURSIVE ClosureT(_,_,_,_)
ClosureT(i,S,seen,front) ==
  IF front = {} THEN seen
  ELSE LET nw == UNION {Steps(i,t,S) : t \in front}
           keys == {KeyT(i,t) : t \in nw} \ seen
           fr == {CHOOSE t \in nw : KeyT(i,t) = q : q \in keys}
       IN ClosureT(i,S,seen \cup keys,fr)
AllSimples(i) == 1..NSimple(Groups[i])
OrbitKeys(i,t) == ClosureT(i,AllSimples(i),{KeyT(i,t)},{t})
SingSimples(i,q) == {s \in AllSimples(i) : EvalS(i,s,q) = 0}
\* dominant gamma: the equivalents at the same gamma
LocalKeys(i,t) == ClosureT(i,SingSimples(i,t.g),{KeyT(i,t)},{t})

\* ---- predicates
Standard(i,t) == \A k \in SimpImgT[i][t.x] : Dot(t.g.n,PCo(Groups[i],k)) >= 0
ZeroT(i,t) == \E k \in SimpImgT[i][t.x] : Dot(t.g.n,PCo(Groups[i],k)) = 0 /\ Groups[i].kgb[t.x].allstatus[k] = 1
Semifinal(i,t) == \A k \in RealSetT[i][t.x] : Dot(t.g.n,PCo(Groups[i],k)) # 0 \/ ~ParityK(i,t.x,t.k,k)
NoDescents(i,t) == \A s \in SingSimples(i,t.g) : ~ComplexDescent(i,s,t.x)
FinalT(i,t) == DominantG(i,t.g) /\ NoDescents(i,t) /\ ~ZeroT(i,t) /\ Semifinal(i,t)
RECURSIVE DomW(_,_)
DomW(i,v) == LET g == Groups[i]  S == {s \in 1..NSimple(g) : Dot(v,PCo(g,SN(g,s))) < 0} IN
   IF S = {} THEN v ELSE LET k == SN(g,CHOOSE s \in S : TRUE) IN DomW(i,SubV(v,ScaleV(Dot(v,PCo(g,k)),PRt(g,k))))
\* height: <rho^v, dominant((1+theta)gamma)>
HeightT(i,t) == LET g == Groups[i]
                    w == AddV(t.g.n,MV(ThM(g,t.x),t.g.n,g.rank))
                IN (Dot(DomW(i,w),g.trc) \div 2) \div t.g.d
\* ---- expansion into final parameters: sequence of <<coefficient,triple>>
RECURSIVE Expand(_,_,_), ExpandL(_,_,_)
ExpandL(i,c,ts) == IF ts = <<>> THEN <<>> ELSE Expand(i,c,ts[1]) \o ExpandL(i,c,Tail(ts))
Expand(i,c,t) ==
  LET g == Groups[i]
      neg == {s \in AllSimples(i) : EvalS(i,s,t.g) < 0}
      sing == SingSimples(i,t.g)
      cpt == {s \in sing : CompactS(i,s,t.x)}
      cd == {s \in sing : ComplexDescent(i,s,t.x)}
      rp == {s \in sing : SN(g,s) \in RealSetT[i][t.x] /\ ParityK(i,t.x,t.k,SN(g,s))}
  IN IF neg # {}
     THEN LET s == CHOOSE u \in neg : TRUE  k == SN(g,s) IN
          IF k \notin ImgSetT[i][t.x] THEN Expand(i,c,ReflT(i,s,t))
          ELSE Expand(i,0-c,ReflT(i,s,t)) \o (IF CompactS(i,s,t.x) THEN <<>> ELSE ExpandL(i,c,CayleyUp(i,s,t)))
     ELSE IF cpt # {} THEN <<>>
     ELSE IF cd # {} THEN Expand(i,c,ReflT(i,CHOOSE u \in cd : TRUE,t))
     ELSE IF rp # {} THEN ExpandL(i,c,CayleyDown(i,CHOOSE u \in rp : TRUE,t))
     ELSE <<<<c,t>>>>
\* total coefficient of the terms equivalent to t (both dominant)
RECURSIVE CoefIn(_,_,_)
CoefIn(i,keys,E) == IF E = <<>> THEN 0 ELSE CoefIn(i,keys,Tail(E)) + (IF KeyT(i,E[1][2]) \in keys THEN E[1][1] ELSE 0)
\* recorded list L of terms [c,e(s part),p]: distinct final parameters with the
\* coefficients of E
ExpansionIs(i,L,E) ==
  LET T == [j \in 1..Len(L) |-> OfParam(i,L[j].p)]
      K == [j \in 1..Len(L) |-> LocalKeys(i,T[j])]
  IN /\ \A j \in 1..Len(L) : FinalT(i,T[j]) /\ LegalT(i,T[j]) /\ L[j].c # 0 /\ L[j].c = CoefIn(i,K[j],E)
     /\ \A j,k \in 1..Len(L) : j # k => KeyT(i,T[j]) \notin K[k]
     /\ \A e \in 1..Len(E) : LET kk == LocalKeys(i,E[e][2]) IN
          (\E j \in 1..Len(L) : KeyT(i,T[j]) \in kk) \/ CoefIn(i,kk,E) = 0
=============================================================================

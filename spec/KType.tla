------------------------------- MODULE KType --------------------------------
(* Representations of K: a pair (x,lambda) stands for the restriction to K of
   standard modules, that is for the parameter triple at nu=0.  The formula of
   a K-type is the alternating sum over the elements of K\G/B below x in the
   (split) Levi subgroup of the real roots at a theta-stable x of products over
   the nilradical of 1-X^alpha (one alpha for each complex pair and for each
   noncompact imaginary root); branching inverts these formulas.
   The state machine grows the set of elements below x one reflection at a
   time, then evaluates every recorded answer.                               *)
EXTENDS ParamBase

Data == JsonDeserialize(IOEnv.data)
VARIABLES d, stage, seen, front
vars == <<d,stage,seen,front>>
E == Data[d]
GI == E.gi
G == Groups[GI]

\* ---- combinations of triples

\* triple of (x,lambda-rho)
KTrip(i,x,lr) == LET g == Groups[i]
                     lam == RvPlusV(g.rho,lr)
                     th == RvMat(g,ThM(g,x),lam)
                     s == RvAdd(lam,th)
                     gam == [n |-> s.n, d |-> 2*s.d]
                 IN Trip(x,RvSub(gam,lam),gam)
OfK(e) == KTrip(GI,e.x+1,e.lr)
\* lambda-rho of a triple at nu=0
LrOf(i,t) == LET w == RvNorm(RvSub(RvSub(t.g,t.k),Groups[i].rho)) IN IF w.d = 1 THEN w.n ELSE Assert(FALSE,<<"lambda-rho is not integral",t>>)
AtNu0(i,t) == LET g == Groups[i]  th == RvMat(g,ThM(g,t.x),t.g)  s == RvAdd(t.g,th)  c == RvNorm([n |-> s.n, d |-> 2*s.d])
              IN Trip(t.x,RvAdd(t.k,RvSub(c,t.g)),c)

\* canonical key of the class of a dominant triple
CKey(i,t) == LET K == LocalKeys(i,t) IN CHOOSE k \in K : TRUE
\* sums of terms <<pair,triple>> (all final) as functions
ZeroP == <<0,0>>
AddP(a,b) == <<a[1]+b[1],a[2]+b[2]>>
MulP(a,b) == <<a[1]*b[1]+a[2]*b[2],a[1]*b[2]+a[2]*b[1]>>
RECURSIVE SumP(_,_)
SumP(f,n) == IF n = 0 THEN ZeroP ELSE AddP(SumP(f,n-1),f[n])
Combine(i,T0) == LET T == TLCEval(T0)
                    K == TLCEval([j \in 1..Len(T) |-> CKey(i,T[j][2])])
                    all == {K[j] : j \in 1..Len(T)}
                    f == TLCEval([k \in all |-> SumP([j \in 1..Len(T) |-> IF K[j] = k THEN T[j][1] ELSE ZeroP],Len(T))])
                IN TLCEval([k \in {k \in all : f[k] # ZeroP} |-> f[k]])
\* expansion of the restriction to K: the terms of an expansion have the same
\* infinitesimal character, but nu becomes irrelevant on restriction
RECURSIVE ExpandK(_,_,_), ExpandKL(_,_)
ExpandKL(i,L) == IF L = <<>> THEN <<>>
   ELSE LET u == L[1][2]  v == AtNu0(i,u) IN (IF v.g = u.g THEN <<L[1]>> ELSE ExpandK(i,L[1][1],v)) \o ExpandKL(i,Tail(L))
ExpandK(i,c,t) == ExpandKL(i,Expand(i,c,t))
RECURSIVE FlatN(_,_)
FlatN(q,n) == IF n = 0 THEN <<>> ELSE FlatN(q,n-1) \o q[n]
Flat(q) == LET r == TLCEval(q) IN TLCEval(FlatN(r,Len(r)))
TimesP(c,T0) == LET T == TLCEval(T0) IN TLCEval([j \in 1..Len(T) |-> <<MulP(c,<<T[j][1],0>>),T[j][2]>>])
TimesPP(c,T) == [j \in 1..Len(T) |-> <<MulP(c,T[j][1]),T[j][2]>>]
UpTo(i,T,h) == IF h < 0 THEN T ELSE SelectSeq(T,LAMBDA t : HeightT(i,t[2]) <= h)
\* recorded terms [e,s,x,lr]
Terms(R) == TLCEval([j \in 1..Len(R) |-> <<<<R[j].e,R[j].s>>,OfK(R[j])>>])
Clean(R) == LET T == Terms(R) IN
   /\ \A j \in 1..Len(T) : T[j][1] # ZeroP /\ FinalT(GI,T[j][2])
   /\ Cardinality({CKey(GI,T[j][2]) : j \in 1..Len(T)}) = Len(T)
   /\ \A j \in 2..Len(T) : HeightT(GI,T[j-1][2]) <= HeightT(GI,T[j][2])
Is(R,T) == Clean(R) /\ Combine(GI,Terms(R)) = Combine(GI,T)

\* ---- the elements below x in the Levi subgroup
LeviGens(i,x) == {s \in AllSimples(i) : SN(Groups[i],s) \in RealSetT[i][x]}
BelowSet(i,t,s) == LET g == Groups[i]  k == SN(g,s)  rt == PRt(g,k)  co == PCo(g,k)  lr == LrOf(i,t)
                       p == Dot(lr,co)
                   IN IF k \in RealSetT[i][t.x]
                      THEN LET nl == SubV(lr,ScaleV(p \div 2,rt))  b == CayleyOf(i,k,t.x) IN {KTrip(i,b,nl),KTrip(i,CrossOf(i,k,b),nl)}
                      ELSE IF ComplexS(i,s,t.x) THEN {KTrip(i,CrossOf(i,k,t.x),SubV(lr,ScaleV(p,rt)))}
                      ELSE {}
Len0(x) == G.kgb[x].length
Par(n) == IF n % 2 = 0 THEN 1 ELSE -1

\* ---- products over the nilradical
ThetaNr(i,x,k) == LET g == Groups[i]  v == MV(ThM(g,x),PRt(g,k),g.rank) IN CHOOSE m \in 1..NrPosR(g) : PRt(g,m) = v \/ PRt(g,m) = NegV(v)
\* x0: the theta-stable element; x below it
Factors(i,x0,x) == LET g == Groups[i]  N == (1..NrPosR(g)) \ RealSetT[i][x0] IN
   {k \in N : IF k \in ImgSetT[i][x] THEN g.kgb[x].allstatus[k] # 1
              ELSE Assert(k \notin RealSetT[i][x] /\ IsPos(g,MV(ThM(g,x),PRt(g,k),g.rank)),<<"nilradical",i,x,k>>) /\ k < ThetaNr(i,x,k)}
ShiftT(i,t,k) == LET g == Groups[i]  v == PRt(g,k)  w == MV(ThM(g,t.x),v,g.rank) IN
   Trip(t.x,RvAdd(t.k,[n |-> SubV(w,v), d |-> 2]),RvAdd(t.g,[n |-> AddV(v,w), d |-> 2]))
\* F: function from keys to [c,t]
TimesF(i,F,k) == LET S == TLCEval({<<KeyT(i,u),u>> : u \in {ShiftT(i,F[q].t,k) : q \in DOMAIN F}})
                     sk == TLCEval([q \in DOMAIN F |-> KeyT(i,ShiftT(i,F[q].t,k))])
                     keys == DOMAIN F \cup {p[1] : p \in S}
                     co == TLCEval([q \in keys |-> (IF q \in DOMAIN F THEN F[q].c ELSE 0) - (IF \E r \in DOMAIN F : sk[r] = q THEN F[CHOOSE r \in DOMAIN F : sk[r] = q].c ELSE 0)])
                 IN TLCEval([q \in {q \in keys : co[q] # 0} |-> [c |-> co[q], t |-> IF q \in DOMAIN F THEN F[q].t ELSE (CHOOSE p \in S : p[1] = q)[2]]])
RECURSIVE ProdF(_,_,_), SetSeq(_)
ProdF(i,F,S) == IF S = {} THEN F ELSE LET k == CHOOSE k \in S : TRUE IN ProdF(i,TimesF(i,F,k),S \ {k})
SetSeq(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : TRUE IN <<a>> \o SetSeq(S \ {a})
\* contribution of t (below x0) as terms
Contribution(i,x0,t) == LET F == TLCEval(ProdF(i,(KeyT(i,t) :> [c |-> Par(Len0(x0)-Len0(t.x)), t |-> t]),Factors(i,x0,t.x)))
                            Q == SetSeq(DOMAIN F)
                        IN Flat([j \in 1..Len(Q) |-> TimesP(<<1,0>>,ExpandK(i,F[Q[j]].c,F[Q[j]].t))])
FormulaTerms(i,x0,S) == LET Q == SetSeq(S) IN Flat([j \in 1..Len(Q) |-> Contribution(i,x0,Q[j])])

\* ---- recorded answers
InOrbit(i,u,t) == KeyT(i,u) \in OrbitKeys(i,t)
NoCxDescent(i,x) == \A s \in AllSimples(i) : ~ComplexDescent(i,s,x)
KtypeOK == LET t == OfK(E.t) IN
  /\ Assert(LegalT(GI,t) /\ t.x = E.t.x+1,<<"K-type triple",E>>)
  /\ Assert(E.standard = Standard(GI,t),<<"is_standard",E>>)
  /\ Assert(E.dominant = DominantG(GI,t.g),<<"is_dominant",E>>)
  /\ Assert(E.standard => E.zero = ZeroT(GI,t),<<"is_zero",E>>)
  /\ Assert(E.semifinal = Semifinal(GI,t),<<"is_semifinal",E>>)
  /\ Assert(E.final = FinalT(GI,t),<<"is_final",E>>)
  /\ Assert(E.height = HeightT(GI,t),<<"height",E>>)
  /\ Assert(SameT(GI,OfParam(GI,E.param),t),<<"param",E>>)
  /\ Assert(SameT(GI,OfK(E.back),t) /\ E.back = E.t,<<"K_type of param",E>>)
  /\ LET c == OfK(E.normal)  ts == OfK(E.stable)  cf == OfK(E.canfib) IN
     /\ Assert(InOrbit(GI,c,t),<<"normal",E>>)
     /\ Assert(\A s \in AllSimples(GI) : ComplexS(GI,s,c.x) => EvalS(GI,s,c.g) >= 0 /\ (EvalS(GI,s,c.g) = 0 => ~ComplexDescent(GI,s,c.x)),<<"normal",E>>)
     /\ Assert((E.standard /\ Semifinal(GI,t) /\ ~ZeroT(GI,t)) => FinalT(GI,c),<<"normal of a K-type with a final equivalent",E>>)
     /\ Assert(InOrbit(GI,ts,t) /\ NoCxDescent(GI,ts.x),<<"theta_stable",E>>)
     /\ Assert(InOrbit(GI,cf,t),<<"to_canonical_fiber",E>>)
  /\ IF E.standard THEN LET c == OfK(E.dom[1]) IN Assert(InOrbit(GI,c,t) /\ DominantG(GI,c.g),<<"dominant",E>>) ELSE Assert(E.dom = <<>>,<<"dominant of nonstandard",E>>)
  /\ Assert(Is(E.pol,TimesP(<<1,0>>,ExpandK(GI,1,t))),<<"expansion",E>>)
\* pairs: equality and equivalence
PairOK == LET t == OfK(E.t)  u == OfK(E.u) IN
  /\ Assert(E.eq = SameT(GI,t,u),<<"=",E>>)
  /\ Assert(E.eq = (E.t = E.u),<<"unique representative",E>>)
  /\ Assert(E.equiv => InOrbit(GI,u,t),<<"equivalent",E>>)
  /\ Assert((Standard(GI,t) /\ InOrbit(GI,u,t)) => E.equiv,<<"inequivalent",E>>)
  /\ Assert(E.equiv = (E.nt = E.nu),<<"normal forms decide equivalence",E>>)
\* parameters: [terms of sum: e,s,p], restriction
RestrictOK ==
  LET pt(j) == OfParam(GI,E.ps[j].p) IN
  /\ \A j \in 1..Len(E.ps) : Assert(SameT(GI,OfK(E.ps[j].k),AtNu0(GI,pt(j))),<<"K_type of a parameter",E.ps[j]>>)
  /\ Assert(Is(E.pol,Flat([j \in 1..Len(E.ps) |-> TimesP(<<E.ps[j].e,E.ps[j].s>>,ExpandK(GI,1,AtNu0(GI,pt(j))))])),<<"K_type_pol",E>>)
  /\ Assert(Is(E.sum,Flat([j \in 1..Len(E.ps) |-> TimesP(<<E.ps[j].e,E.ps[j].s>>,ExpandK(GI,1,AtNu0(GI,pt(j))))])),<<"sum of K-types",E>>)
  /\ Assert(Is(E.cut,IF E.h < 0 THEN <<>> ELSE UpTo(GI,Terms(E.sum),E.h)),<<"truncate_above_height",E>>)
FormulaOK ==
  LET t == OfK(E.t)  t0 == OfK(E.stable)
      X == {u.x : u \in seen}
      R == E.kgp
  IN /\ Assert(InOrbit(GI,t0,t) /\ NoCxDescent(GI,t0.x),<<"theta stable",E>>)
     /\ Assert(Cardinality({KeyT(GI,u) : u \in seen}) = Cardinality(X),<<"the fibre below does not determine lambda",E>>)
     /\ Assert(Len(R) = Cardinality(X) /\ {R[j].x+1 : j \in 1..Len(R)} = X,<<"KGP_sum elements",E>>)
     /\ Assert(\A j \in 1..Len(R) : R[j].c = Par(Len0(t.x)-Len0(R[j].x+1)) /\ SameT(GI,OfK(R[j]),CHOOSE u \in seen : u.x = R[j].x+1),<<"KGP_sum",E>>)
     /\ IF E.only THEN TRUE ELSE
        LET F == TLCEval(FormulaTerms(GI,t0.x,{CHOOSE u \in seen : u.x = x : x \in X}))
        IN \A k \in 1..Len(E.fs) : Assert(Is(E.fs[k].pol,UpTo(GI,F,E.fs[k].h)),<<"K-type formula",E.fs[k].kind,E.fs[k].h,E.t>>)
\* terms of R combined with the formulas of its members
BranchOK ==
  LET cut(r,h) == SelectSeq(r,LAMBDA e : HeightT(GI,OfK(e)) <= h) IN
  \A k \in 1..Len(E.rs) : LET q == E.rs[k] IN
     /\ Assert(\A j \in 1..Len(q.pol) : HeightT(GI,OfK(q.pol[j])) <= q.h,<<"branch above the bound",k,E>>)
     /\ Assert(Is(q.pol,UpTo(GI,Terms(E.rs[1].pol),q.h)),<<"branch depends on the bound",k,E>>)
     /\ Assert(q.h <= E.rs[1].h,"bounds")
     /\ k = 1 => Assert(Combine(GI,Flat([j \in 1..Len(q.pol) |-> TimesPP(<<q.pol[j].e,q.pol[j].s>>,UpTo(GI,Terms(q.forms[j]),q.h))]))
                        = Combine(GI,UpTo(GI,Terms(E.pol),q.h)),<<"branch",E>>)

\* ---- state machine
Init == d \in 1..Len(Data) /\ stage = 0 /\ seen = {} /\ front = {}
Enter == stage = 0 /\ stage' = (IF E.kind = "formula" THEN 1 ELSE 2) /\ d' = d
         /\ IF E.kind = "formula" THEN seen' = {OfK(E.stable)} /\ front' = {OfK(E.stable)} ELSE UNCHANGED <<seen,front>>
Grow == /\ stage = 1 /\ front # {}
        /\ LET L == LeviGens(GI,E.stable.x+1)
               nw == TLCEval(UNION {BelowSet(GI,u,s) : u \in front, s \in L})
               old == {KeyT(GI,u) : u \in seen}
               fr == {u \in nw : KeyT(GI,u) \notin old}
               uq == TLCEval({CHOOSE u \in fr : KeyT(GI,u) = q : q \in {KeyT(GI,u) : u \in fr}})
           IN front' = uq /\ seen' = seen \cup uq
        /\ UNCHANGED <<d,stage>>
Finish == stage = 1 /\ front = {} /\ stage' = 2 /\ UNCHANGED <<d,seen,front>>
Next == Enter \/ Grow \/ Finish
Spec == Init /\ [][Next]_vars
Agree == stage = 2 => CASE E.kind = "ktype" -> KtypeOK
                        [] E.kind = "pair" -> PairOK
                        [] E.kind = "restrict" -> RestrictOK
                        [] E.kind = "formula" -> FormulaOK
                        [] E.kind = "branch" -> BranchOK
\* with the state determined by d, stage and the depth, every entry reaches stage 2
Complete == TLCGet("stats").distinct >= 2*Len(Data)
=============================================================================

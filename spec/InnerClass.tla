----------------------------- MODULE InnerClass -----------------------------
(* Classification of Cartan classes and real forms of an inner class, from the
   root datum and its distinguished involution.  A strong involution is a pair
   (theta, tau) as in module KGB; "up to centre" means that tau is only known
   by its pairings with roots, i.e. as an element for the adjoint group.  One
   machine explores such pairs by cross actions and Cayley transforms, for a
   lattice given by simple roots and coroots; it is run on the adjoint datum
   (its connected components are the real forms), on the dual adjoint datum
   (dual real forms), and on the datum itself and its dual from the base point
   of every real form and dual real form (fibers, block sizes).              *)
EXTENDS Lin, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.data)
VARIABLES d, job, seen, front, res
vars == <<d,job,seen,front,res>>
D == Data[d]
ss == Len(D.sroots)
nf == Len(D.forms)
nd == Len(D.dforms)
nC == Len(D.cartans)
Jobs == 2+nf+nd

\* ---- linear algebra
MinorR(M,i,j) == TLCEval([a \in 1..(Len(M)-1) |-> TLCEval([b \in 1..(Len(M)-1) |-> M[IF a < i THEN a ELSE a+1][IF b < j THEN b ELSE b+1]])])
Adj(M) == [i \in 1..Len(M) |-> TLCEval([j \in 1..Len(M) |-> IF Len(M) = 1 THEN 1 ELSE (IF (i+j) % 2 = 0 THEN 1 ELSE -1)*Det(MinorR(M,j,i))])]
CartanOf(ro,co) == TLCEval([i \in 1..Len(ro) |-> TLCEval([j \in 1..Len(co) |-> Dot(ro[i],co[j])])])
CartT == TLCEval([k \in 1..Len(Data) |-> CartanOf(Data[k].sroots,Data[k].scoroots)])
AdjT == TLCEval([k \in 1..Len(Data) |-> TLCEval(Adj(CartT[k]))])
DetT == TLCEval([k \in 1..Len(Data) |-> Det(CartT[k])])
Col(m,j) == TLCEval([i \in 1..Len(m) |-> m[i][j]])
\* coefficients in simple roots of a vector of the root lattice, and those in
\* simple coroots of a vector of the coroot lattice
Coefs(v) == TLCEval(LET e == TLCEval([i \in 1..ss |-> Dot(v,D.scoroots[i])]) IN [j \in 1..ss |-> Dot(e,Col(AdjT[d],j)) \div DetT[d]])
CoCoefs(v) == TLCEval(LET e == TLCEval([i \in 1..ss |-> Dot(v,D.sroots[i])]) IN [j \in 1..ss |-> Dot(e,AdjT[d][j]) \div DetT[d]])
Unit(n) == TLCEval([i \in 1..n |-> UnitV(n,i)])
NegT(M,n) == TLCEval([j \in 1..n |-> TLCEval([i \in 1..n |-> -M[i][j]])])
\* matrices (sequences of columns) in the basis of simple roots or coroots
AdMat(M) == TLCEval([i \in 1..ss |-> Coefs(TLCEval(MV(M,D.sroots[i],D.rank)))])
CoAdMat(M) == TLCEval([i \in 1..ss |-> CoCoefs(TLCEval(MV(M,D.scoroots[i],D.rank)))])

\* ---- the four kinds of lattices; k is the scale of torus factors
MkLat(n,sr,sc,de,k) == [r |-> n, sr |-> sr, sc |-> sc, delta |-> de, k |-> k,
                        S |-> TLCEval([s \in 1..Len(sr) |-> TLCEval([j \in 1..n |-> TLCEval(Refl(UnitV(n,j),sr[s],sc[s]))])])]
LatAd == MkLat(ss,Unit(ss),TLCEval([j \in 1..ss |-> Col(CartT[d],j)]),AdMat(D.delta),2)
LatDad == MkLat(ss,Unit(ss),TLCEval([j \in 1..ss |-> CartT[d][j]]),CoAdMat(D.ddelta),2)
LatF(f) == MkLat(D.rank,D.sroots,D.scoroots,D.delta,2*D.forms[f].tf.d)
LatG(g) == MkLat(D.rank,D.scoroots,D.sroots,D.ddelta,2*D.dforms[g].tf.d)
LatOf(j) == CASE j = 1 -> LatAd [] j = 2 -> LatDad [] j \in 3..(2+nf) -> LatF(j-2) [] OTHER -> LatG(j-2-nf)

Mod2(v) == TLCEval([i \in 1..Len(v) |-> v[i] % 2])
RECURSIVE Span2(_,_)
Span2(vs,n) == IF vs = <<>> THEN {ZeroV(n)}
             ELSE LET S == Span2(Tail(vs),n) IN IF Mod2(vs[1]) \in S THEN S ELSE S \cup {Mod2(AddV(v,vs[1])) : v \in S}
\* (1+M)X_* modulo 2
Trivial(M,n) == Span2([i \in 1..n |-> TLCEval(AddV(UnitV(n,i),VM(UnitV(n,i),M)))],n)
ModV(v,m) == TLCEval([i \in 1..Len(v) |-> v[i] % m])
Rep(L,M,c) == LET C == {ModV(AddV(c,ScaleV(L.k,t)),2*L.k) : t \in Trivial(M,L.r)} IN CHOOSE y \in C : TRUE
IsImag(L,M,a) == MV(M,a,L.r) = a
ReflC(c,a,ca) == LET m == TLCEval(Dot(c,a)) IN TLCEval(SubV(c,ScaleV(m,ca)))
Cross(L,e,s) == LET M == e[1]  N == TLCEval(MM(L.S[s],TLCEval(MM(M,L.S[s],L.r)),L.r))
                    c == ReflC(e[2],L.sr[s],L.sc[s])
                IN <<N,Rep(L,N,IF IsImag(L,M,L.sr[s]) THEN SubV(c,ScaleV(L.k,L.sc[s])) ELSE c)>>
Noncompact(L,e,s) == IsImag(L,e[1],L.sr[s]) /\ Dot(e[2],L.sr[s]) % (2*L.k) = 0
Cayley(L,e,s) == LET N == TLCEval(MM(L.S[s],e[1],L.r))  c == TLCEval(AddV(e[2],VM(e[2],N)))
                 IN <<N,Rep(L,N,TLCEval([i \in 1..L.r |-> c[i] \div 2]))>>
Next1(L,F) == UNION {{Cross(L,e,s) : s \in 1..ss} \cup {Cayley(L,e,s) : s \in {s \in 1..ss : Noncompact(L,e,s)}} : e \in F}

\* base points: for the adjoint data all elements over delta
DeltaFix(L) == {i \in 1..ss : L.delta[i] = UnitV(ss,i)}
Starts(L) == {<<L.delta,Rep(L,L.delta,[i \in 1..ss |-> IF i \in F THEN L.k ELSE 0])>> : F \in SUBSET DeltaFix(L)}
ScaledTF(L,tf) == TLCEval([i \in 1..L.r |-> tf.n[i]*(L.k \div tf.d)])
Origin(L,tf) == <<L.delta,Rep(L,L.delta,ScaledTF(L,tf))>>
Thetas == {D.cartans[i].inv : i \in 1..nC}
CoThetas == {NegT(t,D.rank) : t \in Thetas}
Keep(j,S) == IF j <= 2 THEN S ELSE {e \in S : e[1] \in (IF j <= 2+nf THEN Thetas \cup {D.delta} ELSE CoThetas \cup {D.ddelta})}

Init == d \in 1..Len(Data) /\ job = 0 /\ seen = {} /\ front = {} /\ res = <<>>
Reached == UNION {C.S : C \in Range(res[job])}
StartOf(j,R) == LET L == TLCEval(LatOf(j)) IN
   IF j <= 2 THEN LET T == Starts(L) \ R IN IF T = {} THEN {} ELSE {CHOOSE e \in T : TRUE}
   ELSE {Origin(L,IF j <= 2+nf THEN D.forms[j-2].tf ELSE D.dforms[j-2-nf].tf)}
Begin == job = 0 /\ d' = d /\ job' = 1 /\ res' = <<<<>>>> /\ front' = StartOf(1,{}) /\ seen' = front'
Grow == /\ job \in 1..Jobs /\ front # {}
        /\ LET L == TLCEval(LatOf(job))  nw == TLCEval(Next1(L,front) \ seen) IN front' = nw /\ seen' = seen \cup nw
        /\ UNCHANGED <<d,job,res>>
\* a component is complete
Close == /\ job \in 1..Jobs /\ front = {} /\ seen # {}
         /\ res' = [res EXCEPT ![job] = Append(@,[n |-> Cardinality(seen), S |-> Keep(job,seen)])]
         /\ seen' = {} /\ UNCHANGED <<d,job,front>>
Proceed == /\ job \in 1..Jobs /\ front = {} /\ seen = {}
           /\ d' = d
           /\ LET R == TLCEval(Reached)  more == IF job <= 2 THEN StartOf(job,R) ELSE {} IN
              IF more # {} THEN front' = more /\ seen' = more /\ UNCHANGED <<job,res>>
              ELSE /\ job' = job+1
                   /\ IF job = Jobs THEN UNCHANGED <<seen,front,res>>
                      ELSE res' = Append(res,<<>>) /\ front' = StartOf(job+1,{}) /\ seen' = front'
Next == Begin \/ Grow \/ Close \/ Proceed
Spec == Init /\ [][Next]_vars

\* ---- comparison
Comps == res[1]
DComps == res[2]
Strong(f) == res[2+f][1]
DStrong(g) == res[2+nf+g][1]
Ths == {e[1] : e \in UNION {C.S : C \in Range(Comps)}}
RECURSIVE ConjOrbit(_,_,_)
ConjOrbit(L,S,F) == IF F = {} THEN S ELSE LET nw == {TLCEval(MM(L.S[s],TLCEval(MM(M,L.S[s],L.r)),L.r)) : s \in 1..ss, M \in F} \ S IN ConjOrbit(L,S \cup nw,nw)
\* from an element of an actual fiber to the adjoint fiber
Pairing2(L,c,ro) == TLCEval([i \in 1..ss |-> (2*Dot(c,ro[i])) \div L.k])
AdElt(LA,L,e) == LET A == AdMat(e[1]) IN <<A,Rep(LA,A,Pairing2(L,e[2],D.sroots))>>
CoAdElt(LA,L,e) == LET A == CoAdMat(e[1]) IN <<A,Rep(LA,A,Pairing2(L,e[2],D.scoroots))>>
CompOf(cs,e) == CHOOSE i \in 0..Len(cs) : (i = 0 /\ \A j \in 1..Len(cs) : e \notin cs[j].S) \/ (i > 0 /\ e \in cs[i].S)

\* fiber group of theta: fixed coweights modulo (1+theta): elements as subsets
FixedCo(M,n) == {TLCEval(LET w == AddV(u,VM(u,M)) IN [i \in 1..n |-> w[i] \div 2]) :
                  u \in {u \in [1..n -> {0,1}] : LET w == AddV(u,VM(u,M)) IN \A i \in 1..n : w[i] % 2 = 0}}
CosetMod2(v,T) == {Mod2(AddV(v,t)) : t \in T}
FiberGroup(M,n) == LET T == Trivial(M,n) IN {CosetMod2(v,T) : v \in FixedCo(M,n)}
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1+Log2(n \div 2)

\* types of root subsystems
N == Len(D.posroots)
PR(i) == D.posroots[i]
PC(i) == D.poscoroots[i]
Basis(I) == {i \in I : ~\E j,k \in I : AddV(PR(j),PR(k)) = PR(i)}
RECURSIVE GrowC(_,_)
GrowC(W,S) == LET T == {b \in W : \E a \in S : Dot(PR(b),PC(a)) # 0} IN IF T \subseteq S THEN S ELSE GrowC(W,S \cup T)
Letter(B,I) == \* B: simple basis of one component, I: its positive roots
  LET n == Cardinality(B)  p == Cardinality(I)
      multi == {<<a,b>> \in B \X B : Dot(PR(a),PC(b)) < -1}
  IN IF multi = {} THEN (IF p = (n*(n+1)) \div 2 THEN <<1,n>> ELSE IF p = n*(n-1) THEN <<4,n>> ELSE <<5,n>>)
     ELSE LET m == CHOOSE m \in multi : TRUE
              long == GrowC(B \ {m[2]},{m[1]})
          IN IF n = 2 THEN (IF p = 6 THEN <<7,2>> ELSE <<2,2>>)
             ELSE IF n = 4 /\ p = 24 THEN <<6,4>>
             ELSE IF Cardinality(long) = 1 THEN <<3,n>> ELSE <<2,n>>
TypesOf(I) == LET B == TLCEval(Basis(I)) IN
   {<<Letter(C,{i \in I : \E a \in C : Dot(PR(i),PC(a)) # 0}),C>> : C \in {GrowC(B,{a}) : a \in B}}
\* number of components of each type, twice over if mult = 2
SameTypes(I,lt,mult) == LET T == TLCEval(TypesOf(I))  n(t) == IF t = <<3,2>> THEN <<2,2>> ELSE t IN
   /\ Cardinality(T) = mult*Len(lt)
   /\ \A k \in 1..Len(lt) : mult*Cardinality({j \in 1..Len(lt) : n(lt[j]) = n(lt[k])}) = Cardinality({t \in T : t[1] = n(lt[k])})
RECURSIVE SumRoots(_)
SumRoots(S) == IF S = {} THEN ZeroV(D.rank) ELSE LET i == CHOOSE i \in S : TRUE IN TLCEval(AddV(PR(i),SumRoots(S \ {i})))
ImagOf(M) == {i \in 1..N : MV(M,PR(i),D.rank) = PR(i)}
RealOf(M) == {i \in 1..N : MV(M,PR(i),D.rank) = NegV(PR(i))}
CplxOf(M) == LET a == SumRoots(ImagOf(M))  b == SumRoots(RealOf(M)) IN {i \in 1..N : Dot(a,PC(i)) = 0 /\ Dot(b,PC(i)) = 0 /\ i \notin ImagOf(M) /\ i \notin RealOf(M)}
RECURSIVE WordM(_,_)
WordM(w,M) == IF w = <<>> THEN M ELSE LET L == LatF(1) IN TLCEval(MM(L.S[w[1]+1],WordM(Tail(w),M),D.rank))

Trace(M) == SumSeq([i \in 1..Len(M) |-> M[i][i]])
Decomp(M) == LET n == D.rank  c == Log2(Cardinality(Span2([i \in 1..n |-> TLCEval(AddV(UnitV(n,i),MV(M,UnitV(n,i),n)))],n)))  t == Trace(M)
             IN <<(n+t) \div 2 - c,c,(n-t) \div 2 - c>>  \* compact, complex, split
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : TRUE IN <<a>> \o SeqOfSet(S \ {a})
\* components of the real group: component group of the split part of the most
\* split Cartan modulo the elements coming from real coroots
CompRank(M) == LET n == D.rank
                   Ng == TLCEval([j \in 1..n |-> NegV(M[j])])
                   T == Trivial(Ng,n)
                   A == {CosetMod2(v,T) : v \in FixedCo(Ng,n)}
                   R == SeqOfSet(RealOf(M))
                   G == Span2([i \in 1..Len(R) |-> PC(R[i])] \o [i \in 1..n |-> TLCEval(AddV(UnitV(n,i),VM(UnitV(n,i),Ng)))],n)
               IN Log2(Cardinality(A)) - (Log2(Cardinality(G)) - Log2(Cardinality(T)))

\* orbits of the imaginary Weyl group on a strong fiber
RECURSIVE WimGrow(_,_,_,_,_)
WimGrow(L,M,B,S,F) == IF F = {} THEN S
   ELSE LET nw == {Rep(L,M,SubV(ReflC(c,PR(b),PC(b)),ScaleV(L.k,PC(b)))) : b \in B, c \in F} \ S IN WimGrow(L,M,B,S \cup nw,nw)
Torsor(L,M,c) == {Rep(L,M,AddV(c,ScaleV(L.k,v))) : v \in FixedCo(M,L.r)}

Check(b,what) == Assert(b,<<what,D.name>>)
Agree == job = Jobs+1 =>
  LET LA == TLCEval(LatAd)
      LD == TLCEval(LatDad)
      th == TLCEval(Ths)
      C(i) == D.cartans[i]
      adth == TLCEval([i \in 1..nC |-> AdMat(C(i).inv)])
      cls == TLCEval([i \in 1..nC |-> ConjOrbit(LA,{adth[i]},{adth[i]})])
      cof == TLCEval([t \in th |-> CHOOSE i \in 0..nC : i = 0 \/ t \in cls[i]])
      ClassOf(t) == IF \E i \in 1..nC : t \in cls[i] THEN CHOOSE i \in 1..nC : t \in cls[i] ELSE 0
      cmp == TLCEval([f \in 1..nf |-> CompOf(Comps,AdElt(LA,LatF(f),Origin(LatF(f),D.forms[f].tf)))])
      dcmp == TLCEval([g \in 1..nd |-> CompOf(DComps,CoAdElt(LD,LatG(g),Origin(LatG(g),D.dforms[g].tf)))])
      occ == TLCEval([f \in 1..nf |-> {i \in 1..nC : \E e \in Strong(f).S : e[1] = C(i).inv}])
      docc == TLCEval([g \in 1..nd |-> {i \in 1..nC : \E e \in DStrong(g).S : e[1] = NegT(C(i).inv,D.rank)}])
      fibn == TLCEval([f \in 1..nf |-> [i \in 1..nC |-> Cardinality({e \in Strong(f).S : e[1] = C(i).inv})]])
      dfibn == TLCEval([g \in 1..nd |-> [i \in 1..nC |-> Cardinality({e \in DStrong(g).S : e[1] = NegT(C(i).inv,D.rank)})]])
      edges == TLCEval({<<i,j>> \in (1..nC) \X (1..nC) : i # j /\ \E t \in cls[i] : \E s \in 1..ss : t[s] = UnitV(ss,s) /\ TLCEval(MM(LA.S[s],t,ss)) \in cls[j]})
      up == TLCEval([i \in 1..nC |-> LET RECURSIVE U(_)
                                         U(S) == LET T == S \cup {e[2] : e \in {e \in edges : e[1] \in S}} IN IF T = S THEN S ELSE U(T)
                                     IN U({i})])
  IN \* Cartan classes
     /\ Check(\A i \in 1..nC : adth[i] \in th,"involution of a Cartan class is not a twisted involution")
     /\ Check(\A i,j \in 1..nC : i # j => cls[i] \cap cls[j] = {},"Cartan classes are conjugate")
     /\ Check(th = UNION Range(cls),"Cartan classes are not complete")
     /\ Check(\A i,j \in 1..nC : j \in up[i] => i <= j,"order of Cartan classes")
     /\ \A i \in 1..nC : LET M == C(i).inv IN
          /\ Check(C(i).size = Cardinality(cls[i]),"size of the class of involutions")
          /\ Check(C(i).fiber = Cardinality(FiberGroup(M,D.rank)),"size of the fiber")
          /\ Check(C(i).torus = Decomp(M) /\ C(i).classify = Decomp(M),"type of the torus")
          /\ Check(WordM(C(i).word,D.delta) = M,"Weyl word of the involution")
          /\ Check(SameTypes(ImagOf(M),C(i).imag,1),"imaginary roots")
          /\ Check(SameTypes(RealOf(M),C(i).real,1),"real roots")
          /\ Check(SameTypes(CplxOf(M),C(i).cplx,2),"complex roots")
          /\ Check(C(i).twd = D.delta /\ C(i).icd = D.delta /\ WordM(C(i).tww,D.delta) = M,"inner class of an involution")
     \* real forms
     /\ Check(nf = Len(Comps) /\ Range(cmp) = 1..nf,"real forms are the classes of strong involutions up to centre")
     /\ Check(nd = Len(DComps) /\ Range(dcmp) = 1..nd,"dual real forms are the classes of dual strong involutions up to centre")
     /\ Check(<<LA.delta,Rep(LA,LA.delta,ZeroV(ss))>> \in Comps[cmp[D.qs+1]].S,"quasisplit form")
     /\ Check(<<LD.delta,Rep(LD,LD.delta,ZeroV(ss))>> \in DComps[dcmp[D.dqs+1]].S,"dual quasisplit form")
     /\ \A f \in 1..nf : LET F == D.forms[f] IN
          /\ Check(F.nr = f-1 /\ F.size = Strong(f).n,"size of K\\G/B")
          /\ Check(\A i \in 1..nC : (i \in occ[f]) = (D.occ[i][f] = 1) /\ (i \in occ[f]) = (\E e \in Comps[cmp[f]].S : e[1] = adth[i]),"occurrence matrix")
          /\ LET cn == TLCEval([j \in 1..Len(F.cartans) |-> CHOOSE i \in 0..nC : (i = 0 /\ F.cartans[j] \notin Thetas) \/ (i > 0 /\ C(i).inv = F.cartans[j])]) IN
             /\ Check(Range(cn) = occ[f] /\ Len(cn) = Cardinality(occ[f]) /\ \A j \in 2..Len(cn) : cn[j-1] < cn[j],"Cartan classes of a real form")
             /\ Check(\A i,j \in 1..Len(cn) : F.order[j][i] = (IF cn[j] \in up[cn[i]] THEN 1 ELSE 0),"order of the Cartan classes of a real form")
          /\ LET ms == CHOOSE i \in 1..nC : C(i).inv = F.split IN
             /\ Check(ms \in occ[f] /\ \A i \in occ[f] : ms \in up[i],"most split Cartan")
             /\ Check(F.comp = CompRank(C(ms).inv),"component group")
          /\ LET L == TLCEval(LatF(f))
                 o == Origin(L,F.tf)
                 a == AdElt(LA,L,o)
                 z == TLCEval([j \in 1..Len(F.central) |-> Rep(L,D.delta,AddV(ScaledTF(L,F.tf),ScaleV(L.k \div 2,AddV(F.central[j],VM(F.central[j],D.delta)))))])
             IN /\ Check({<<D.delta,y>> : y \in Range(z)} = {e \in Strong(f).S : e[1] = D.delta /\ AdElt(LA,L,e) = a},"central fiber")
                /\ Check(Cardinality(Range(z)) = Len(z),"central fiber has repetitions")
     /\ \A g \in 1..nd : LET G == D.dforms[g] IN
          /\ Check(G.nr = g-1 /\ G.size = DStrong(g).n,"size of K\\G/B for a dual real form")
          /\ Check(\A i \in 1..nC : (i \in docc[g]) = (D.docc[i][g] = 1),"dual occurrence matrix")
     \* real forms of each Cartan class
     /\ \A i \in 1..nC : LET M == C(i).inv
                            B == TLCEval(Basis(ImagOf(M)))
                            FP == C(i).part
                            lab(L,c) == LET k == CompOf(Comps,AdElt(LA,L,<<M,c>>)) IN CHOOSE f \in 0..nf : (f > 0 /\ cmp[f] = k) \/ (f = 0 /\ k \notin Range(cmp))
                            here == {f \in 1..nf : i \in occ[f]}
                        IN
          /\ Check({f+1 : f \in Range(C(i).rf)} = here /\ Len(C(i).rf) = Cardinality(here),"real forms of a Cartan class")
          /\ Check({g+1 : g \in Range(C(i).drf)} = {g \in 1..nd : i \in docc[g]} /\ Len(C(i).drf) = Cardinality(Range(C(i).drf)),"dual real forms of a Cartan class")
          /\ Check(\A k \in 1..Len(FP) : Len(FP[k]) = Cardinality({e \in Comps[cmp[C(i).rf[k]+1]].S : e[1] = adth[i]})
                   /\ Cardinality(Range(FP[k])) = Len(FP[k]),"fiber partition")
          /\ Check(UNION {Range(FP[k]) : k \in 1..Len(FP)} = 0..(SumSeq([k \in 1..Len(FP) |-> Len(FP[k])])-1),"fiber partition is not complete")
          /\ Check({f+1 : f \in UNION {Range(C(i).sq[k]) : k \in 1..Len(C(i).sq)}} = here,"square classes")
          /\ \A k \in 1..Len(C(i).sq) : LET q == C(i).sq[k]  f == q[1]+1  L == TLCEval(LatF(f))
                                            c0 == (CHOOSE e \in Strong(f).S : e[1] = M)[2]
                                            T == TLCEval(Torsor(L,M,c0))
                                            O == TLCEval({WimGrow(L,M,B,{c},{c}) : c \in T})
                                            lb == TLCEval([o \in O |-> lab(L,CHOOSE c \in o : TRUE)])
                                        IN Check(\A h \in 1..nf : Cardinality({o \in O : lb[o] = h}) = Cardinality({j \in 1..Len(q) : q[j]+1 = h}),"strong real forms of a square class")
          /\ Check(\A k,l \in 1..Len(C(i).sq) : k # l => Range(C(i).sq[k]) \cap Range(C(i).sq[l]) = {},"square classes overlap")
     \* blocks
     /\ Check(\A f \in 1..nf : \A g \in 1..nd : D.blocks[g][f] = SumSeq([i \in 1..nC |-> C(i).size*fibn[f][i]*dfibn[g][i]]),"block sizes")
     /\ Check(\A f \in 1..nf : \A g \in 1..nd : D.blk[f][g] = D.blocks[g][f],"block size")
     /\ Check(D.names = D.ddnames /\ D.dnames = D.dnames2 /\ Len(D.names) = nf /\ Len(D.dnames) = nd,"names of dual real forms")
     /\ Check(D.eqs = [f \in 1..nf |-> [h \in 1..nf |-> f = h]],"equality of real forms")
     /\ Check(\A b \in Range(D.dualok) : b,"dual inner class")
Complete == TLCGet("stats").distinct >= 5*Len(Data)
=============================================================================

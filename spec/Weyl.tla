-------------------------------- MODULE Weyl --------------------------------
(* The Weyl group as group of matrices generated by the simple reflections,
   explored together with the implementation's elements: a state pairs a
   matrix (acting on weights) with the number of the implementation element
   reached by the same multiplications by generators, on either side.      *)
EXTENDS Lin, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.data)
VARIABLES d, phase, m, k
vars == <<d,phase,m,k>>

D == Data[d]
r == D.rank
ss == Len(D.sroots)
SRm(dd,i,v) == Refl(v,Data[dd].sroots[i],Data[dd].scoroots[i])
Gen(i) == [j \in 1..r |-> Refl(UnitV(r,j),D.sroots[i],D.scoroots[i])]
\* actions of words (letters 0..ss-1), written left to right
ActW(w,v) == LET f[i \in 0..Len(w)] == IF i = 0 THEN v
                   ELSE LET s == w[Len(w)+1-i]+1 IN Refl(f[i-1],D.sroots[s],D.scoroots[s]) IN f[Len(w)]
ActC(c,w) == LET f[i \in 0..Len(w)] == IF i = 0 THEN c
                   ELSE LET s == w[i]+1 IN Corefl(f[i-1],D.sroots[s],D.scoroots[s]) IN f[Len(w)]
Matrix(w) == [j \in 1..r |-> ActW(w,UnitV(r,j))]
Pos(root) == Dot(root,D.trc) > 0          \* trc: sum of positive coroots
CPos(coroot) == Dot(coroot,D.tr) > 0
Inversions(M) == Cardinality({i \in 1..Len(D.posroots) : ~Pos(MV(M,D.posroots[i],r))})
\* inversions of a word: positive roots a with <w a,trc> = <a,trc w> negative
WordOK(w) == /\ \A i \in 1..Len(w) : w[i] \in 0..(ss-1)
             /\ LET c == ActC(D.trc,w) IN Cardinality({i \in 1..Len(D.posroots) : Dot(D.posroots[i],c) < 0}) = Len(w)
\* elements are determined by their action on the regular weight tr
Same(w,img) == ActW(w,D.tr) = img

N == Len(D.posroots)
RootAt(i) == D.roots[i+N+1]
CorootAt(i) == D.coroots[i+N+1]

Factorial(n) == LET f[i \in 0..n] == IF i = 0 THEN 1 ELSE i*f[i-1] IN f[n]
Order1(t,n) == CASE t = "T" -> 1 [] t = "A" -> Factorial(n+1) [] t \in {"B","C"} -> (2^n)*Factorial(n)
                 [] t = "D" -> (2^(n-1))*Factorial(n) [] t = "F" -> 1152 [] t = "G" -> 12
                 [] t = "E" -> IF n = 6 THEN 51840 ELSE 2903040
OrderW(lt) == LET f[i \in 0..Len(lt)] == IF i = 0 THEN 1 ELSE f[i-1]*Order1(lt[i][1],lt[i][2]) IN f[Len(lt)]

\* S, a sequence of vectors, is exactly the orbit of v under the reflections R:
\* closed, without repetition, contains v, and only one of its elements is
\* dominant (every other element is moved up by some reflection)
IsOrbit(S,v,R) == LET O == Range(S) IN
  /\ Cardinality(O) = Len(S)
  /\ v \in O
  /\ \A x \in O, p \in R : Refl(x,p[1],p[2]) \in O
  /\ Cardinality({x \in O : \A p \in R : Dot(x,p[2]) >= 0}) = 1

\* ---- static facts
ProductOK(p) ==
   LET img == ActW(p.u,ActW(p.v,D.tr)) IN
   /\ WordOK(p.uv) /\ Same(p.uv,img) /\ p.len = Len(p.uv)
   /\ Matrix(p.uv) = [j \in 1..r |-> ActW(p.u,ActW(p.v,UnitV(r,j)))]
   /\ WordOK(p.inv) /\ ActW(p.inv,img) = D.tr
   /\ p.uw = p.uv /\ p.wv = p.uv            \* products with words on either side
   /\ Len(p.rs) = ss /\ Len(p.ls) = ss
   /\ \A i \in 1..ss :
        /\ WordOK(p.rs[i]) /\ Same(p.rs[i],ActW(p.uv,Refl(D.tr,D.sroots[i],D.scoroots[i])))
        /\ WordOK(p.ls[i]) /\ Same(p.ls[i],Refl(img,D.sroots[i],D.scoroots[i]))
   /\ p.eq = (ActW(p.u,D.tr) = ActW(p.v,D.tr)) /\ p.neq = ~p.eq
   /\ p.unit = (ActW(p.u,D.tr) = D.tr) /\ p.nunit = ~p.unit
   /\ p.eqinv /\ p.datum
   /\ p.act = ActW(p.uv,p.vec) /\ p.coact = ActC(p.vec,p.uv)
   /\ LET M == Matrix(p.uv) IN \A i \in (-N)..(N-1) : RootAt(p.perm[i+N+1]-N) = MV(M,RootAt(i),r)
ReflOK(x) == /\ WordOK(x[2])
   /\ \A j \in 1..r : ActW(x[2],UnitV(r,j)) = Refl(UnitV(r,j),RootAt(x[1]),CorootAt(x[1]))
DecompOK(x) == LET v == x[1]  w == x[2]  dom == x[3] IN
       /\ WordOK(w) /\ ActW(w,dom) = v
       /\ \A i \in 1..ss : Dot(dom,D.scoroots[i]) >= 0
       /\ \A i \in 1..ss : Dot(dom,D.scoroots[i]) = 0 => Pos(ActW(w,D.sroots[i]))
CodecompOK(x) == LET v == x[1]  dom == x[2]  w == x[3] IN
       /\ WordOK(w) /\ ActC(dom,w) = v
       /\ \A i \in 1..ss : Dot(dom,D.sroots[i]) >= 0
       /\ \A i \in 1..ss : Dot(dom,D.sroots[i]) = 0 => CPos(ActC(D.scoroots[i],w))
Gens(g) == {<<RootAt(g[i]),CorootAt(g[i])>> : i \in 1..Len(g)}
CoGens(g) == {<<CorootAt(g[i]),RootAt(g[i])>> : i \in 1..Len(g)}
OrbitOK(x) == LET R == Gens(x.g) IN
       /\ IsOrbit(x.o,x.v,R)
       /\ Len(x.ws) = Len(x.o) /\ {ActW(w,x.v) : w \in Range(x.ws)} = Range(x.o)
       /\ \A w \in Range(x.ws) : WordOK(w)
       \* for a vector dominant for the generators: minimal coset representatives,
       \* in the subgroup (no generator root outside made negative ...)
       /\ (\A p \in Gens(x.g) : Dot(x.v,p[2]) >= 0) =>
            \A w \in Range(x.ws) : \A p \in Gens(x.g) : Dot(x.v,p[2]) = 0 => Pos(ActW(w,p[1]))
CoorbitOK(x) == LET R == CoGens(x.g) IN
       /\ IsOrbit(x.o,x.v,R)
       /\ Len(x.ws) = Len(x.o) /\ {ActC(x.v,w) : w \in Range(x.ws)} = Range(x.o)
       /\ \A w \in Range(x.ws) : WordOK(w)
       /\ (\A p \in CoGens(x.g) : Dot(x.v,p[2]) >= 0) =>
            \A w \in Range(x.ws) : \A p \in CoGens(x.g) : Dot(x.v,p[2]) = 0 => CPos(ActC(p[1],w))
TablesOK == D.full => Len(D.elts) = OrderW(D.lt)

\* ---- product exploration of the whole group
Init == d \in 1..Len(Data) /\ phase = "start" /\ m = <<>> /\ k = 0
Kinds == <<"products","refls","decomp","codecomp","orbits","coorbits">>
Fact(kind,x) == CASE kind = "products" -> ProductOK(x) [] kind = "refls" -> ReflOK(x)
   [] kind = "decomp" -> DecompOK(x) [] kind = "codecomp" -> CodecompOK(x)
   [] kind = "orbits" -> OrbitOK(x) [] kind = "coorbits" -> CoorbitOK(x)
Static == phase = "start" /\ phase' = "fact" /\ d' = d /\ \E t \in 1..Len(Kinds) : m' = t /\ k' \in 1..Len(D[Kinds[t]])
Begin == phase = "start" /\ D.full /\ phase' = "group" /\ m' = IdM(r) /\ k' = D.id /\ d' = d
Right == phase = "group" /\ \E i \in 1..ss : m' = MM(m,Gen(i),r) /\ k' = D.elts[k].rs[i]
Left == phase = "group" /\ \E i \in 1..ss : m' = MM(Gen(i),m,r) /\ k' = D.elts[k].ls[i]
Inverse == phase = "group" /\ m' = Matrix([i \in 1..Len(D.elts[k].word) |-> D.elts[k].word[Len(D.elts[k].word)+1-i]]) /\ k' = D.elts[k].inv
Next == Static \/ Begin \/ ((Right \/ Left \/ Inverse) /\ UNCHANGED <<d,phase>>)
Spec == Init /\ [][Next]_vars

Facts == phase = "fact" => Assert(Fact(Kinds[m],D[Kinds[m]][k]),<<Kinds[m],d,k>>)
Orders == phase = "start" => TablesOK
Agree == phase = "group" =>
  /\ k \in 1..Len(D.elts)
  /\ LET e == D.elts[k] IN
     /\ Matrix(e.word) = m
     /\ Len(e.word) = e.len /\ Inversions(m) = e.len
     /\ e.act = MV(m,D.vec,r)
     /\ e.coact = VM(D.vec,m)
     /\ (D.perms => \A i \in (-N)..(N-1) : RootAt(e.perm[i+N+1]-N) = MV(m,RootAt(i),r))
Complete == TLCGet("stats").distinct = SumSeq([i \in 1..Len(Data) |-> 1 + SumSeq([t \in 1..Len(Kinds) |-> Len(Data[i][Kinds[t]])]) + (IF Data[i].full THEN OrderW(Data[i].lt) ELSE 0)])
=============================================================================

----------------------------- MODULE RootDatum -----------------------------
(* Root data.  The roots with their coroots are generated as states of a
   transition system: initially the simple roots, every simple reflection is
   a transition.  Each state carries the index under which the implementation
   knows the root; the implementation's reflection tables move the index.
   Static facts of each datum are checked in its initial state.             *)
EXTENDS Lin, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.data)
VARIABLES d, phase, root, coroot, idx
vars == <<d,phase,root,coroot,idx>>

D == Data[d]
N == D.npos
\* implementation's signed index k in -N..N-1, and its internal index k+N
RootAt(k) == D.roots[k+N+1]
CorootAt(k) == D.coroots[k+N+1]
Idx == (-N)..(N-1)
SR(i) == RootAt(i-1)
SC(i) == CorootAt(i-1)
r == D.rank
ss == D.ssrank

Init == d \in 1..Len(Data) /\ phase = "static" /\ root = <<>> /\ coroot = <<>> /\ idx = 0
Begin == /\ phase = "static"
         /\ \E i \in 1..ss : root' = SR(i) /\ coroot' = SC(i) /\ idx' = i-1
         /\ phase' = "roots" /\ d' = d
Reflect == /\ phase = "roots"
           /\ \E i \in 1..ss : /\ root' = Refl(root,SR(i),SC(i))
                               /\ coroot' = Corefl(coroot,SR(i),SC(i))
                               /\ idx' = D.refl[i][idx+N+1] - N
           /\ UNCHANGED <<d,phase>>
Next == Begin \/ Reflect
Spec == Init /\ [][Next]_vars

TypeOf(lt) == /\ r = RankT(lt) /\ ss = SSRank(lt)
              /\ N = SumSeq([k \in 1..Len(lt) |-> NPos(lt[k][1],lt[k][2])])
              /\ \A i,j \in 1..ss : Dot(SR(i),SC(j)) = CartanT(lt,i,j)
\* simple roots and coroots for a weight lattice with basis D.basis, given in
\* fundamental weight (and torus) coordinates
LatticeOK == D.basis # <<>> =>
  /\ Len(D.basis) = r
  /\ \A i \in 1..ss : Comb(SR(i),D.basis,r) = FundRoot(D.lt,i)
  /\ \A i \in 1..ss : SC(i) = [j \in 1..r |-> D.basis[j][Coord(D.lt,i)]]
  /\ AbsI(Det(D.basis)) = D.index
Adjoint == D.adjoint => \A i \in 1..ss : SR(i) = UnitV(r,i)

Level(v) == SumSeq(v)
RootSet == {RootAt(k) : k \in Idx}
CorootSet == {CorootAt(k) : k \in Idx}
Shape ==
  /\ Len(D.roots) = 2*N /\ Len(D.coroots) = 2*N
  /\ \A k \in Idx : Len(RootAt(k)) = r /\ Len(CorootAt(k)) = r
  /\ D.posroots = [k \in 1..N |-> RootAt(k-1)]
  /\ D.poscoroots = [k \in 1..N |-> CorootAt(k-1)]
  /\ D.sroots = [k \in 1..ss |-> RootAt(k-1)]
  /\ D.scoroots = [k \in 1..ss |-> CorootAt(k-1)]
  /\ \A k \in 0..(N-1) : RootAt(-1-k) = NegV(RootAt(k)) /\ CorootAt(-1-k) = NegV(CorootAt(k))
  /\ Cardinality(RootSet) = 2*N
  /\ D.cartan = [j \in 1..ss |-> [i \in 1..ss |-> Dot(SR(i),SC(j))]]
  /\ \A k \in Idx : D.rootidx[k+N+1] = k /\ D.corootidx[k+N+1] = k
  /\ \A x \in Range(D.nonroots) : IF x[1] \in RootSet THEN x[2] \in Idx /\ RootAt(x[2]) = x[1] ELSE x[2] = N
  /\ \A x \in Range(D.nonroots) : IF x[1] \in CorootSet THEN x[3] \in Idx /\ CorootAt(x[3]) = x[1] ELSE x[3] = N
Expressions ==
  /\ \A k \in Idx : Comb(D.rexpr[k+N+1],D.sroots,r) = RootAt(k)
  /\ \A k \in Idx : Comb(D.crexpr[k+N+1],D.scoroots,r) = CorootAt(k)
  /\ \A k \in 1..ss : D.rexpr[k+N] = UnitV(ss,k)
  /\ \A k \in 0..(N-1) : \A i \in 1..ss : D.rexpr[k+N+1][i] >= 0 /\ D.crexpr[k+N+1][i] >= 0
  /\ \A k \in 0..(N-2) : IF D.prefco THEN Level(D.crexpr[k+N+1]) <= Level(D.crexpr[k+N+2])
                         ELSE Level(D.rexpr[k+N+1]) <= Level(D.rexpr[k+N+2])
\* long roots: some other root is shorter in the same component
Long == \A k \in Idx :
  /\ D.long[k+N+1] = (\E m \in Idx : Dot(RootAt(k),CorootAt(m)) < -1 /\ m # -1-k)
  /\ D.colong[k+N+1] = (\E m \in Idx : Dot(RootAt(m),CorootAt(k)) < -1 /\ m # -1-k)
Reflections == \A a \in Range(D.samples) : \A k \in Idx :
  RootAt(D.invol[a+N+1][k+N+1]-N) = Refl(RootAt(k),RootAt(a),CorootAt(a))
Ladders == \A a \in Range(D.samples) :
  /\ Range(D.lad[a+N+1]) = {k \in Idx : SubV(RootAt(k),RootAt(a)) \notin RootSet}
  /\ Range(D.colad[a+N+1]) = {k \in Idx : SubV(CorootAt(k),CorootAt(a)) \notin CorootSet}
  /\ IsInj(D.lad[a+N+1]) /\ IsInj(D.colad[a+N+1])
HalfSums == D.tworho = SumV(D.posroots,r) /\ D.tworhoc = SumV(D.poscoroots,r)
\* radical: coweights that vanish on all roots; coradical: weights that vanish on all coroots
Radical == D.cr_radical = <<>> \/
  LET R == SubSeq(D.cr_radical,ss+1,Len(D.cr_radical))
      C == SubSeq(D.r_coradical,ss+1,Len(D.r_coradical))
  IN /\ SubSeq(D.cr_radical,1,ss) = D.scoroots /\ SubSeq(D.r_coradical,1,ss) = D.sroots
     /\ Len(R) = r-ss /\ Len(C) = r-ss
     /\ \A x \in Range(R), i \in 1..ss : Dot(x,SR(i)) = 0
     /\ \A x \in Range(C), i \in 1..ss : Dot(x,SC(i)) = 0
     /\ Saturated(R,r) /\ Saturated(C,r)
\* fundamental (co)weights: dual to the simple (co)roots, zero on the (co)radical
Fundamental ==
  LET R == SubSeq(D.cr_radical,ss+1,Len(D.cr_radical))
      C == SubSeq(D.r_coradical,ss+1,Len(D.r_coradical))
  IN \A i \in 1..ss :
     LET w == D.fw[i]  c == D.fcw[i]
     IN /\ RvOk(w) /\ RvOk(c)
        /\ \A j \in 1..ss : Dot(w.n,SC(j)) = (IF i = j THEN w.d ELSE 0)
        /\ \A j \in 1..ss : Dot(c.n,SR(j)) = (IF i = j THEN c.d ELSE 0)
        /\ \A x \in Range(R) : Dot(w.n,x) = 0
        /\ \A x \in Range(C) : Dot(c.n,x) = 0
\* dual datum: roots and coroots exchanged
Dual == /\ {<<D.dual.roots[k],D.dual.coroots[k]>> : k \in 1..(2*N)} = {<<D.coroots[k],D.roots[k]>> : k \in 1..(2*N)}
        /\ D.dual.sroots = D.scoroots /\ D.dual.scoroots = D.sroots
        /\ D.dual.dd
        /\ Len(D.dual.roots) = 2*N /\ D.dual.prefco = ~D.prefco
\* derived group: weights are restricted; the kernel is the coradical
Derived ==
  LET E == D.derived IN
  /\ E.rank = ss /\ Len(E.sroots) = ss
  /\ Len(E.map) = r                       \* projector: ss rows, r columns
  /\ \A i \in 1..ss : MV(E.map,SR(i),ss) = E.sroots[i]
  /\ \A i \in 1..ss : VM(E.scoroots[i],E.map) = SC(i)
  /\ r <= 4 => (ss = 0 \/ GcdSet({Det([j \in 1..ss |-> E.map[q[j]]]) : q \in Subsets(r,ss)}) = 1)
  /\ ss = r => AbsI(Det(E.map)) = 1
ModTorus ==
  LET E == D.modtorus IN
  /\ E.rank = ss /\ Len(E.sroots) = ss
  /\ Len(E.map) = ss                      \* injector: r rows, ss columns
  /\ \A i \in 1..ss : MV(E.map,E.sroots[i],r) = SR(i)
  /\ \A i \in 1..ss : VM(SC(i),E.map) = E.scoroots[i]
  /\ r <= 4 => Saturated(E.map,r)
\* Lie type reported: same factors, torus last
Canon(f) == IF f = <<"C",2>> THEN <<"B",2>> ELSE f
CountIn(lt,f) == Cardinality({k \in 1..Len(lt) : Canon(lt[k]) = f})
TorusRank(lt) == SumSeq([k \in 1..Len(lt) |-> IF lt[k][1] = "T" THEN lt[k][2] ELSE 0])
LieType == /\ \A f \in {Canon(D.lt[k]) : k \in 1..Len(D.lt)} \cup {Canon(D.ltgot[k]) : k \in 1..Len(D.ltgot)} :
                 f[1] = "T" \/ CountIn(D.lt,f) = CountIn(D.ltgot,f)
           /\ TorusRank(D.lt) = TorusRank(D.ltgot)
\* identification of a Cartan matrix with permuted rows and columns
CartanType ==
  /\ D.ctype.ok
  /\ \A i,j \in 1..ss : D.ctype.m[j][i] = Dot(SR(D.ctype.shuffle[i]),SC(D.ctype.shuffle[j]))
  /\ {D.ctype.perm[i] : i \in 1..ss} = 0..(ss-1) /\ Len(D.ctype.perm) = ss
  /\ \A i,j \in 1..ss : D.ctype.m[D.ctype.perm[j]+1][D.ctype.perm[i]+1] = CartanT(D.ctype.lt,i,j)
  /\ \A b \in Range(D.ctype.bad) : ~b

Static ==
  /\ Assert(Shape,<<"shape",d>>)
  /\ Assert(TypeOf(D.lt),<<"type",d>>)
  /\ Assert(LatticeOK /\ Adjoint,<<"lattice",d>>)
  /\ Assert(Expressions,<<"root expressions",d>>)
  /\ Assert(Long,<<"long",d>>)
  /\ Assert(Reflections,<<"reflections",d>>)
  /\ Assert(Ladders,<<"ladders",d>>)
  /\ Assert(HalfSums,<<"half sums",d>>)
  /\ Assert(Radical,<<"radical",d>>)
  /\ Assert(Fundamental,<<"fundamental weights",d>>)
  /\ Assert(Dual,<<"dual",d>>)
  /\ Assert(Derived,<<"derived",d>>)
  /\ Assert(ModTorus,<<"modulo torus",d>>)
  /\ Assert(LieType,<<"Lie type",d>>)
  /\ Assert(CartanType,<<"Cartan matrix type",d>>)
Facts == phase = "static" => Static
Agree == phase = "roots" => /\ idx \in Idx
                            /\ RootAt(idx) = root
                            /\ CorootAt(idx) = coroot
                            /\ Dot(root,coroot) = 2
Complete == TLCGet("stats").distinct = SumSeq([k \in 1..Len(Data) |-> 1 + 2*Data[k].npos])
=============================================================================

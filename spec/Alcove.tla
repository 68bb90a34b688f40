------------------------------- MODULE Alcove -------------------------------
(* Integrality, alcoves and orbits modulo the root lattice, from pairings with
   coroots only.  An alcove is named by a rational weight gamma: the alcove one
   enters from gamma by a small strictly dominant displacement.  A hyperplane
   is a wall of an alcove when reflecting an interior point in it crosses no
   other hyperplane.  The orbit of gamma under the Weyl group modulo the root
   lattice is grown by the state machine, in coordinates c where an element is
   gamma + SUM c_i alpha_i, c_i taken modulo 1.                              *)
EXTENDS Lin, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.data)
RDs == JsonDeserialize(IOEnv.rds)
VARIABLES d, stage, seen, front
vars == <<d,stage,seen,front>>
E == Data[d]
D == RDs[E.rd]
r == D.rank
N == Len(D.roots) \div 2
ss == Len(D.sroots)
Rt(i) == D.roots[i+N+1]
Co(i) == D.coroots[i+N+1]
Signed == (0-N)..(N-1)
Poss == 0..(N-1)
CartanOf(ro,co) == TLCEval([i \in 1..Len(ro) |-> TLCEval([j \in 1..Len(co) |-> Dot(ro[i],co[j])])])
\* adjugate: M Adj = det; matrices as sequences of rows here
MinorR(M,i,j) == TLCEval([a \in 1..(Len(M)-1) |-> TLCEval([b \in 1..(Len(M)-1) |-> M[IF a < i THEN a ELSE a+1][IF b < j THEN b ELSE b+1]])])
Adj(M) == [i \in 1..Len(M) |-> TLCEval([j \in 1..Len(M) |-> IF Len(M) = 1 THEN 1 ELSE (IF (i+j) % 2 = 0 THEN 1 ELSE -1)*Det(MinorR(M,j,i))])]
DetM(M) == Det(M)
CartT == TLCEval([k \in 1..Len(RDs) |-> TLCEval(CartanOf(RDs[k].sroots,RDs[k].scoroots))])
AdjT == TLCEval([k \in 1..Len(RDs) |-> TLCEval(Adj(CartT[k]))])
DetT == TLCEval([k \in 1..Len(RDs) |-> DetM(CartT[k])])
Cm == CartT[E.rd]
\* row vector times matrix given by rows
RowMul(e,M) == TLCEval([j \in 1..Len(M) |-> Dot(e,[i \in 1..Len(M) |-> M[i][j]])])
Evals(v) == TLCEval([i \in 1..ss |-> Dot(v,D.scoroots[i])])
\* SUM c_i alpha_i
Span(c) == TLCEval([k \in 1..r |-> Dot(c,[i \in 1..ss |-> D.sroots[i][k]])])
\* v is an integer combination of simple roots
InRootLattice(v) == LET c == RowMul(Evals(v),AdjT[E.rd])  dt == DetT[E.rd] IN
   /\ \A i \in 1..ss : c[i] % dt = 0
   /\ Span([i \in 1..ss |-> c[i] \div dt]) = v
\* v is a rational combination of roots
InRootSpan(v) == Span(RowMul(Evals(v),AdjT[E.rd])) = ScaleV(DetT[E.rd],v)

SReflV(s,v) == LET m == TLCEval(Dot(v,D.scoroots[s])) IN TLCEval(SubV(v,ScaleV(m,D.sroots[s])))
\* ---- integrality
IsInt(g,i) == Dot(g.n,Co(i)) % g.d = 0
IntPos(g) == {i \in Poss : IsInt(g,i)}
PosRoot(v) == Dot(v,D.trc) > 0
ReflV(i,v) == LET m == TLCEval(Dot(v,Co(i))) IN TLCEval(SubV(v,ScaleV(m,Rt(i))))
IntSimples(g) == LET I == IntPos(g) IN {i \in I : \A j \in I : j = i \/ PosRoot(ReflV(i,Rt(j)))}
IntDominant(g) == \A i \in IntPos(g) : Dot(g.n,Co(i)) >= 0
Red(a,b) == LET h == GcdI(a,b) IN [n |-> a \div h, d |-> b \div h]
IntPoints(g) == UNION {LET p == AbsI(Dot(g.n,Co(i))) IN IF p = 0 THEN {} ELSE {Red(k*g.d,p) : k \in 1..(p \div g.d)} : i \in Poss}
RLess(a,b) == a.n*b.d < b.n*a.d
IntegralOK == LET g == E.g IN
  /\ Assert(Range(E.simples) = IntSimples(g) /\ Len(E.simples) = Cardinality(IntSimples(g)),<<"integrality_simples",E>>)
  /\ Assert(E.irank = Len(E.simples),<<"integrality_rank",E>>)
  /\ Assert(E.dominant = IntDominant(g),<<"is_integrally_dominant",E>>)
  /\ Assert(Range(E.points) = IntPoints(g) /\ \A j \in 2..Len(E.points) : RLess(E.points[j-1],E.points[j]),<<"integrality_points",E>>)
  /\ Assert({<<E.droots[k],E.dcoroots[k]>> : k \in 1..Len(E.droots)} = {<<Rt(i),Co(i)>> : i \in IntSimples(g)} /\ Len(E.droots) = Len(E.simples),<<"integrality_datum",E>>)

\* ---- alcoves
Interior(g) == LET K == 200*g.d+1 IN [n |-> TLCEval(AddV(ScaleV(K,g.n),ScaleV(g.d,D.tr))), d |-> K*g.d]
Fl(x,i) == Dot(x.n,Co(i)) \div x.d
\* x reflected in the hyperplane co_i = f
AffRefl(x,i,f) == LET m == TLCEval(Dot(x.n,Co(i))-f*x.d) IN [n |-> TLCEval(SubV(x.n,ScaleV(m,Rt(i)))), d |-> x.d]
Crossings(f,y) == SumSeq([k \in 1..N |-> AbsI(f[k]-Fl(y,k-1))])
WallsAt(x) == LET f == TLCEval([k \in 1..N |-> Fl(x,k-1)]) IN
   {i \in Signed : LET y == TLCEval(AffRefl(x,i,Fl(x,i))) IN Crossings(f,y) = 1}
\* connected components and labels
RECURSIVE CompGrow(_,_)
CompGrow(W,S) == LET T == {b \in W : \E a \in S : Dot(Rt(b),Co(a)) # 0} IN IF T \subseteq S THEN S ELSE CompGrow(W,S \cup T)
CompOf(W,a) == CompGrow(W,{a})
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : \A b \in S : a <= b IN <<a>> \o SeqOf(S \ {a})
\* label of each wall: the coprime positive relation between the coroots
CompLabels(q) == LET M == CartanOf([i \in 1..Len(q) |-> Rt(q[i])],[i \in 1..Len(q) |-> Co(q[i])])
                     m == TLCEval([j \in 1..Len(q) |-> IF Len(q) = 1 THEN 1 ELSE AbsI(Det(MinorR(M,1,j)))])
                     h == GcdSeq(m)
                 IN TLCEval([j \in 1..Len(q) |-> m[j] \div h])
Labels(W) == LET S == TLCEval({CompOf(W,a) : a \in W})
                 Q == TLCEval({LET q == TLCEval(SeqOf(C)) IN <<q,CompLabels(q)>> : C \in S})
             IN [a \in W |-> LET e == CHOOSE e \in Q : \E i \in 1..Len(e[1]) : e[1][i] = a IN e[2][CHOOSE i \in 1..Len(e[1]) : e[1][i] = a]]
AlcoveOK == LET g == E.g
                x == TLCEval(Interior(g))
                W == TLCEval(WallsAt(x))
                on == TLCEval({i \in W : Dot(g.n,Co(i)) = Fl(x,i)*g.d})
                lab == TLCEval(Labels(W))
                z == TLCEval(WallsAt(Interior([n |-> ZeroV(r), d |-> 1])))
  IN /\ Assert(Range(E.walls) = W /\ Len(E.walls) = Cardinality(W),<<"walls",W,E>>)
     /\ Assert(E.nint = Cardinality(on) /\ \A j \in 1..E.nint : E.walls[j] \in on,<<"walls through the weight",E>>)
     /\ Assert(\A j \in 2..Len(E.walls) : j = E.nint+1 \/ lab[E.walls[j-1]] >= lab[E.walls[j]],<<"walls by decreasing label",lab,E>>)
     /\ Assert({LET RECURSIVE A(_,_)
                    A(w,v) == IF w = <<>> THEN v ELSE LET s == w[Len(w)]+1 IN A(SubSeq(w,1,Len(w)-1),SReflV(s,v))
                IN A(E.att,Rt(i)) : i \in z} = {Rt(i) : i \in W},<<"walls_attitude",E>>)
     /\ Assert(InRootLattice(E.vertex) /\ \A i \in Poss : LET e == Dot(E.vertex,Co(i)) IN e = Fl(x,i) \/ e = Fl(x,i)+1,<<"alcove_root_vertex",E>>)
\* the special parameter of an alcove
CenterOK == LET g == E.p.nu  h == E.q.nu
                x == TLCEval(Interior(g))
                W == TLCEval(WallsAt(x))
                on == TLCEval({i \in W : Dot(g.n,Co(i)) = Fl(x,i)*g.d})
                lab == TLCEval(Labels(W))
                frac(i) == Dot(h.n,Co(i)) - Fl(x,i)*h.d       \* over h.d
                diff == TLCEval(SubV(ScaleV(h.d,g.n),ScaleV(g.d,h.n)))
  IN /\ Assert(E.q.x = E.p.x /\ E.q.lr = E.p.lr,<<"alcove_center changes x or lambda",E>>)
     /\ Assert(MV(E.theta,diff,r) = NegV(diff),<<"alcove_center leaves the family",E>>)
     /\ Assert(InRootSpan(diff),<<"alcove_center changes central coordinates",E>>)
     /\ Assert(\A i \in on : frac(i) = 0,<<"alcove_center leaves a wall",E>>)
     /\ Assert(\A i \in W \ on : frac(i) > 0 /\ \A j \in (W \ on) \cap CompOf(W,i) : lab[i]*frac(i) = lab[j]*frac(j),<<"alcove_center not balanced",E>>)

\* ---- orbits modulo the root lattice: c over g.d, modulo g.d
G0 == E.g
PairC(g,c,i) == Dot(g.n,D.scoroots[i]) + SumSeq([j \in 1..ss |-> c[j]*Cm[j][i]])
ReflC(g,i,c) == [c EXCEPT ![i] = (c[i]-PairC(g,c,i)) % g.d]
RECURSIVE ActC(_,_,_)
ActC(g,w,c) == IF w = <<>> THEN c ELSE ActC(g,SubSeq(w,1,Len(w)-1),ReflC(g,w[Len(w)]+1,c))
ZeroC == [i \in 1..ss |-> 0]
PointOf(g,c) == TLCEval(AddV(g.n,Span(c)))
\* all points gamma + SUM c_i alpha_i in the fundamental parallelepiped whose
\* class is c
RECURSIVE Choices(_,_)
Choices(f,k) == IF k = 0 THEN {<<>>} ELSE {Append(u,a) : u \in Choices(f,k-1), a \in f[k]}
FppOf(g,c) == LET e0 == [i \in 1..ss |-> PairC(g,c,i) % g.d]
                  cand == Choices([i \in 1..ss |-> IF e0[i] = 0 THEN {0,g.d} ELSE {e0[i]}],ss)
                  base == Evals(g.n)
                  dt == DetT[E.rd]
                  sol(e) == RowMul(SubV(e,base),AdjT[E.rd])
              IN {PointOf(g,[i \in 1..ss |-> sol(e)[i] \div dt]) : e \in {e \in cand : \A i \in 1..ss : sol(e)[i] % dt = 0 /\ (sol(e)[i] \div dt) % g.d = c[i]}}
RECURSIVE ActV(_,_)
ActV(w,v) == IF w = <<>> THEN v ELSE LET s == w[Len(w)]+1 IN ActV(SubSeq(w,1,Len(w)-1),SReflV(s,v))
RECURSIVE FlatN(_,_)
FlatN(q,n) == IF n = 0 THEN <<>> ELSE FlatN(q,n-1) \o q[n]
Flat2(q) == LET t == TLCEval(q) IN TLCEval(FlatN(t,Len(t)))
\* the weight at which the walls E.stab (linearly independent) take their values
\* for the alcove: used when representatives modulo that stabiliser are asked
StabWeight == LET ro == [i \in 1..Len(E.stab) |-> Rt(E.stab[i])]
                  co == [i \in 1..Len(E.stab) |-> Co(E.stab[i])]
                  x == Interior(E.g)
                  M == CartanOf(ro,co)
                  c == TLCEval(RowMul(TLCEval([i \in 1..Len(E.stab) |-> Fl(x,E.stab[i])]),Adj(M)))
              IN [n |-> TLCEval([k \in 1..r |-> Dot(c,[i \in 1..Len(ro) |-> ro[i][k]])]), d |-> DetM(M)]
OrbitOK == LET g == IF E.kind = "coset" THEN StabWeight ELSE E.g
               C == TLCEval([j \in 1..Len(E.ws) |-> ActC(g,E.ws[j],ZeroC)]) IN
  /\ Assert(Range(C) = seen,<<"orbit modulo the root lattice is not complete",E>>)
  /\ Assert(Cardinality(seen) = Len(E.ws),<<"orbit modulo the root lattice has repetitions",E>>)
  /\ E.kind = "orbit" /\ E.alcove =>
       LET P == TLCEval(UNION {FppOf(g,c) : c \in seen})
           T == Flat2([j \in 1..Len(E.sh) |-> LET im == ActV(E.sh[j].w,g.n) IN [k \in 1..Len(E.sh[j].t) |-> AddV(im,ScaleV(g.d,E.sh[j].t[k]))]])
       IN /\ Assert(Range(E.fpp) = P /\ Len(E.fpp) = Cardinality(P),<<"FPP_numers",E>>)
          /\ Assert(Range(T) = P /\ Len(T) = Cardinality(P),<<"FPP_w_shifts",E>>)
          /\ Assert(\A j \in 1..Len(E.sh) : \A k \in 1..Len(E.sh[j].t) : InRootLattice(E.sh[j].t[k]),<<"FPP shifts in the root lattice",E>>)
          /\ Assert(\A j \in 1..Len(E.sh), i \in IntSimples(g) : PosRoot(ActV(E.sh[j].w,Rt(i))),<<"FPP elements are minimal in their coset",E>>)
\* ---- finite subquotients: representatives of <stab,final> modulo <stab>
RECURSIVE OrbV(_,_,_)
OrbV(R,S,f) == IF f = {} THEN S ELSE LET nw == {ReflV(i,v) : i \in R, v \in f} \ S IN OrbV(R,S \cup nw,nw)
FiniteOK == LET comp == CompOf(Range(E.stab) \cup {E.final},E.final)
                q == SeqOf(comp)
                M == CartanOf([i \in 1..Len(q) |-> Rt(q[i])],[i \in 1..Len(q) |-> Co(q[i])])
                p == CHOOSE i \in 1..Len(q) : q[i] = E.final
                row == TLCEval(Adj(M)[p])
                v == [k \in 1..r |-> Dot(row,[i \in 1..Len(q) |-> Rt(q[i])[k]])]
                O == TLCEval(OrbV(comp,{v},{v}))
                T == TLCEval([j \in 1..Len(E.ws) |-> ActV(E.ws[j],v)])
  IN Assert(Range(T) = O /\ Len(T) = Cardinality(O),<<"basic_orbit_ws",E>>)

\* ---- state machine
Base == IF E.kind = "coset" THEN StabWeight ELSE E.g
Init == d \in 1..Len(Data) /\ stage = 0 /\ seen = {} /\ front = {}
Enter == stage = 0 /\ d' = d /\ IF E.kind \in {"orbit","coset"} THEN stage' = 1 /\ seen' = {ZeroC} /\ front' = {ZeroC}
                               ELSE stage' = 2 /\ UNCHANGED <<seen,front>>
Grow == /\ stage = 1 /\ front # {}
        /\ LET g == TLCEval(Base)  nw == {ReflC(g,i,c) : i \in 1..ss, c \in front} \ seen IN front' = nw /\ seen' = seen \cup nw
        /\ UNCHANGED <<d,stage>>
Finish == stage = 1 /\ front = {} /\ stage' = 2 /\ UNCHANGED <<d,seen,front>>
Next == Enter \/ Grow \/ Finish
Spec == Init /\ [][Next]_vars
Agree == stage = 2 => CASE E.kind = "integral" -> IntegralOK
                        [] E.kind = "alcove" -> AlcoveOK
                        [] E.kind = "center" -> CenterOK
                        [] E.kind \in {"orbit","coset"} -> OrbitOK
                        [] E.kind = "finite" -> FiniteOK
Complete == TLCGet("stats").distinct >= 2*Len(Data)
=============================================================================

-------------------------------- MODULE Lin --------------------------------
(* Vectors (sequences of integers), matrices (sequences of columns), rational
   vectors [n |-> numerators, d |-> denominator].                           *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumTo(_,_,_)
SumSeq(f) == LET S[i \in 0..Len(f)] == IF i = 0 THEN 0 ELSE S[i-1] + f[i] IN S[Len(f)]
SumTo(f,i,j) == IF i > j THEN 0 ELSE f[i] + SumTo(f,i+1,j)
Dot(a,b) == LET S[i \in 0..Len(a)] == IF i = 0 THEN 0 ELSE S[i-1] + a[i]*b[i] IN S[Len(a)]
AddV(a,b) == [i \in 1..Len(a) |-> a[i]+b[i]]
SubV(a,b) == [i \in 1..Len(a) |-> a[i]-b[i]]
NegV(a) == [i \in 1..Len(a) |-> -a[i]]
ScaleV(k,a) == [i \in 1..Len(a) |-> k*a[i]]
DivV(a,k) == [i \in 1..Len(a) |-> a[i] \div k]
ZeroV(n) == [i \in 1..n |-> 0]
UnitV(n,k) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
SumV(vs,n) == LET S[i \in 0..Len(vs)] == IF i = 0 THEN ZeroV(n) ELSE AddV(S[i-1],vs[i]) IN S[Len(vs)]
\* linear combination of the vectors vs (in Z^n) with coefficients c
Comb(c,vs,n) == [k \in 1..n |-> Dot(c,[i \in 1..Len(vs) |-> vs[i][k]])]
\* matrix given by columns, applied to a vector; n = number of rows
MV(M,v,n) == Comb(v,M,n)
\* row vector times matrix
VM(v,M) == [j \in 1..Len(M) |-> Dot(v,M[j])]
MM(A,B,n) == [j \in 1..Len(B) |-> MV(A,B[j],n)]
IdM(n) == [j \in 1..n |-> UnitV(n,j)]
TrM(M,n) == [i \in 1..n |-> [j \in 1..Len(M) |-> M[j][i]]]
Range(f) == {f[i] : i \in DOMAIN f}
IsInj(f) == Cardinality(Range(f)) = Len(f)

AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GcdI(_,_)
GcdI(a,b) == IF b = 0 THEN AbsI(a) ELSE GcdI(b,a % AbsI(b))
GcdSeq(s) == LET G[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE GcdI(G[i-1],s[i]) IN G[Len(s)]

\* determinant by expansion along the first column
RECURSIVE Det(_)
Minor(M,i) == [j \in 1..(Len(M)-1) |-> [k \in 1..(Len(M)-1) |-> M[j+1][IF k < i THEN k ELSE k+1]]]
Det(M) == IF Len(M) = 0 THEN 1
          ELSE IF Len(M) = 1 THEN M[1][1]
          ELSE SumSeq([i \in 1..Len(M) |->
                 IF M[1][i] = 0 THEN 0
                 ELSE (IF i % 2 = 1 THEN 1 ELSE -1) * M[1][i] * Det(Minor(M,i))])

\* sequences of k increasing positions out of 1..n
RECURSIVE Subsets(_,_)
Subsets(n,k) == IF k = 0 THEN {<<>>} ELSE IF n < k THEN {}
                ELSE Subsets(n-1,k) \cup { Append(x,n) : x \in Subsets(n-1,k-1) }
RECURSIVE GcdSet(_)
GcdSet(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN GcdI(GcdSet(S \ {x}),x)
\* the columns M (vectors in Z^n) are a basis of a saturated sublattice
MinorOn(M,rows) == [j \in 1..Len(M) |-> [i \in 1..Len(rows) |-> M[j][rows[i]]]]
Saturated(M,n) == Len(M) = 0 \/ GcdSet({Det(MinorOn(M,r)) : r \in Subsets(n,Len(M))}) = 1
\* the columns are linearly independent
Independent(M,n) == Len(M) = 0 \/ \E r \in Subsets(n,Len(M)) : Det(MinorOn(M,r)) # 0

\* rational vectors
RvOk(q) == q.d > 0 /\ GcdI(q.d,GcdSeq(q.n)) = 1
RvEq(a,b) == ScaleV(b.d,a.n) = ScaleV(a.d,b.n)
RvInt(v) == [n |-> v, d |-> 1]
RvAdd(a,b) == [n |-> AddV(ScaleV(b.d,a.n),ScaleV(a.d,b.n)), d |-> a.d*b.d]
RvSub(a,b) == [n |-> SubV(ScaleV(b.d,a.n),ScaleV(a.d,b.n)), d |-> a.d*b.d]
RvNeg(q) == [n |-> ScaleV(-1,q.n), d |-> q.d]
RvNorm(q) == LET g == GcdI(q.d,GcdSeq(q.n)) IN [n |-> DivV(q.n,g), d |-> q.d \div g]

\* ---- root data: reflections
Refl(v,root,coroot) == LET c == Dot(v,coroot) IN IF c = 0 THEN v ELSE SubV(v,ScaleV(c,root))
Corefl(v,root,coroot) == LET c == Dot(v,root) IN IF c = 0 THEN v ELSE SubV(v,ScaleV(c,coroot))

\* Cartan matrices of the simple types: C[i][j] = < alpha_i , alpha_j-check >
CartanEntry(t,n,i,j) ==
  IF i = j THEN 2
  ELSE CASE t = "A" -> IF AbsI(i-j) = 1 THEN -1 ELSE 0
         [] t = "B" -> IF i = n-1 /\ j = n THEN -2 ELSE IF AbsI(i-j) = 1 THEN -1 ELSE 0
         [] t = "C" -> IF i = n /\ j = n-1 THEN -2 ELSE IF AbsI(i-j) = 1 THEN -1 ELSE 0
         [] t = "D" -> IF i <= n-1 /\ j <= n-1 THEN (IF AbsI(i-j) = 1 THEN -1 ELSE 0)
                       ELSE IF {i,j} = {n-2,n} THEN -1 ELSE 0
         [] t = "E" -> IF {i,j} \in {{1,3},{2,4}} \/ (i # 2 /\ j # 2 /\ i >= 3 /\ j >= 3 /\ AbsI(i-j) = 1) THEN -1 ELSE 0
         [] t = "F" -> IF i = 2 /\ j = 3 THEN -2 ELSE IF AbsI(i-j) = 1 THEN -1 ELSE 0
         [] t = "G" -> IF i = 2 /\ j = 1 THEN -3 ELSE -1
\* number of positive roots
NPos(t,n) == CASE t = "T" -> 0 [] t = "A" -> (n*(n+1)) \div 2 [] t \in {"B","C"} -> n*n [] t = "D" -> n*(n-1)
               [] t = "E" -> IF n = 6 THEN 36 ELSE IF n = 7 THEN 63 ELSE 120
               [] t = "F" -> 24 [] t = "G" -> 6
\* a Lie type is a sequence of <<letter,rank>>; positions of the factor starts,
\* in the lattice (torus factors count) and among the simple roots
Start(lt,k) == SumTo([i \in 1..Len(lt) |-> lt[i][2]],1,k-1)
SStart(lt,k) == SumTo([i \in 1..Len(lt) |-> IF lt[i][1] = "T" THEN 0 ELSE lt[i][2]],1,k-1)
SSRank(lt) == SStart(lt,Len(lt)+1)
RankT(lt) == Start(lt,Len(lt)+1)
\* factor and position of the i-th simple root
FactorOf(lt,i) == CHOOSE k \in 1..Len(lt) : lt[k][1] # "T" /\ SStart(lt,k) < i /\ i <= SStart(lt,k)+lt[k][2]
CartanT(lt,i,j) ==
  LET k == FactorOf(lt,i)  m == FactorOf(lt,j)
  IN IF k # m THEN 0 ELSE CartanEntry(lt[k][1],lt[k][2],i-SStart(lt,k),j-SStart(lt,k))
\* coordinate, in the fundamental weight basis with torus coordinates, of simple root i
Coord(lt,i) == LET k == FactorOf(lt,i) IN Start(lt,k) + i - SStart(lt,k)
FundRoot(lt,i) == [c \in 1..RankT(lt) |->
   IF \E j \in 1..SSRank(lt) : Coord(lt,j) = c
   THEN CartanT(lt,i,CHOOSE j \in 1..SSRank(lt) : Coord(lt,j) = c) ELSE 0]
=============================================================================

---------------------------- MODULE LinAlgTrace ----------------------------
(* Recorded questions to the linear algebra functions, with their answers, meet the contracts of LinAlg
   (integer records) and F2 (binary records). *)
EXTENDS LinAlg, IOUtils, Json
F == INSTANCE F2
Data == JsonDeserialize(IOEnv.data)

IntOps == {"gcd", "bezout", "echelon", "esolve", "diag", "adapted", "smith", "kernel", "eigen", "perp", "saturate", "inverse", "integral", "solve", "triangular", "base", "affine"}
IntOK(e) ==
  CASE e.op = "gcd" -> IsGcd(e.v, e.d)
    [] e.op = "bezout" -> IsBezout(e.v, e.d, e.C, e.s, e.dest)
    [] e.op = "echelon" -> IsEchelon(e.A, e.E, e.C, e.piv, e.s)
    [] e.op = "esolve" -> IsEchelonSolution(e.A, e.E, e.b, e.x, e.f)
    [] e.op = "diag" -> IsDiagonalisation(e.A, e.R, e.C, e.d)
    [] e.op = "adapted" -> IsAdapted(e.A, e.B, e.d)
    [] e.op = "smith" -> IsSmith(e.A, e.B, e.d)
    [] e.op = "kernel" -> IsKernel(e.A, e.K)
    [] e.op = "eigen" -> IsEigen(e.A, e.l, e.K)
    [] e.op = "perp" -> IsPerp(e.A, e.K)
    [] e.op = "saturate" -> IsRowSaturation(e.A, e.S)
    [] e.op = "inverse" -> IsInverse(e.A, e.B, e.f)
    [] e.op = "integral" -> IsIntegralInverse(e.A, e.B, e.ok)
    [] e.op = "solve" -> IsSolution(e.A, e.b, e.has, e.x, e.ok)
    [] e.op = "triangular" -> IsProd(e.A, e.B, Ident(e.A.r))
    [] e.op = "base" -> e.X = e.Y
    [] e.op = "affine" -> IsAffine(e.A, e.b, e.x, e.f, e.K)

V(s) == F!Set(s)
Vs(L) == F!Vecs(L)
\* list of positions is increasing (no stray bits)
Proper(v, n) == \A i \in 1..Len(v) : v[i] >= 0 /\ v[i] < n
ProperL(L, n) == \A i \in 1..Len(L) : Proper(L[i], n)
\* Gauss-Jordan basis L of the span B
SortedBasis(L, B) == Vs(L) = F!Sorted(B)
IsSub(S, Ss, Sn, n, B) == SortedBasis(S, B) /\ V(Ss) = F!Leads(B) /\ Sn = <<n, Cardinality(B)>>
MulF(A, B) == [j \in 1..Len(B) |-> F!Apply(A, B[j])]
Odd(Z) == [j \in 1..Cols(Z) |-> {i \in 0..(Z.r - 1) : Z.c[j][i + 1] % 2 = 1}]
Bits(Z) == \A j \in 1..Cols(Z) : \A i \in 1..Z.r : Z.c[j][i] \in {0, 1}
BinOK(e) ==
  CASE e.op = "image" -> F!IsBasis(Vs(e.L), F!Span(Vs(e.A.c))) /\ ProperL(e.L, e.n)
    [] e.op = "bkernel" -> LET A == Vs(e.A.c) K == Vs(e.L) IN
         /\ \A i \in 1..Len(K) : F!Apply(A, K[i]) = {}
         /\ ProperL(e.L, Len(A)) /\ Len(K) = Len(A) - Cardinality(F!Span(A)) /\ Cardinality(F!Span(K)) = Len(K)
    [] e.op = "transposed" -> LET T == F!TranspF(Vs(e.A.c), e.A.r) IN e.B.r = Len(e.A.c) /\ Vs(e.B.c) = T /\ Vs(e.L) = T
    [] e.op = "section" -> LET A == Vs(e.A.c) B == Vs(e.B.c) IN
         /\ e.B.r = Len(A) /\ Len(B) = e.A.r /\ ProperL(e.B.c, Len(A))
         /\ MulF(A, MulF(B, A)) = A /\ MulF(B, MulF(A, B)) = B
    [] e.op = "product" -> e.C.r = e.A.r /\ Vs(e.C.c) = MulF(Vs(e.A.c), Vs(e.B.c))
    \* subspace_normal of axis: integer matrices with entries 0 and 1
    [] e.op = "normal" -> LET A == Odd(e.A) S == F!Span(A) B == Odd(e.B) C == Odd(e.C) R == Odd(e.R) IN
         /\ Bits(e.B) /\ Bits(e.C) /\ Bits(e.R) /\ e.B.r = e.A.r /\ e.C.r = Len(A) /\ e.R.r = Len(A)
         /\ B = F!Sorted(S) /\ MulF(A, C) = B /\ e.piv = [j \in 1..Len(B) |-> F!Lead(B[j])]
         /\ Len(R) = Len(A) - Len(B) /\ Cardinality(F!Span(R)) = Len(R) /\ \A j \in 1..Len(R) : F!Apply(A, R[j]) = {}
    [] e.op = "isection" -> LET A == Odd(e.A) B == Odd(e.B) IN
         IF e.A.r > 32 \/ Len(A) > 32 THEN e.refused = 1      \* beyond the capacity of the library
         ELSE /\ Bits(e.B) /\ e.B.r = Len(A) /\ Len(B) = e.A.r /\ e.refused = 0
         /\ MulF(A, MulF(B, A)) = A /\ MulF(B, MulF(A, B)) = B
    [] e.op = "sum" -> e.C.r = e.A.r /\ Vs(e.C.c) = [j \in 1..Len(e.A.c) |-> F!Xor(V(e.A.c[j]), V(e.B.c[j]))]
    [] e.op = "act" -> LET A == Vs(e.A.c) w == V(e.w) wA == {j \in 0..(Len(A) - 1) : F!Dot2(w, A[j + 1]) = 1} IN
         V(e.av) = F!Apply(A, V(e.v)) /\ V(e.wa) = wA /\ V(e.wb) = wA
    [] e.op = "subspace" -> IsSub(e.S, e.Ss, e.Sn, e.n, F!Span(Vs(e.L)))
    [] e.op = "perpendicular" -> LET B == F!Span(Vs(e.L)) P == Vs(e.P) free == (0..(e.n - 1)) \ F!Leads(B) IN
         /\ V(e.ps) = free /\ Len(P) = Cardinality(free)
         /\ \A i \in 1..Len(P) : P[i] \cap free = {F!Nth(free, i - 1)} /\ \A b \in B : F!Dot2(b, P[i]) = 0
         /\ ProperL(e.P, e.n)
    [] e.op = "member" -> LET B == F!Span(Vs(e.L)) v == V(e.v) IN
         /\ (e.in = 1) = F!In(B, v) /\ e.all = e.in
         /\ V(e.rep) = F!Red(B, v) /\ e.red = e.rep
         /\ e.in = 1 => V(e.co) = F!Squeeze(v, F!Leads(B)) /\ V(e.back) = v
    [] e.op = "applied" -> IsSub(e.S, e.Ss, e.Sn, e.A.r, F!Span(MulF(Vs(e.A.c), Vs(e.L))))
    [] e.op = "quotient" -> LET BL == F!Span(Vs(e.L)) BD == F!Span(Vs(e.D)) Q == F!QuoLeads(BL, BD) IN
         /\ e.dim = Cardinality(Q) /\ e.size = 2 ^ e.dim /\ e.rank = e.n
         /\ V(e.bits) = Q /\ V(e.sup) = F!Squeeze(Q, F!Leads(BL))
         /\ SortedBasis(e.B, {b \in BL : F!Lead(b) \in Q})
         /\ V(e.red) = F!Red(BD, V(e.v)) /\ V(e.co) = F!QuoCoord(BL, BD, V(e.v))
         /\ V(e.ext) = F!XorSet({b \in BL : F!Lead(b) \in F!Spread(V(e.c), Q)}) /\ e.cc = e.c
    [] e.op = "qapplied" -> LET A == Vs(e.A.c) BL == F!Span(MulF(A, Vs(e.L))) BD == F!Span(MulF(A, Vs(e.D))) IN
         /\ IsSub(e.S, e.Ss, e.Sn, e.A.r, BL) /\ IsSub(e.T, e.Ts, e.Tn, e.A.r, BD)
         /\ V(e.sup) = F!Squeeze(F!QuoLeads(BL, BD), F!Leads(BL))
    [] e.op = "qmap" -> LET A == Vs(e.A.c) BL == F!Span(Vs(e.L)) BD == F!Span(Vs(e.D)) CL == F!Span(Vs(e.DL)) CD == F!Span(Vs(e.DD))
                            base == F!Sorted({b \in BL : F!Lead(b) \in F!QuoLeads(BL, BD)}) IN
         e.F.r = Cardinality(F!QuoLeads(CL, CD)) /\ Vs(e.F.c) = [j \in 1..Len(base) |-> F!QuoCoord(CL, CD, F!Apply(A, base[j]))]
    [] e.op = "combine" -> LET L == Vs(e.L) IN
         IF F!In(F!Span(L), V(e.v)) THEN e.in = 1 /\ Proper(e.c, Len(L)) /\ F!Apply(L, V(e.c)) = V(e.v) ELSE e.in = 0 /\ e.c = e.old
    [] e.op = "solvable" -> LET L == Vs(e.L) T == F!TranspF(L, e.u) IN
         IF F!In(F!Span(T), V(e.rhs)) THEN e.ok = 1 /\ e.xs = e.u /\ Proper(e.x, e.u) /\ F!Apply(T, V(e.x)) = V(e.rhs) ELSE e.ok = 0
    [] e.op = "gauss" -> LET B == F!Span(Vs(e.L)) IN SortedBasis(e.G, B) /\ V(e.t) = F!Leads(B)
    [] e.op = "spanadd" -> LET L == Vs(e.L) B == F!Span(L) a == Vs(e.a) b == Vs(e.b) IN
         /\ F!IsBasis(a, B) /\ \A i \in 1..Len(a) : a[i] \in B
         /\ Len(e.fa) = Len(a) /\ \A i \in 1..Len(a) : e.fa[i] = F!Lead(a[i])
         /\ F!IsBasis(b, B) /\ Len(e.fb) = Len(b) /\ \A i \in 1..Len(b) : e.fb[i] = F!Lead(b[i])
    [] e.op = "vectors" -> LET v == V(e.v) w == V(e.w) n == e.n IN
         /\ V(e.sum) = F!Xor(v, w) /\ e.dif = e.sum /\ e.dot = F!Dot2(v, w)
         /\ e.first = (IF v = {} THEN -1 ELSE F!Lead(v)) /\ e.count = Cardinality(v)
         /\ e.zero = (IF v = {} THEN 1 ELSE 0) /\ e.eq = (IF v = w THEN 1 ELSE 0)
         /\ V(e.zz) = {i \in 0..(n - 1) : e.z[i + 1] % 2 = 1}
         /\ e.lift = [i \in 1..n |-> IF (i - 1) \in v THEN 1 ELSE 0]
         /\ V(e.and) = v \cap w /\ V(e.slice) = F!Squeeze(v, w) /\ e.sn = Cardinality(w)
         /\ V(e.unslice) = F!Spread(V(e.u), w) /\ e.un = n
         /\ V(e.push) = v \cup (IF e.bit = 1 THEN {n} ELSE {}) /\ e.pn \in {n, n + 1}
    [] e.op = "reduce" -> LET A == Vs(e.A.c) B == Vs(e.B.c) bit(i, j) == i = e.i /\ j = e.l IN
         /\ e.A.r = e.Z.r /\ A = [j \in 1..Cols(e.Z) |-> {i \in 0..(e.Z.r - 1) : e.Z.c[j][i + 1] % 2 = 1}]
         /\ e.B.r = e.A.r /\ Len(B) = Len(A) + 1
         /\ LET C == [j \in 1..(Len(A) + 1) |-> IF j > Len(A) THEN V(e.v) ELSE IF j = e.j + 1 THEN F!Xor(A[j], V(e.v)) ELSE A[j]]
            IN B = [j \in 1..(Len(A) + 1) |-> IF j = e.l + 1 THEN (IF e.b = 1 THEN C[j] \cup {e.i} ELSE C[j] \ {e.i}) ELSE C[j]]
OK(e) == IF e.op \in IntOps THEN IntOK(e) ELSE BinOK(e)

VARIABLES n, ok
Init == n \in 1..Len(Data) /\ ok = OK(Data[n])
Next == UNCHANGED <<n, ok>>
Spec == Init /\ [][Next]_<<n, ok>>
Holds == Assert(ok, <<"record", n, Data[n]>>)
=============================================================================

------------------------------- MODULE LinAlg -------------------------------
(* Linear algebra over the integers, for matrices [r |-> rows, c |-> sequence of columns].
   Lattices are kept as a basis in echelon form: a function from row indices to columns (<<>> where
   there is none), whose column at i ends in row i with a positive entry; Hermite reduction keeps the
   entries small.  Determinants and products of matrices that may have large entries are computed
   modulo two primes. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
Primes == {30011, 32003}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GcdI(_, _)
GcdI(a, b) == IF b = 0 THEN AbsI(a) ELSE GcdI(b, AbsI(a) % AbsI(b))
GcdSeq(v) == FoldLeft(LAMBDA a, x: GcdI(a, x), 0, v)
ZeroV(n) == [i \in 1..n |-> 0]
IsZero(v) == \A i \in 1..Len(v) : v[i] = 0
LastNZ(v) == MaxOf({i \in 1..Len(v) : v[i] # 0})
VSub(v, q, w) == [i \in 1..Len(v) |-> v[i] - q * w[i]]
VNeg(v) == [i \in 1..Len(v) |-> -v[i]]
Entry(A, i, j) == A.c[j][i]
Cols(A) == Len(A.c)
WellFormed(A) == A.r >= 0 /\ \A j \in 1..Cols(A) : Len(A.c[j]) = A.r
Ident(n) == [r |-> n, c |-> [j \in 1..n |-> [i \in 1..n |-> IF i = j THEN 1 ELSE 0]]]
Transp(A) == [r |-> Cols(A), c |-> [i \in 1..A.r |-> [j \in 1..Cols(A) |-> A.c[j][i]]]]
FromCols(r, cs) == [r |-> r, c |-> cs]
(* ---- lattices *)
RECURSIVE PutIn(_, _)
RedAt(B, v, i) == IF B[i] = <<>> THEN v ELSE VSub(v, v[i] \div B[i][i], B[i])
Reduce(B, v) == FoldLeft(LAMBDA w, k: RedAt(B, w, Len(v) + 1 - k), v, [k \in 1..Len(v) |-> k])
PutIn(B, v0) ==
  LET v == Reduce(B, v0)
  IN IF IsZero(v) THEN B
     ELSE LET p == LastNZ(v)
          IN IF B[p] = <<>>
             THEN LET w == Reduce(B, IF v[p] > 0 THEN v ELSE VNeg(v)) IN [B EXCEPT ![p] = w]
             ELSE PutIn([B EXCEPT ![p] = v], B[p])     \* 0 < v[p] < B[p][p]
EmptyL(n) == [i \in 1..n |-> <<>>]
Lattice(A) == FoldLeft(LAMBDA B, v: PutIn(B, v), EmptyL(A.r), A.c)
InL(B, v) == IsZero(Reduce(B, v))
RankL(B) == Cardinality({i \in DOMAIN B : B[i] # <<>>})
Rank(A) == RankL(Lattice(A))
FullL(B) == \A i \in DOMAIN B : B[i] # <<>> /\ B[i][i] = 1
SubL(A, B) == LET L == Lattice(B) IN \A j \in 1..Cols(A) : InL(L, A.c[j])
SameL(A, B) == A.r = B.r /\ SubL(A, B) /\ SubL(B, A)
\* columns of A form a basis of a direct summand: the rows generate everything
Summand(A) == FullL(Lattice(Transp(A)))
(* ---- products and determinants modulo p *)
Dot(p, u, v) == FoldLeft(LAMBDA s, k: (s + ((u[k] % p) * (v[k] % p))) % p, 0, [k \in 1..Len(u) |-> k])
RowOf(A, i) == [j \in 1..Cols(A) |-> A.c[j][i]]
MulP(p, A, B) == [j \in 1..Cols(B) |-> [i \in 1..A.r |-> Dot(p, RowOf(A, i), B.c[j])]]
ModP(p, A) == [j \in 1..Cols(A) |-> [i \in 1..A.r |-> A.c[j][i] % p]]
\* A B = C
IsProd(A, B, C) == /\ Cols(A) = B.r /\ C.r = A.r /\ Cols(C) = Cols(B)
                   /\ \A p \in Primes : MulP(p, A, B) = ModP(p, C)
IsProd3(A, B, C, D) == /\ Cols(A) = B.r /\ Cols(B) = C.r /\ D.r = A.r /\ Cols(D) = Cols(C)
                       /\ \A p \in Primes : MulP(p, FromCols(A.r, MulP(p, A, B)), C) = ModP(p, D)
IsImage(A, x, b) == Cols(A) = Len(x) /\ A.r = Len(b) /\ \A p \in Primes : \A i \in 1..A.r : Dot(p, RowOf(A, i), x) = b[i] % p
RECURSIVE DetP(_, _)
\* development along the first column
DetP(p, cs) ==
  IF cs = <<>> THEN 1
  ELSE LET n == Len(cs)
           minor(i) == [j \in 1..(n - 1) |-> [k \in 1..(n - 1) |-> cs[j + 1][IF k < i THEN k ELSE k + 1]]]
       IN FoldLeft(LAMBDA s, i: IF cs[1][i] = 0 THEN s
                                ELSE (s + (((IF i % 2 = 1 THEN 1 ELSE p - 1) * cs[1][i]) % p) * DetP(p, minor(i))) % p,
                   0, [i \in 1..n |-> i])
DetIs(A, d) == A.r = Cols(A) /\ \A p \in Primes : DetP(p, ModP(p, A)) = d % p
Unimod(A) == DetIs(A, 1) \/ DetIs(A, -1)
Diag(r, c, d) == [r |-> r, c |-> [j \in 1..c |-> [i \in 1..r |-> IF i = j /\ j <= Len(d) THEN d[j] ELSE 0]]]
Extend(A, n) == FromCols(A.r, A.c \o [k \in 1..(n - Cols(A)) |-> ZeroV(A.r)])
(* ---- the contracts *)
IsGcd(v, d) == d = GcdSeq(v)
IsBezout(v, d, C, s, dest) ==
  /\ d = GcdSeq(v)
  /\ (IF s = 0 THEN Unimod(C) ELSE DetIs(C, s)) /\ C.r = Len(v)    \* s=0: sign not told
  /\ \A p \in Primes : \A j \in 1..Len(v) : Dot(p, v, C.c[j]) = IF j = dest + 1 THEN d % p ELSE 0
\* A C = [E | 0] with E in echelon form, pivots at the (0-based) rows piv
EchelonForm(E, piv) ==
  /\ WellFormed(E) /\ Cols(E) = Len(piv)
  /\ \A j \in 1..Len(piv) : /\ 0 <= piv[j] /\ piv[j] < E.r /\ E.c[j][piv[j] + 1] > 0
                            /\ \A i \in (piv[j] + 2)..E.r : E.c[j][i] = 0
                            /\ j > 1 => piv[j - 1] < piv[j]
IsEchelon(A, E, C, piv, s) ==
  /\ EchelonForm(E, piv) /\ Cols(E) <= Cols(A)
  /\ DetIs(C, s) /\ IsProd(A, C, Extend(E, Cols(A)))
\* the solution x/f of E x = b of least denominator; none (f = 0) when b is outside the span
IsEchelonSolution(A, E, b, x, f) ==
  IF f = 0 THEN LET L == Lattice(A) IN RankL(PutIn(L, b)) = RankL(L) + 1
  ELSE /\ f > 0 /\ Len(x) = Cols(E) /\ GcdI(GcdSeq(x), f) = 1
       /\ \A p \in Primes : \A i \in 1..E.r : Dot(p, RowOf(E, i), x) = ((f % p) * (b[i] % p)) % p
IsDiagonalisation(A, R, C, d) ==
  /\ DetIs(R, 1) /\ DetIs(C, 1) /\ Len(d) = Rank(A)
  /\ \A i \in 1..Len(d) : d[i] # 0 /\ (i > 1 => d[i] > 0)
  /\ IsProd3(R, A, C, Diag(A.r, Cols(A), d))
\* index of a lattice in the lattice of integer points of its rational span
Index(L) == LET basis == SelectSeq(L, LAMBDA v: v # <<>>)
                M == Lattice(Transp(FromCols(Len(L), basis)))
            IN FoldLeft(LAMBDA a, v: a * v[LastNZ(v)], 1, M)
IsAdapted(A, B, d) ==
  LET L == Lattice(A)
      BD(j) == LET b == Reduce(L, B.c[j]) IN [i \in 1..A.r |-> d[j] * b[i]]    \* d_j times column j, modulo L
  IN /\ Unimod(B) /\ B.r = A.r /\ Len(d) = RankL(L) /\ \A i \in 1..Len(d) : d[i] > 0
     /\ \A j \in 1..Len(d) : InL(L, BD(j))
     /\ FoldLeft(LAMBDA a, x: a * x, 1, d) = Index(L)
IsSmith(A, B, d) == IsAdapted(A, B, d) /\ \A i \in 2..Len(d) : d[i] % d[i - 1] = 0
IsKernel(A, K) == /\ WellFormed(K) /\ K.r = Cols(A) /\ Cols(K) = Cols(A) - Rank(A) /\ Summand(K)
                  /\ IsProd(A, K, FromCols(A.r, [j \in 1..Cols(K) |-> ZeroV(A.r)]))
\* all rational solutions of A x = b: x/f of least denominator, and a basis K of the kernel
IsAffine(A, b, x, f, K) ==
  LET L == Lattice(A)
  IN IF f = 0 THEN RankL(PutIn(L, b)) = RankL(L) + 1
     ELSE /\ IsKernel(A, K) /\ Len(x) = Cols(A) /\ f > 0
          /\ \A p \in Primes : \A i \in 1..A.r : Dot(p, RowOf(A, i), x) = ((f % p) * (b[i] % p)) % p
          /\ \A q \in {k \in 2..f : f % k = 0} : ~ InL(L, [i \in 1..A.r |-> (f \div q) * b[i]])
Shift(A, l) == FromCols(A.r, [j \in 1..Cols(A) |-> [i \in 1..A.r |-> A.c[j][i] - IF i = j THEN l ELSE 0]])
IsEigen(A, l, K) == IsKernel(Shift(A, l), K)
IsPerp(A, K) == IsKernel(Transp(A), K)
IsRowSaturation(A, S) == /\ Cols(S) = Cols(A) /\ S.r = Rank(A) /\ Summand(Transp(S))
                         /\ \A i \in 1..A.r : RankL(PutIn(Lattice(Transp(S)), RowOf(A, i))) = S.r
IsInverse(A, B, f) ==
  IF A.r = 0 THEN B.r = 0 /\ f = 1
  ELSE IF Rank(A) < A.r THEN f = 0
  ELSE /\ f > 0 /\ B.r = A.r /\ GcdI(GcdSeq([j \in 1..Cols(B) |-> GcdSeq(B.c[j])]), f) = 1
       /\ IsProd(A, B, Diag(A.r, A.r, [i \in 1..A.r |-> f]))
IsIntegralInverse(A, B, ok) == IF Unimod(A) THEN ok = 1 /\ IsProd(A, B, Ident(A.r)) ELSE ok = 0
IsSolution(A, b, has, x, ok) == IF InL(Lattice(A), b) THEN has = 1 /\ ok = 1 /\ IsImage(A, x, b) ELSE has = 0 /\ ok = 0
=============================================================================

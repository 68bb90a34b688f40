--------------------------------- MODULE F2 ---------------------------------
(* Linear algebra over the field of two elements.  A vector is the set of positions of its bits; a
   linear map is a sequence of vectors (its columns); a subspace is its reduced echelon basis: a set of
   vectors, each with a first position that occurs in no other. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
Xor(a, b) == (a \ b) \cup (b \ a)
Set(s) == {s[i] : i \in 1..Len(s)}
Vecs(L) == [i \in 1..Len(L) |-> Set(L[i])]
Lead(v) == CHOOSE x \in v : \A y \in v : x <= y
XorAll(L) == FoldLeft(LAMBDA a, b: Xor(a, b), {}, L)
XorSet(S) == {x \in UNION S : Cardinality({v \in S : x \in v}) % 2 = 1}
Red(B, v) == Xor(v, XorSet({b \in B : Lead(b) \in v}))
Grow(B, v) == LET w == Red(B, v)
              IN IF w = {} THEN B ELSE {IF Lead(w) \in b THEN Xor(b, w) ELSE b : b \in B} \cup {w}
Span(L) == FoldLeft(LAMBDA B, v: Grow(B, v), {}, L)
In(B, v) == Red(B, v) = {}
Leads(B) == {Lead(b) : b \in B}
\* the basis in the order of leading positions
Sorted(B) == SetToSortSeq(B, LAMBDA a, b: Lead(a) < Lead(b))
IsBasis(L, B) == Len(L) = Cardinality(B) /\ Span(L) = B
\* image of a vector, given by positions 0.., under columns
Apply(A, v) == XorAll([i \in 1..Len(A) |-> IF (i - 1) \in v THEN A[i] ELSE {}])
Dot2(a, b) == Cardinality(a \cap b) % 2
TranspF(A, rows) == [i \in 1..rows |-> {j \in 0..(Len(A) - 1) : (i - 1) \in A[j + 1]}]
\* position of x among the elements of the set S of numbers
Pos(S, x) == Cardinality({y \in S : y < x})
Nth(S, k) == CHOOSE x \in S : Pos(S, x) = k
Squeeze(v, S) == {Pos(S, x) : x \in v \cap S}
Spread(v, S) == {x \in S : Pos(S, x) \in v}
(* subquotient L/D: vectors of the span of L modulo those of D; standard representatives are reduced
   modulo D, and a basis of the quotient consists of the canonical basis vectors of L whose leading
   position is not one of D's *)
QuoLeads(BL, BD) == Leads(BL) \ Leads(BD)
QuoCoord(BL, BD, v) == Squeeze(Red(BD, v), QuoLeads(BL, BD))
=============================================================================

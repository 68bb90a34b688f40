--------------------------------- MODULE KL ---------------------------------
(* Kazhdan-Lusztig-Vogan polynomials of a block.  A block is given by descent
   statuses, cross actions, Cayley transforms and lengths; the Hecke algebra
   generators T_s act on the free Z[q]-module on its elements.  With
   C_y = SUM P_{x,y} x the family P is characterised by
   (0) P_{y,y}=1, P_{x,y}=0 unless x<=y, 2 deg P_{x,y} < l(y)-l(x) for x<y;
   (1) T_s C_y = q C_y for every descent s of y;
   (2) (T_s+1) C_y = SUM C_z over the z above y by s
         + SUM mu(z,y) q^{(l(y)-l(z)+1)/2} C_z over z<y with descent s
       for every s that is not a descent of y.
   The exploration visits every element y of every recorded block.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.data)
VARIABLES d, y, ideal
vars == <<d,y,ideal>>
View == <<d,y>>

D == Data[d]
B == Len(D.len)
ns == Len(D.st[1])
L(x) == D.len[x]
St(x,s) == D.st[x][s]       \* 0 C-,1 ic,2 r1,3 r2,4 C+,5 rn,6 i1,7 i2
Cr(x,s) == D.cross[x][s]+1
Ca(x,s) == D.cay[x][s]      \* sequence of Cayley or inverse Cayley transforms
IsDesc(x,s) == St(x,s) < 4
Range(q) == {q[i] : i \in DOMAIN q}

\* polynomials: sequences of coefficients, no trailing zeros
RECURSIVE Trim(_)
Trim(p) == IF p = <<>> \/ p[Len(p)] # 0 THEN p ELSE Trim(SubSeq(p,1,Len(p)-1))
Max(a,b) == IF a < b THEN b ELSE a
At(p,i) == IF i \in 1..Len(p) THEN p[i] ELSE 0
Add(p,q) == IF p = <<>> THEN q ELSE IF q = <<>> THEN p ELSE Trim([i \in 1..Max(Len(p),Len(q)) |-> At(p,i)+At(q,i)])
Scale(c,p) == IF c = 0 THEN <<>> ELSE [i \in 1..Len(p) |-> c*p[i]]
Sub(p,q) == IF q = <<>> THEN p ELSE Trim([i \in 1..Max(Len(p),Len(q)) |-> At(p,i)-At(q,i)])
Shift(n,p) == IF p = <<>> THEN p ELSE [i \in 1..(n+Len(p)) |-> IF i <= n THEN 0 ELSE p[i-n]]
Q(p) == Shift(1,p)
Mul(p,q) == IF p = <<>> \/ q = <<>> THEN <<>>
            ELSE LET RECURSIVE F(_)
                     F(i) == IF i > Len(p) THEN <<>> ELSE Add(Scale(p[i],Shift(i-1,q)),F(i+1))
                 IN Trim(F(1))
Q1(p) == Sub(Q(p),p)

PP(M,x,z) == M.polys[M.mat[x][z]+1]
P(x,z) == IF x > z THEN <<>> ELSE PP(D.kl,x,z)
\* coefficient of x in T_s applied to SUM p[x] x
RECURSIVE SumP(_,_)
SumP(f,n) == IF n = 0 THEN <<>> ELSE Add(f[n],SumP(f,n-1))
CaSum(x,s,z) == SumP([i \in 1..Len(Ca(x,s)) |-> P(Ca(x,s)[i]+1,z)],Len(Ca(x,s)))
TC(s,x,z) ==
  LET st == St(x,s) IN
  CASE st = 1 -> Q(P(x,z))
    [] st = 5 -> Scale(-1,P(x,z))
    [] st = 4 -> Q(P(Cr(x,s),z))
    [] st = 0 -> Add(Q1(P(x,z)),P(Cr(x,s),z))
    [] st = 6 -> Add(P(Cr(x,s),z),Q1(CaSum(x,s,z)))
    [] st = 2 -> Add(Sub(Q1(P(x,z)),P(x,z)),CaSum(x,s,z))
    [] st = 7 -> Add(P(x,z),Q1(CaSum(x,s,z)))
    [] st = 3 -> Add(Sub(Q1(P(x,z)),P(Cr(x,s),z)),CaSum(x,s,z))
MuCoef(x,z) == IF x < z /\ (L(z)-L(x)) % 2 = 1 THEN At(P(x,z),(L(z)-L(x)-1) \div 2 + 1) ELSE 0
Above(z,s) == CASE St(z,s) = 4 -> {Cr(z,s)} [] St(z,s) = 5 -> {} [] OTHER -> {c+1 : c \in Range(Ca(z,s))}
RECURSIVE SumSeqP(_)
SumSeqP(q) == IF q = <<>> THEN <<>> ELSE Add(Head(q),SumSeqP(Tail(q)))

\* Bruhat order, generated by strict good descents (complex, or real with two
\* inverse Cayley transforms); see ParamBlock
Sat(x,s) == {x,Cr(x,s)} \cup {c+1 : c \in Range(Ca(x,s))} \cup
            (IF St(x,s) = 2 THEN {Cr(c+1,s) : c \in Range(Ca(x,s))} ELSE {})
Down(x,s) == IF St(x,s) = 0 THEN {Cr(x,s)} ELSE {c+1 : c \in Range(Ca(x,s))}
RECURSIVE Ideals(_)
Ideals(seq) == LET n == Len(seq)+1  G == {s \in 1..ns : St(n,s) \in {0,2}} IN
  IF n > B THEN seq
  ELSE Ideals(Append(seq,
     IF G = {} THEN {n} \cup UNION {seq[Ca(n,s)[1]+1] : s \in {u \in 1..ns : St(n,u) = 3}}
     ELSE LET s == CHOOSE s \in G : TRUE
              S == UNION {Sat(c,s) : c \in UNION {seq[e] : e \in Down(n,s)}}
          IN {n} \cup UNION {seq[c] : c \in S \ {n}}))

Init == d \in 1..Len(Data) /\ y = 0 /\ ideal = <<>>
Next == y = 0 /\ d' = d /\ y' \in 1..B /\ ideal' = Ideals(<<>>)
Spec == Init /\ [][Next]_vars

Unitriangular ==
  /\ P(y,y) = <<1>>
  /\ D.kl.mat[y][y] = 1
  /\ \A x \in 1..B : LET p == D.kl.polys[D.kl.mat[x][y]+1] IN
       /\ x \notin ideal[y] => p = <<>>
       /\ x # y => 2*(Len(p)-1) < L(y)-L(x) \/ p = <<>>
       /\ p = Trim(p) /\ \A i \in 1..Len(p) : p[i] >= 0
Eigen == \A s \in 1..ns : IsDesc(y,s) => \A x \in ideal[y] : TC(s,x,y) = Q(P(x,y))
\* elements that can occur in T_s C_y and in the right hand side
Recursion == \A s \in 1..ns : ~IsDesc(y,s) =>
  LET up == Above(y,s)
      zs == SelectSeq([i \in 1..(y-1) |-> i],LAMBDA z : z \in ideal[y] /\ IsDesc(z,s) /\ MuCoef(z,y) # 0)
      us == SelectSeq([i \in 1..B |-> i],LAMBDA u : u \in up)
  IN \A x \in (UNION {ideal[u] : u \in up}) \cup ideal[y] :
       Add(TC(s,x,y),P(x,y)) =
       Add(SumSeqP([i \in 1..Len(us) |-> P(x,us[i])]),
           SumSeqP([i \in 1..Len(zs) |-> Scale(MuCoef(zs[i],y),Shift((L(y)-L(zs[i])+1) \div 2,P(x,zs[i])))]))

\* ---- dual block: inverse matrix up to sign
Inverse(M,low) ==
  \A x \in 1..B :
     SumSeqP([i \in 1..B |-> LET p == P(x,i)
                                 m == IF low THEN PP(M,y,i) ELSE PP(M,i,y)
                             IN IF p = <<>> \/ m = <<>> THEN <<>>
                                ELSE Scale(IF (L(i)-L(x)) % 2 = 0 THEN 1 ELSE -1,Mul(p,m))])
     = (IF x = y THEN <<1>> ELSE <<>>)
DualOK == "dual" \in DOMAIN D =>
          /\ D.dual.polys[1] = <<>>
          /\ Inverse(D.dual,FALSE)
          /\ \A x \in 1..B : x \notin ideal[y] => PP(D.dual,x,y) = <<>>
\* ---- printed forms
Primitive(x,z) == \A s \in 1..ns : IsDesc(z,s) => St(x,s) \in {0,1,2,3,7}
PrintOK == "print" \in DOMAIN D =>
  /\ LET R == D.print[y] IN     \* pairs (x,polynomial), increasing
     /\ \A i \in 1..Len(R) : P(R[i].x+1,y) = R[i].p /\ R[i].p # <<>> /\ (i = 1 \/ R[i-1].x < R[i].x)
     /\ Len(R) = Cardinality({x \in 1..y : P(x,y) # <<>>})
  /\ LET R == D.prim[y]
         S == {x \in ideal[y] : x = y \/ Primitive(x,y)} IN
     /\ \A i \in 1..Len(R) : P(R[i].x+1,y) = R[i].p /\ (i = 1 \/ R[i-1].x < R[i].x)
     /\ {R[i].x+1 : i \in 1..Len(R)} = S
\* ---- blocks of parameters: element i is position i of the full list, kl has
\* the polynomials at a regular infinitesimal character of the same family
IsPerm(q,n) == Len(q) = n /\ {q[i]+1 : i \in 1..Len(q)} = 1..n
RECURSIVE DotN(_,_,_)
DotN(u,v,n) == IF n = 0 THEN 0 ELSE u[n]*v[n]+DotN(u,v,n-1)
Singular(s) == DotN(D.gamma,D.icor[s],Len(D.gamma)) = 0
FirstSing(x) == LET S == {s \in 1..ns : Singular(s) /\ IsDesc(x,s)} IN
  IF S = {} THEN 0 ELSE CHOOSE s \in S : \A u \in S : s <= u
Survives(x) == FirstSing(x) = 0
\* number of times f occurs in the expansion of x into survivors
RECURSIVE Count(_,_)
Count(x,f) == LET s == FirstSing(x) IN
  IF s = 0 THEN (IF x = f THEN 1 ELSE 0)
  ELSE CASE St(x,s) = 1 -> 0
         [] St(x,s) = 0 -> Count(Cr(x,s),f)
         [] St(x,s) = 3 -> Count(Ca(x,s)[1]+1,f)
         [] St(x,s) = 2 -> Count(Ca(x,s)[1]+1,f) + Count(Ca(x,s)[2]+1,f)
RECURSIVE NormalOf(_)
NormalOf(x) == LET S == {s \in 1..ns : Singular(s) /\ St(x,s) = 0} IN
  IF S = {} THEN {x} ELSE UNION {NormalOf(Cr(x,s)) : s \in S}
SurvSeq(S) == SelectSeq([i \in 1..B |-> i],LAMBDA i : i \in S /\ Survives(i))
PlusOne(q) == [i \in 1..Len(q) |-> q[i]+1]
Condensed(f,u) == SumSeqP([x \in 1..B |-> LET p == P(x,u) c == IF p = <<>> THEN 0 ELSE Count(x,f)
                                          IN IF c = 0 THEN <<>> ELSE Scale(IF (L(x)-L(f)) % 2 = 0 THEN c ELSE -c,p)])
\* column u of a condensed matrix
ColOK(M,u) == \A i,j \in 1..Len(M.list) : M.list[j]+1 = u => PP(M,i,j) = Condensed(M.list[i]+1,u)
IsSet(q,S) == Len(q) = Cardinality(S) /\ {q[i]+1 : i \in 1..Len(q)} = S
Pool(M) == M.polys[1] = <<>> /\ M.polys[2] = <<1>> /\ \A i,j \in 1..Len(M.polys) : i # j => M.polys[i] # M.polys[j]
PosIn(q,a) == IF \E i \in 1..Len(q) : q[i] = a THEN (CHOOSE i \in 1..Len(q) : q[i] = a) - 1 ELSE -1
ParamStatic ==
  /\ Assert(IsPerm(D.perm,B),<<"elements of the table and of the list",D.name>>)
  /\ Assert(IsPerm(D.permr,B),<<"list at the regular parameter",D.name>>)
  /\ Assert(D.start = D.perm[D.startrow+1],<<"start",D.name>>)
  /\ "kls" \in DOMAIN D =>
     /\ Assert(PlusOne(D.kls.list) = SurvSeq(1..B) /\ Pool(D.kls),<<"final parameters",D.name>>)
     /\ Assert(D.kls.start = PosIn(D.kls.list,D.start) /\ D.duals.start = D.kls.start,<<"position in condensed list",D.name>>)
     /\ Assert(PlusOne(D.duals.list) = SurvSeq(1..B) /\ Pool(D.duals),<<"final parameters of dual",D.name>>)
     /\ Assert(IsSet(D.dualr.list,1..B),<<"list of dual",D.name>>)
     /\ Assert(\A k \in 1..Len(D.partial) : Pool(D.partial[k])
          /\ \E n \in NormalOf(D.partial[k].z+1) : IsSet(D.partial[k].list,{b \in ideal[n] : Survives(b)}),<<"partial list",D.name>>)
\* full dual table indexed by list positions: lower triangular
DualReg(x,z) == PP(D.dualr,PosIn(D.dualr.list,x-1)+1,PosIn(D.dualr.list,z-1)+1)
DualRegT == [z \in 1..B |-> DualReg(z,y)]
ParamOK == "kls" \in DOMAIN D =>
  /\ Assert(ColOK(D.kls,y),<<"condensed polynomials",D.name,y-1>>)
  /\ Assert(\A k \in 1..Len(D.partial) : ColOK(D.partial[k],y),<<"partial polynomials",D.name,y-1>>)
  \* dual table: SUM_z (-1)^{l(z)-l(x)} P(x,z) Dual(y,z) = delta(x,y)
  /\ Assert(LET row == [z \in 1..B |-> DualReg(y,z)] IN \A x \in 1..B :
       SumSeqP([i \in 1..B |-> LET p == P(x,i) IN IF p = <<>> \/ row[i] = <<>> THEN <<>>
                                ELSE Scale(IF (L(i)-L(x)) % 2 = 0 THEN 1 ELSE -1,Mul(p,row[i]))])
       = (IF x = y THEN <<1>> ELSE <<>>),<<"dual polynomials",D.name,y-1>>)
  /\ Assert(\A i,j \in 1..Len(D.duals.list) : D.duals.list[i]+1 = y => PP(D.duals,i,j) = DualReg(y,D.duals.list[j]+1),<<"dual at survivors",D.name,y-1>>)
  /\ Assert(\A k \in 1..Len(D.column) : LET c == D.column[k].col IN D.column[k].y+1 = y =>
       /\ {c[i].x+1 : i \in 1..Len(c)} = {x \in 1..y : P(x,y) # <<>>}
       /\ Len(c) = Cardinality({x \in 1..y : P(x,y) # <<>>})
       /\ \A i \in 1..Len(c) : P(c[i].x+1,y) = c[i].p,<<"column",D.name,y-1>>)

PolyList ==
  /\ D.kl.polys[1] = <<>> /\ D.kl.polys[2] = <<1>>
  /\ \A i,j \in 1..Len(D.kl.polys) : i # j => D.kl.polys[i] # D.kl.polys[j]
  /\ "list" \in DOMAIN D => /\ Range(D.list) = {p \in Range(D.kl.polys) : p # <<>>}
                            /\ Len(D.list) = Len(D.kl.polys)-1
Stops == "stops" \in DOMAIN D =>
  /\ Len(D.stops) = L(B)+2
  /\ \A i \in 1..Len(D.stops) : D.stops[i] = Cardinality({x \in 1..B : L(x) < i-1})

Agree == y # 0 =>
  /\ Assert(Unitriangular,<<"triangularity, degree bound or sign",D.name,y-1>>)
  /\ Assert(Eigen,<<"T_s C_y = q C_y",D.name,y-1>>)
  /\ Assert(Recursion,<<"recursion",D.name,y-1>>)
  /\ Assert(DualOK,<<"dual polynomials",D.name,y-1>>)
  /\ Assert(PrintOK,<<"printed polynomials",D.name,y-1>>)
  /\ "perm" \in DOMAIN D => ParamOK /\ (y = 1 => ParamStatic)
  /\ y = 1 => Assert(PolyList,<<"list of polynomials",D.name>>)
  /\ y = 1 => Assert(Stops,<<"length stops",D.name>>)
RECURSIVE SumI(_)
SumI(q) == IF q = <<>> THEN 0 ELSE q[1]+SumI(Tail(q))
Complete == TLCGet("stats").distinct = SumI([i \in 1..Len(Data) |-> 1 + Len(Data[i].len)])
=============================================================================

------------------------------- MODULE Deform -------------------------------
(* Signature sums, deformation formulas, orientation numbers and reducibility
   points.  At infinitesimal character gamma the irreducible J(u) is the sum
   over survivors f of S(f,u) I(f), with S(f,u) = SUM_x (-1)^{l(u)-l(x)}
   P_{x,u}(s) count(x,f) (in the group ring of {1,s}).  Writing the standard
   module as I(u) = SUM_z Q(z,u) J(z) at s=-1, its deformation is
     (1-s) SUM_f [ SUM_{l(z)-l(u) odd} Q(z,u) S(f,z) ] (-1)^{(o(u)-o(f))/2} I(f)
   with orientation numbers o.  The polynomials P are those of the recorded
   block (checked in KL).  The exploration visits the elements of each block
   and, in the second part, each parameter of families closed under
   deformation, where the full deformation satisfies
     D(p) = K-type of p at nu=0 + SUM_{t reducibility point} D(deformation of p at t). *)
EXTENDS KL, ParamBase

Full == JsonDeserialize(IOEnv.full)
VARIABLES mm
allvars == <<d,y,ideal,mm>>
DView == <<d,y>>

\* ---- group ring of {1,s}: pairs
AddS(a,b) == <<a[1]+b[1],a[2]+b[2]>>
MulS(a,b) == <<a[1]*b[1]+a[2]*b[2],a[1]*b[2]+a[2]*b[1]>>
ZeroS == <<0,0>>
IntS(n) == <<n,0>>
OneMinusS(n) == <<n,0-n>>
AtS(p) == LET RECURSIVE F(_)
              F(i) == IF i > Len(p) THEN ZeroS ELSE LET r == F(i+1) IN <<p[i]+r[2],r[1]>>
          IN F(1)
\* at s = -1
M1(a) == a[1]-a[2]

\* ---- the matrices of a block
Surv == mm.sv
NS == Len(Surv)
Sgn(n) == IF n % 2 = 0 THEN 1 ELSE -1
RECURSIVE SumSp(_,_)
SumSp(f,n) == IF n = 0 THEN ZeroS ELSE AddS(f[n],SumSp(f,n-1))
SMat == LET sv == TLCEval(SurvSeq(1..B))
            C == TLCEval([x \in 1..B |-> [j \in 1..Len(sv) |-> Count(x,sv[j])]])
        IN TLCEval([ju \in 1..Len(sv) |-> LET u == sv[ju]
              V == TLCEval([x \in 1..u |-> LET a == AtS(P(x,u)) IN IF (L(u)-L(x)) % 2 = 0 THEN a ELSE <<0-a[1],0-a[2]>>])
              IN [jf \in 1..Len(sv) |-> SumSp([x \in 1..u |-> IF C[x][jf] = 0 THEN ZeroS ELSE <<C[x][jf]*V[x][1],C[x][jf]*V[x][2]>>],u)]])
\* columns of the inverse at -1: I(u) in terms of J(z)
RECURSIVE QCol(_,_,_,_)
QCol(S,u,k,acc) == IF k = 0 THEN acc
  ELSE QCol(S,u,k-1,TLCEval([acc EXCEPT ![k] = (IF k = u THEN 1 ELSE 0) - SumTo([z \in 1..u |-> IF z > k THEN acc[z]*M1(S[z][k]) ELSE 0],1,u)]))
QMat(S) == TLCEval([u \in 1..Len(S) |-> QCol(S,u,u,[k \in 1..Len(S) |-> 0])])

\* ---- orientation numbers and reducibility points by root integrality
GI == D.gi
Tr(q) == OfParam(GI,q)
IntegralPair(q,c) == Dot(q.n,c) % q.d = 0
CoIm(g,a,k) == LET v == MV(ThM(g,a),PRt(g,k),g.rank) IN        \* coroot of theta(root k)
   LET m == CHOOSE m \in 1..NrPosR(g) : PRt(g,m) = v \/ PRt(g,m) = NegV(v)
   IN IF PRt(g,m) = v THEN PCo(g,m) ELSE NegV(PCo(g,m))
ComplexRoots(i,a) == (1..NrPosR(Groups[i])) \ (ImgSetT[i][a] \cup RealSetT[i][a])
Orient(i,t) == LET g == Groups[i]
                   cx == {k \in ComplexRoots(i,t.x) : ~IntegralPair(t.g,PCo(g,k)) /\ ~IsPos(g,MV(ThM(g,t.x),PRt(g,k),g.rank))}
                   sh == ShiftK(i,t.x,t.k)
                   re == {k \in RealSetT[i][t.x] : ~IntegralPair(t.g,PCo(g,k)) /\ (RvDotNum(sh,PCo(g,k)) \div sh.d) % 2 = 0}
               IN Cardinality(cx) \div 2 + Cardinality(re)
\* nu = (1-theta)gamma/2
NuOf(i,t) == LET g == Groups[i] IN RvNorm([n |-> SubV(t.g.n,MV(ThM(g,t.x),t.g.n,g.rank)), d |-> 2*t.g.d])
RvTimes(q,f) == RvNorm([n |-> ScaleV(f.n,q.n), d |-> q.d*f.d])
RvSubL(a,b) == LET h == GcdI(a.d,b.d) IN [n |-> SubV(ScaleV(b.d \div h,a.n),ScaleV(a.d \div h,b.n)), d |-> (a.d \div h)*b.d]
\* nu replaced by f nu
ScaleT(i,t,f) == LET w == RvTimes(NuOf(i,t),[n |-> f.d-f.n, d |-> f.d])
                 IN Trip(t.x,RvNorm(RvSubL(t.k,w)),RvNorm(RvSubL(t.g,w)))
Red(a,b) == LET h == GcdI(a,b) IN [n |-> a \div h, d |-> b \div h]
\* a rational t in (0,1] with some root of the standard module family in
\* position to make it reducible
RealRed(i,t,k,f) == LET g == Groups[i]  u == ScaleT(i,t,f)  v == RvDotNum(u.g,PCo(g,k)) IN
   v % u.g.d = 0 /\ v # 0 /\ ParityK(i,u.x,u.k,k)
ComplexRed(i,t,k,f) == LET g == Groups[i]  u == ScaleT(i,t,f)  c == CoIm(g,t.x,k)
                           a == RvDotNum(u.g,PCo(g,k))  b == RvDotNum(u.g,c)
                       IN a % u.g.d = 0 /\ b % u.g.d = 0 /\ ((a > 0 /\ b < 0) \/ (a < 0 /\ b > 0))
\* m/2 over |<nu,coroot>| for all m with value at most 1
Cands(i,t,k) == LET nu == NuOf(i,t)  v == AbsI(RvDotNum(nu,PCo(Groups[i],k))) IN
   IF v = 0 THEN {} ELSE {Red(m*nu.d,2*v) : m \in 1..((2*v) \div nu.d)}
RedPoints(i,t) == UNION {{f \in Cands(i,t,k) : RealRed(i,t,k,f)} : k \in RealSetT[i][t.x]}
              \cup UNION {{f \in Cands(i,t,k) : ComplexRed(i,t,k,f)} : k \in ComplexRoots(i,t.x)}
RLess(a,b) == a.n*b.d < b.n*a.d
RpOK(i,t,R) == Range(R) = RedPoints(i,t) /\ \A j \in 2..Len(R) : RLess(R[j-1],R[j])
PrevPoint(i,t) == LET S == {f \in RedPoints(i,t) : f.n < f.d} IN
   IF S = {} THEN [n |-> 0, d |-> 1] ELSE CHOOSE f \in S : \A e \in S : e = f \/ RLess(e,f)

\* ---- combinations of final parameters: functions from canonical keys to pairs
CK(i,t) == LET K == LocalKeys(i,t) IN CHOOSE k \in K : TRUE
\* seq of <<pair,triple>>
Comb2(i,E0) == LET E == TLCEval(E0)
                  K == TLCEval([j \in 1..Len(E) |-> CK(i,E[j][2])])
                  all == {K[j] : j \in 1..Len(E)}
                  f == TLCEval([k \in all |-> SumSp([j \in 1..Len(E) |-> IF K[j] = k THEN E[j][1] ELSE ZeroS],Len(E))])
              IN TLCEval([k \in {k \in all : f[k] # ZeroS} |-> f[k]])
TimesE(c,E0) == LET E == TLCEval(E0) IN TLCEval([j \in 1..Len(E) |-> <<MulS(c,IntS(E[j][1])),E[j][2]>>])
RECURSIVE FlatN(_,_)
FlatN(q,n) == IF n = 0 THEN <<>> ELSE FlatN(q,n-1) \o q[n]
Flat(q) == LET r == TLCEval(q) IN TLCEval(FlatN(r,Len(r)))
\* recorded terms [e,s,p]
Terms(i,R) == TLCEval([j \in 1..Len(R) |-> <<<<R[j].e,R[j].s>>,OfParam(i,R[j].p)>>])
CleanTerms(i,R) == LET T == Terms(i,R) IN
   /\ \A j \in 1..Len(T) : T[j][1] # ZeroS /\ FinalT(i,T[j][2]) /\ LegalT(i,T[j][2])
   /\ Cardinality({CK(i,T[j][2]) : j \in 1..Len(T)}) = Len(T)

\* ---- recorded lists of [e,s,i] with positions in the block
IdxOK(R) == (\A j \in 1..Len(R) : R[j].i \in 0..(B-1) /\ Survives(R[j].i+1) /\ <<R[j].e,R[j].s>> # ZeroS)
            /\ Cardinality({R[j].i : j \in 1..Len(R)}) = Len(R)
CoefAt(R,f) == SumSp([j \in 1..Len(R) |-> IF R[j].i+1 = f THEN <<R[j].e,R[j].s>> ELSE ZeroS],Len(R))
SvPos(f) == CHOOSE j \in 1..NS : Surv[j] = f
ListIs(R,F) == IdxOK(R) /\ \A j \in 1..NS : CoefAt(R,Surv[j]) = F[j]
DefInt(ju,jf) == LET u == Surv[ju] IN
   SumTo([jz \in 1..ju |-> IF (L(Surv[jz])-L(u)) % 2 = 0 THEN 0 ELSE mm.Q[ju][jz]*M1(mm.S[jz][jf])],1,ju)
OrSign(u,f) == LET n == D.or[u]-D.or[f] IN Sgn(n \div 2)
OrEven(u,f) == (D.or[u]-D.or[f]) % 2 = 0
DefRow(ju) == TLCEval([jf \in 1..NS |-> LET c == DefInt(ju,jf) IN IF c = 0 THEN ZeroS
     ELSE OneMinusS(c*OrSign(Surv[ju],Surv[jf]))])

SumOK(q) == LET ju == SvPos(q.u+1) IN
  /\ Assert(ListIs(q.sum,mm.S[ju]),<<"KL sum",D.name,q.u>>)
  /\ Assert(\A k \in 1..Len(q.hs) : LET h == q.hs[k].h IN
       ListIs(q.hs[k].sum,[jf \in 1..NS |-> IF h >= 0 /\ D.ht[Surv[jf]] > h THEN ZeroS ELSE mm.S[ju][jf]]),<<"KL sum to height",D.name,q.u>>)
  /\ Assert(\A k \in 1..Len(q.opt) : q.opt[k].ok => LET h == q.opt[k].h IN
       ListIs(q.opt[k].sum,[jf \in 1..NS |-> IF h >= 0 /\ D.ht[Surv[jf]] > h THEN ZeroS ELSE mm.S[ju][jf]]),<<"timed or stored KL sum",D.name,q.u>>)
  /\ Assert(\A jf \in 1..NS : DefInt(ju,jf) # 0 => OrEven(q.u+1,Surv[jf]),<<"orientation numbers differ by an odd number",D.name,q.u>>)
  /\ Assert(ListIs(q.def,DefRow(ju)),<<"deform",D.name,q.u>>)
\* deformation inside the block of a combination
RECURSIVE Slide(_,_,_)
Slide(T,j,bound) == IF j = 0 THEN T ELSE
   Slide(IF T[j] = ZeroS THEN T ELSE TLCEval(LET r == DefRow(j) IN
         [k \in 1..NS |-> IF k >= j \/ r[k] = ZeroS \/ (bound >= 0 /\ D.ht[Surv[k]] > bound) THEN T[k] ELSE AddS(T[k],MulS(T[j],r[k]))]),j-1,bound)
BdOK(b) ==
  LET nuz == \A c \in 1..Len(NuOf(GI,Tr(D.pp[b.u+1])).n) : NuOf(GI,Tr(D.pp[b.u+1])).n[c] = 0
      In(a) == a.i >= 0 /\ ~(b.bound >= 0 /\ D.ht[a.i+1] > b.bound)
      ins == SelectSeq(b.acc,In)
      outs == SelectSeq(b.acc,LAMBDA a : ~In(a))
      T == TLCEval(Slide(TLCEval([j \in 1..NS |-> CoefAt(ins,Surv[j])]),NS,b.bound))
      res == Flat([j \in 1..NS |-> IF T[j] = ZeroS THEN <<>> ELSE
               LET t == Tr(D.pp[Surv[j]]) IN TimesE(T[j],Expand(GI,1,ScaleT(GI,t,PrevPoint(GI,t))))])
  IN IF nuz THEN b.res = <<>> /\ Comb2(GI,Terms(GI,b.rest)) = Comb2(GI,Terms(GI,b.acc))
     ELSE /\ CleanTerms(GI,b.res) /\ Comb2(GI,Terms(GI,b.res)) = Comb2(GI,res)
          /\ CleanTerms(GI,b.rest) /\ Comb2(GI,Terms(GI,b.rest)) = Comb2(GI,Terms(GI,outs))
\* deformation of a parameter that need not be final: sum over its expansion
RECURSIVE MakeDom(_,_)
MakeDom(i,t) == LET neg == {s \in AllSimples(i) : EvalS(i,s,t.g) < 0} IN
   IF neg = {} THEN t ELSE MakeDom(i,ReflT(i,CHOOSE s \in neg : TRUE,t))
NumbersOK(n) == LET t == OfParam(n.gi,n.p) IN
  /\ n.standard = Standard(n.gi,t)
  /\ RpOK(n.gi,t,n.rp)
  /\ n.standard => n.or = Orient(n.gi,MakeDom(n.gi,t))
NfOK(n) == IF n.kind = "numbers" THEN NumbersOK(n) ELSE LET E == Expand(n.gi,1,OfParam(n.gi,n.p)) IN
  /\ ExpansionIs(n.gi,n.exp,E)
  /\ CleanTerms(n.gi,n.def)
  /\ Comb2(n.gi,Terms(n.gi,n.def)) = Comb2(n.gi,Flat([j \in 1..Len(n.defs) |-> LET T == Terms(n.gi,n.defs[j]) IN [k \in 1..Len(T) |-> <<MulS(IntS(n.exp[j].c),T[k][1]),T[k][2]>>]]))
ElementOK == LET t == Tr(D.pp[y]) IN
  /\ Assert(LegalT(GI,t),<<"parameter",D.name,y-1>>)
  /\ Assert(D.or[y] = Orient(GI,t),<<"orientation number",D.name,y-1>>)
  /\ Assert(D.ht[y] = HeightT(GI,t),<<"height",D.name,y-1>>)
  /\ Assert(RpOK(GI,t,D.rp[y]),<<"reducibility points",D.name,y-1>>)
  /\ \A k \in 1..Len(D.q) : D.q[k].u = y-1 => SumOK(D.q[k])
  /\ \A k \in 1..Len(D.bd) : D.bd[k].u = y-1 => Assert(BdOK(D.bd[k]),<<"block_deform",D.name,k>>)

\* ---- families closed under deformation
N1 == Len(Data)
F == Full[d-N1]
CombSum(c1,c2) == LET K == DOMAIN c1 \cup DOMAIN c2
                      v(k) == AddS(IF k \in DOMAIN c1 THEN c1[k] ELSE ZeroS,IF k \in DOMAIN c2 THEN c2[k] ELSE ZeroS)
                  IN [k \in {k \in K : v(k) # ZeroS} |-> v(k)]
FullOK == LET e == F.ps[y]  i == F.gi  t == OfParam(i,e.p) IN
  /\ Assert(FinalT(i,t) /\ LegalT(i,t),<<"final parameter",F.name,y>>)
  /\ Assert(RpOK(i,t,e.rp),<<"reducibility points",F.name,y>>)
  /\ Assert(CleanTerms(i,e.full),<<"K-type polynomial",F.name,y>>)
  /\ Assert(\A j \in 1..Len(e.full) : \A c \in 1..Len(e.full[j].p.nu.n) : NuOf(i,OfParam(i,e.full[j].p)).n[c] = 0,<<"K-types",F.name,y>>)
  /\ Assert(Len(e.def) = Len(e.rp),<<"steps",F.name,y>>)
  /\ Assert(Comb2(i,Terms(i,e.full)) =
       Comb2(i,TimesE(IntS(1),Expand(i,1,ScaleT(i,t,[n |-> 0, d |-> 1]))) \o
         Flat([r \in 1..Len(e.def) |-> Flat([k \in 1..Len(e.def[r]) |->
            LET a == e.def[r][k]  T == Terms(i,F.ps[a.i+1].full) IN [m \in 1..Len(T) |-> <<MulS(<<a.e,a.s>>,T[m][1]),T[m][2]>>]])])),<<"full deformation",F.name,y>>)
  /\ Assert(\A k \in 1..Len(e.opt) : CleanTerms(i,e.opt[k]) /\ Comb2(i,Terms(i,e.opt[k])) = Comb2(i,Terms(i,e.full)),<<"stored full deformation",F.name,y>>)
Nonfinal == JsonDeserialize(IOEnv.nonfinal)
N2 == Len(Full)
N3 == Len(Nonfinal)
Kind == IF d <= N1 THEN 1 ELSE IF d <= N1+N2 THEN 2 ELSE 3
Size(k) == IF k <= N1 THEN Len(Data[k].len) ELSE IF k <= N1+N2 THEN Len(Full[k-N1].ps) ELSE 1
DInit == d \in 1..(N1+N2+N3) /\ y = 0 /\ ideal = <<>> /\ mm = <<>>
DNext == /\ d' = d /\ ideal' = ideal /\ y < Size(d) /\ y' = y+1
         /\ mm' = IF y = 0 /\ d <= N1 THEN LET S == TLCEval(SMat) IN [sv |-> SurvSeq(1..B), S |-> S, Q |-> QMat(S)] ELSE mm
DSpec == DInit /\ [][DNext]_allvars
DAgree == y # 0 => CASE Kind = 1 -> ElementOK
                     [] Kind = 2 -> FullOK
                     [] Kind = 3 -> Assert(NfOK(Nonfinal[d-N1-N2]),<<"deform of an arbitrary parameter",Nonfinal[d-N1-N2].name>>)
DComplete == TLCGet("stats").distinct = SumI([k \in 1..(N1+N2+N3) |-> 1+Size(k)])
=============================================================================

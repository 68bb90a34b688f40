------------------------------- MODULE Param --------------------------------
(* Sets of recorded parameters: each data item is a list of parameters of one
   real form (a random one and candidates obtained by reflecting its parts),
   with all predicates, normal forms, expansions and pairwise comparisons
   reported by the implementation.                                          *)
EXTENDS ParamBase
Data == JsonDeserialize(IOEnv.data)
VARIABLES d, phase
D == Data[d]
i == D.group
g == Groups[i]
n == Len(D.ps)
Init == d \in 1..Len(Data) /\ phase = 0
\* one step per recorded parameter
Next == phase < n /\ phase' = phase+1 /\ d' = d
Spec == Init /\ [][Next]_<<d,phase>>

R == D.ps[phase]
T == OfParam(i,R.p)
RvScale(q,a,b) == RvNorm([n |-> ScaleV(a,q.n), d |-> q.d*b])
Agree == phase > 0 =>
  LET t == T
      std == Standard(i,t)
      id == <<D.name,phase,R.p>>
  IN
  /\ Assert(LegalT(i,t),<<"infinitesimal character",id>>)
  /\ Assert(R.std = std,<<"is_standard",id>>)
  /\ Assert(R.dom = DominantG(i,t.g),<<"is_dominant",id>>)
  /\ Assert(R.semi = Semifinal(i,t),<<"is_semifinal",id>>)
  /\ Assert(std => R.zero = ZeroT(i,t),<<"is_zero",id>>)
  /\ Assert(R.final = FinalT(i,t),<<"is_final",id>>)
  /\ Assert(R.height = HeightT(i,t),<<"height",id,HeightT(i,t)>>)
  /\ Assert(ExpansionIs(i,R.expand,Expand(i,1,t)),<<"expansion",id,Expand(i,1,t)>>)
  /\ LET u == OfParam(i,R.scaled)  tg == RvMat(g,ThM(g,t.x),t.g) IN     \* nu scaled by 2/3
     Assert(u.x = t.x /\ LegalT(i,u) /\ RvEq(RvScale(u.g,6,1),RvAdd(RvScale(t.g,5,1),tg))
            /\ EquivK(i,t.x,RvSub(t.k,t.g),RvSub(u.k,u.g)),<<"scaled parameter",id>>)
  /\ LET keys == OrbitKeys(i,t) IN
     \* equivalence with all others of the list
     /\ Assert(\A j \in 1..n : LET u == OfParam(i,D.ps[j].p) IN
           /\ D.eq[phase][j] = SameT(i,t,u)
           /\ D.equiv[phase][j] = (IF std /\ D.ps[j].std THEN KeyT(i,u) \in keys ELSE SameT(i,t,u)),
          <<"equivalence",id,[j \in 1..n |-> KeyT(i,OfParam(i,D.ps[j].p)) \in keys]>>)
     /\ IF ~std THEN TRUE ELSE
        LET nt == OfParam(i,R.normal)  dt == OfParam(i,R.dominant) IN
        /\ Assert(KeyT(i,nt) \in keys /\ DominantG(i,nt.g) /\ NoDescents(i,nt),<<"normal",id>>)
        /\ Assert(KeyT(i,dt) \in keys /\ DominantG(i,dt.g) /\ (R.dom => SameT(i,t,dt)),<<"dominant",id>>)
        /\ Assert(R.idem,<<"normal idempotent",id>>)
        /\ Assert((FinalT(i,t) => R.finalnormal),<<"final parameters are normal",id>>)
        \* one normal form for the whole class
        /\ Assert(\A j \in 1..n : D.ps[j].std => (D.equiv[phase][j] <=> SameT(i,nt,OfParam(i,D.ps[j].normal))),<<"normal forms",id>>)
Total == TRUE
=============================================================================

------------------------------- MODULE WGraph -------------------------------
(* W-graphs of blocks and their cells, on top of the verified polynomials.    *)
EXTENDS KL

\* mu of an unordered pair
Mu2(a,b) == IF a = b THEN 0 ELSE IF a < b THEN MuCoef(a,b) ELSE MuCoef(b,a)
Tau(x) == {s \in 1..ns : IsDesc(x,s)}
Set1(q) == {q[i]+1 : i \in 1..Len(q)}
IncreasingSeq(q) == \A i \in 1..(Len(q)-1) : q[i] < q[i+1]
VertexOK(W,x) ==
  /\ Set1(W[x].tau) = Tau(x) /\ IncreasingSeq(W[x].tau)
  /\ LET E == W[x].edges IN
     /\ \A i \in 1..Len(E) : E[i].mu # 0 /\ E[i].to+1 \in 1..B /\ E[i].mu = Mu2(x,E[i].to+1)
     /\ \A i,j \in 1..Len(E) : i # j => E[i].to # E[j].to
     /\ Len(E) = Cardinality({b \in 1..B : Mu2(x,b) # 0})
\* descent changing links are edges with label 1
LinkOK(x) == \A s \in 1..ns : \A u \in Above(x,s) : ~IsDesc(x,s) => Mu2(x,u) = 1

\* ---- Hecke algebra representation at q = 4 (v = 2): sparse vectors as
\* sequences of all coordinates
TauW(W,x) == Set1(W[x].tau)
RECURSIVE SumInt(_,_)
SumInt(g,n) == IF n = 0 THEN 0 ELSE g[n]+SumInt(g,n-1)
Step(W,s,f) == [b \in 1..Len(W) |->
   IF s \in TauW(W,b)
   THEN -f[b] + 2*SumInt([i \in 1..Len(W[b].edges) |-> LET a == W[b].edges[i].to+1 IN
                             IF s \in TauW(W,a) THEN 0 ELSE W[b].edges[i].mu*f[a]],Len(W[b].edges))
   ELSE 4*f[b]]
RECURSIVE Word(_,_,_,_,_)
Word(W,s,t,n,f) == IF n = 0 THEN f ELSE Word(W,t,s,n-1,Step(W,s,f))
BraidOK(W,x) ==
  \A s,t \in 1..ns : s < t =>
     LET e == [b \in 1..Len(W) |-> IF b = x THEN 1 ELSE 0]
         m == D.cox[s][t]
     IN Word(W,s,t,m,e) = Word(W,t,s,m,e)

\* ---- strongly connected components
Targets(W,x) == {W[x].edges[i].to+1 : i \in 1..Len(W[x].edges)}
Arrow(W,x) == {b \in Targets(W,x) : ~(TauW(W,x) \subseteq TauW(W,b))}
RECURSIVE Reach(_,_)
Reach(S,W) == LET N == S \cup UNION {Arrow(W,b) : b \in S} IN IF N = S THEN S ELSE Reach(N,W)
CellOf(x) == CHOOSE c \in 1..Len(D.cells) : x \in Set1(D.cells[c].members)
CellsStatic ==
  /\ UNION {Set1(D.cells[c].members) : c \in 1..Len(D.cells)} = 1..B
  /\ SumI([c \in 1..Len(D.cells) |-> Len(D.cells[c].members)]) = B
  /\ \A c \in 1..Len(D.cells) : D.cells[c].members # <<>> /\ IncreasingSeq(D.cells[c].members)
CellGraph(c) ==      \* induced graph with relative numbering
  LET M == D.cells[c].members  H == D.cells[c].graph IN
  /\ Len(H) = Len(M)
  /\ \A i \in 1..Len(M) : LET x == M[i]+1 IN
       /\ H[i].tau = D.wg[x].tau
       /\ \A j \in 1..Len(H[i].edges) : H[i].edges[j].to+1 \in 1..Len(M)
       /\ {<<M[H[i].edges[j].to+1],H[i].edges[j].mu>> : j \in 1..Len(H[i].edges)}
          = {<<D.wg[x].edges[j].to,D.wg[x].edges[j].mu>> : j \in {k \in 1..Len(D.wg[x].edges) : D.wg[x].edges[k].to \in {M[n] : n \in 1..Len(M)}}}
       /\ Len(H[i].edges) = Cardinality({k \in 1..Len(D.wg[x].edges) : D.wg[x].edges[k].to \in {M[n] : n \in 1..Len(M)}})
CellOK(x) == LET R == Reach({x},D.wg) IN
  Set1(D.cells[CellOf(x)].members) = {b \in R : x \in Reach({b},D.wg)}
\* ---- printed decomposition
PrintedCells ==
  "pcells" \in DOMAIN D =>
  /\ D.pcells.cells = [c \in 1..Len(D.cells) |-> D.cells[c].members]
  /\ \A c \in 1..Len(D.cells) : LET H == D.cells[c].graph  K == D.pcells.graphs[c] IN
       /\ Len(K) = Len(H)
       /\ \A i \in 1..Len(H) : K[i].member = D.cells[c].members[i] /\ K[i].tau = [j \in 1..Len(H[i].tau) |-> H[i].tau[j]+1]
                               /\ K[i].edges = H[i].edges
  /\ D.pgraph = [x \in 1..B |-> [tau |-> [j \in 1..Len(D.wg[x].tau) |-> D.wg[x].tau[j]+1], edges |-> D.wg[x].edges]]
  \* induced graph on cells: exactly the pairs joined by an arrow, targets first
  /\ Len(D.pcells.induced) = Len(D.cells)
  /\ \A c \in 1..Len(D.cells) :
       /\ Set1(D.pcells.induced[c]) = {CellOf(b) : b \in UNION {Arrow(D.wg,x+1) : x \in {D.cells[c].members[i] : i \in 1..Len(D.cells[c].members)}}} \ {c}
       /\ \A i,j \in 1..Len(D.pcells.induced[c]) : i # j => D.pcells.induced[c][i] # D.pcells.induced[c][j]
       /\ \A i \in 1..Len(D.pcells.induced[c]) : D.pcells.induced[c][i]+1 < c

GraphAgree == y # 0 =>
  /\ Assert(VertexOK(D.wg,y),<<"W-graph vertex",D.name,y-1>>)
  /\ Assert(LinkOK(y),<<"links",D.name,y-1>>)
  /\ Assert(BraidOK(D.wg,y),<<"braid relation",D.name,y-1>>)
  /\ Assert(CellOK(y),<<"cell",D.name,y-1>>)
  /\ y = 1 => /\ Assert(Len(D.wg) = B /\ CellsStatic,<<"cells partition",D.name>>)
              /\ Assert(\A c \in 1..Len(D.cells) : CellGraph(c),<<"cell graph",D.name>>)
              /\ Assert(PrintedCells,<<"printed cells",D.name>>)
              /\ Assert("start" \in DOMAIN D => D.wgstart = D.start /\ D.cellstart = D.start,<<"start",D.name>>)
=============================================================================

------------------------------- MODULE Store -------------------------------
(* The store of blocks of a real form, and histories of queries against it.

   A family is a set of blocks that differ by translation only; its elements
   1..n are ordered by covering relations.  The store holds blocks: either
   all of a family or a lower set of it.  A query about an element either
   finds a stored block containing it, or adds the lower set below the element
   (or the whole family, when the query needs that), absorbing every stored
   block of the family that meets it.  Some queries also have the columns of
   Kazhdan-Lusztig polynomials of the elements up to the one asked for computed
   and remembered.

   The store is bookkeeping only: the answer to a query is a function of the
   query.  TLC generates the histories that are replayed in the implementation
   (HistoryTrace compares the answers), and checks the invariants of the
   bookkeeping on the way. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

Pools == JsonDeserialize(IOEnv.pools)    \* [items |-> <<[fam, idx]>>, fams |-> << <<lower covers of each element>> >>]
KindTab == JsonDeserialize(IOEnv.kinds)  \* << [kind |-> string, act |-> string] >>
Par == JsonDeserialize(IOEnv.par)        \* [len |-> history length, runs |-> histories per pool]

RECURSIVE Down(_, _)
Down(cov, S) == LET T == S \cup UNION {{cov[i][j] : j \in 1..Len(cov[i])} : i \in S} IN IF T = S THEN S ELSE Down(cov, T)
BelowT == [p \in 1..Len(Pools) |-> [f \in 1..Len(Pools[p].fams) |-> LET c == Pools[p].fams[f] IN [e \in 1..Len(c) |-> Down(c, {e})]]]

Partial == {i \in 1..Len(KindTab) : KindTab[i].act \in {"part", "kl", "klpart", "tw", "ask", "def", "tdef", "ktf"}}
PartialSeq == LET RECURSIVE F(_, _)
                  F(i, s) == IF i > Len(KindTab) THEN s ELSE F(i + 1, IF i \in Partial THEN Append(s, i) ELSE s)
              IN F(1, <<>>)

VARIABLES pool, run, rnd, store, kl, hist
vars == <<pool, run, rnd, store, kl, hist>>

Rand(r) == (r * 1103 + 12345) % 65521
Init == /\ pool \in 1..Len(Pools)
        /\ run \in 1..Par.runs
        /\ rnd = Rand(Rand(Rand((pool * 131 + run * 7919 + Par.seed * 31) % 65521)))
        /\ store = {}
        /\ kl = {}
        /\ hist = <<>>

Holding(f, e) == {b \in store : b.f = f /\ e \in b.keys}
Meeting(f, S) == {b \in store : b.f = f /\ b.keys \cap S # {}}

\* the store after making sure that element e of family f is in a stored block
Lookup(f, e) == IF Holding(f, e) # {} THEN store
                ELSE LET S == BelowT[pool][f][e] M == Meeting(f, S)
                     IN (store \ M) \cup {[f |-> f, keys |-> S \cup UNION {b.keys : b \in M}, full |-> FALSE]}
LookupFull(f, e) == IF \E b \in Holding(f, e) : b.full THEN store
                    ELSE LET c == Pools[pool].fams[f]
                         IN {b \in store : b.f # f} \cup {[f |-> f, keys |-> 1..Len(c), full |-> TRUE]}

NeedsFull(a) == a \in {"full", "klfull"}
FillsKL(a) == a \in {"kl", "klpart", "tw", "klfull"}
Touches(a) == a \notin {"fresh", "ktf"}

Pre(f, e) == IF Holding(f, e) = {} THEN "absent" ELSE IF \E b \in Holding(f, e) : b.full THEN "full" ELSE "part"

Do(i, k) == LET it == Pools[pool].items[i]
                a == KindTab[k].act
                s2 == IF ~Touches(a) THEN store ELSE IF NeedsFull(a) THEN LookupFull(it.fam, it.idx) ELSE Lookup(it.fam, it.idx)
                gone == Cardinality(store \ s2)
                blk == IF Touches(a) THEN (CHOOSE b \in s2 : b.f = it.fam /\ it.idx \in b.keys).keys ELSE {}
            IN /\ store' = s2
               /\ kl' = IF FillsKL(a) THEN kl \cup {<<it.fam, e>> : e \in {g \in blk : a \in {"klfull", "klpart"} \/ g <= it.idx}} ELSE kl
               /\ hist' = Append(hist, [i |-> i, k |-> KindTab[k].kind, act |-> a, pre |-> Pre(it.fam, it.idx), swallow |-> gone, haskl |-> <<it.fam, it.idx>> \in kl])

Next == /\ Len(hist) < Par.len
        /\ rnd' = Rand(Rand(rnd))
        /\ UNCHANGED <<pool, run>>
        /\ LET r1 == Rand(rnd)
               r2 == Rand(r1)
               \* most queries of the first half leave blocks partial
               part == Len(hist) * 2 < Par.len /\ (rnd \div 16) % 8 # 0
               ks == IF part THEN PartialSeq[1 + ((r1 \div 16) % Len(PartialSeq))] ELSE 1 + ((r1 \div 16) % Len(KindTab))
           IN Do(1 + ((r2 \div 16) % Len(Pools[pool].items)), ks)
Spec == Init /\ [][Next]_vars

\* stored blocks of a family are disjoint, lower closed; a full one is alone
Disjoint == \A b, c \in store : b.f = c.f /\ b # c => b.keys \cap c.keys = {} /\ ~b.full
LowerClosed == \A b \in store : \A e \in b.keys : BelowT[pool][b.f][e] \subseteq b.keys
Report == Len(hist) = Par.len => PrintT(<<"HIST", ToJson([pool |-> pool, run |-> run, hist |-> hist])>>)
\* remembered columns belong to elements of the store
Columns == \A c \in kl : Holding(c[1], c[2]) # {}
=============================================================================

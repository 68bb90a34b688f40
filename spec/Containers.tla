----------------------------- MODULE Containers -----------------------------
(* The library containers as the mathematical objects they represent.  Every
   operation is a transition of a small register machine; it gives the new
   state and what the operation lets one observe.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

B(b) == IF b THEN 1 ELSE 0
Asc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
SetOf(s) == {s[k] : k \in 1..Len(s)}
From(s, k) == SubSeq(s, k, Len(s))
Upto(s, k) == SubSeq(s, 1, k)
Cat(ss) == FlattenSeq(ss)
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
ResSt(r, s) == [res |-> r, st |-> s]
Top(S) == CHOOSE x \in S : \A y \in S : y <= x
Bot(S) == CHOOSE x \in S : \A y \in S : x <= y

(* --------------------------------------------------------------- bit maps:
   four registers [c |-> capacity, s |-> subset of 0..c-1]                  *)
BMObs(x) == <<x.c, Cardinality(x.s), B(x.s = {}), B(Cardinality(x.s) = x.c)>> \o Asc(x.s)
BMap(st, op, a) ==
  LET r == a[1] + 1
      x == st[r]
      put(y) == ResSt(BMObs(y), [st EXCEPT ![r] = y])
      putS(S) == put([x EXCEPT !.s = S])
      flag(b, y) == ResSt(<<B(b)>> \o BMObs(y), [st EXCEPT ![r] = y])
      two == st[a[2] + 1]
      see(v) == ResSt(v, st)
      all == 0..(x.c - 1)
  IN CASE op = "new" -> put([c |-> a[2], s |-> {}])
       [] op = "newv" -> put([c |-> a[2], s |-> SetOf(From(a, 3))])
       [] op = "ins" -> putS(x.s \cup {a[2]})
       [] op = "rem" -> putS(x.s \ {a[2]})
       [] op = "flip" -> putS(IF a[2] \in x.s THEN x.s \ {a[2]} ELSE x.s \cup {a[2]})
       [] op = "setto" -> flag(a[3] = 1, [x EXCEPT !.s = IF a[3] = 1 THEN x.s \cup {a[2]} ELSE x.s \ {a[2]}])
       [] op = "set2" -> flag(a[3] % 2 = 1, [x EXCEPT !.s = IF a[3] % 2 = 1 THEN x.s \cup {a[2]} ELSE x.s \ {a[2]}])
       [] op = "fill" -> putS(all)
       [] op = "reset" -> putS({})
       [] op = "fillr" -> putS(x.s \cup a[2]..(a[3] - 1))
       [] op = "clearr" -> putS(x.s \ a[2]..(a[3] - 1))
       [] op = "cap" -> put([c |-> a[2], s |-> {k \in x.s : k < a[2]}])
       [] op = "ext" -> put([c |-> x.c + 1, s |-> IF a[2] = 1 THEN x.s \cup {x.c} ELSE x.s])
       [] op = "compl" -> putS(all \ x.s)
       [] op = "not" -> put([c |-> two.c, s |-> 0..(two.c - 1) \ two.s])
       [] op = "and" -> flag(x.s \cap two.s # {}, [x EXCEPT !.s = x.s \cap two.s])
       [] op = "or" -> putS(x.s \cup two.s)
       [] op = "xor" -> putS(SymDiff(x.s, two.s))
       [] op = "andnot" -> putS(x.s \ two.s)
       [] op = "and3" -> put([two EXCEPT !.s = two.s \cap st[a[3] + 1].s])
       [] op = "or3" -> put([two EXCEPT !.s = two.s \cup st[a[3] + 1].s])
       [] op = "xor3" -> put([two EXCEPT !.s = SymDiff(two.s, st[a[3] + 1].s)])
       [] op = "shl" -> putS({k + a[2] : k \in x.s})
       [] op = "shr" -> putS({k - a[2] : k \in {j \in x.s : j >= a[2]}})
       [] op = "assign" -> put(two)
       [] op = "swap" -> ResSt(BMObs(two), [st EXCEPT ![r] = two, ![a[2] + 1] = x])
       [] op = "setr" -> putS((x.s \ a[2]..(a[2] + a[3] - 1)) \cup {a[2] + k : k \in {j \in SetOf(From(a, 4)) : j < a[3]}})
       [] op = "mem" -> see([k \in 1..(x.c + 3) |-> B(k - 1 \in x.s)])
       [] op = "last" -> see(<<Top(x.s)>>)
       [] op = "back" -> LET L == {k \in x.s : k < a[2]} IN see(IF L = {} THEN <<0, a[2]>> ELSE <<1, Top(L)>>)
       [] op = "range" -> see(Asc({k - a[2] : k \in x.s \cap a[2]..(a[2] + a[3] - 1)}))
       [] op = "sweep" -> LET y == [x EXCEPT !.s = {k \in x.s : k % 2 = 0}] IN ResSt(Asc(x.s) \o BMObs(y), [st EXCEPT ![r] = y])
       [] op = "rel" -> see(<<IF two.c <= x.c THEN B(two.s \subseteq x.s) ELSE -1, B(x.s \cap two.s = {}), IF x.c = two.c THEN B(x.s = two.s) ELSE -1, IF x.c = two.c THEN B(x.s # two.s) ELSE -1>>)
       [] op = "iter" -> see(Asc(x.s))

\* first element, element number k, number of elements below i (or below the capacity, as asked)
BMFrontOK(x, a, res) ==
  LET s == Asc(x.s) nr(i) == Cardinality({k \in x.s : k < i})
  IN /\ res[1] = (IF s = <<>> THEN x.c ELSE s[1])
     /\ res[2] = (IF a[2] < Len(s) THEN s[a[2] + 1] ELSE x.c)
     /\ res[3] \in {nr(a[3]), nr(x.c)}

(* --------------------------------------------------------------- bit sets *)
BSObs(S) == <<Cardinality(S), B(S # {}), B(S = {})>> \o Asc(S)
BSet(n, st, op, a) ==
  LET r == a[1] + 1
      x == st[r]
      put(S) == ResSt(BSObs(S), [st EXCEPT ![r] = S])
      see(v) == ResSt(v, st)
      two == st[a[2] + 1]
      three == st[a[3] + 1]
      below(S, i) == Cardinality({k \in S : k < i})
  IN CASE op = "new" -> put(SetOf(From(a, 2)))
       [] op = "ins" -> put(x \cup {a[2]})
       [] op = "rem" -> put(x \ {a[2]})
       [] op = "flip" -> put(SymDiff(x, {a[2]}))
       [] op = "setto" -> put(IF a[3] = 1 THEN x \cup {a[2]} ELSE x \ {a[2]})
       [] op = "reset" -> put({})
       [] op = "fill" -> put(x \cup 0..(a[2] - 1))
       [] op = "compl" -> put(SymDiff(x, 0..(a[2] - 1)))
       [] op = "trunc" -> put({k \in x : k < a[2]})
       [] op = "slice" -> put({below(two, k) : k \in x \cap two})
       [] op = "unslice" -> put({k \in two : below(two, k) \in x})
       [] op = "shl" -> put({k + a[2] : k \in {j \in x : j + a[2] < n}})
       [] op = "shr" -> put({k - a[2] : k \in {j \in x : j >= a[2]}})
       [] op = "xor" -> put(SymDiff(x, two))
       [] op = "and3" -> put(two \cap three)
       [] op = "or3" -> put(two \cup three)
       [] op = "xor3" -> put(SymDiff(two, three))
       [] op = "sub3" -> put(two \ three)
       [] op = "compl3" -> put(0..(n - 1) \ two)
       [] op = "swap" -> ResSt(BSObs(two), [st EXCEPT ![r] = two, ![a[2] + 1] = x])
       [] op = "q" -> see(<<B(a[2] \in x), B(a[2] \in x), below(x, a[2]), IF x = {} THEN -1 ELSE Bot(x), IF x = {} THEN 0 ELSE Top(x) + 1>>)
       [] op = "rel" -> see(<<B(x = two), B(x # two), B(x # two /\ Top(SymDiff(x, two)) \in two), B(x \cap two # {}), B(two \subseteq x), Cardinality(x \cap two) % 2, Cardinality(x \cap two) % 2>>)
       [] op = "nth" -> see(<<Asc(x)[a[2] + 1]>>)
       [] op = "word" -> see(Asc(x))
       [] op = "bits" -> LET S == SetOf(a) IN see(<<Cardinality(S), IF S = {} THEN 64 ELSE Bot(S), IF S = {} THEN 0 ELSE Top(S) + 1>>)

(* --------------------------------------------------------- linked lists:
   three registers holding sequences; positions are counted from 0         *)
Full(s) == <<Len(s)>> \o s
Rep(n, v) == [k \in 1..n |-> v]
Slice(s, i, e) == SubSeq(s, i + 1, e)
Ins(s, k, t) == Upto(s, k) \o t \o From(s, k + 1)
Del(s, i, e) == Upto(s, i) \o From(s, e + 1)
\* keep of every run of elements related to the kept one before them only the first
Uniq(s, Rel(_, _)) == FoldLeft(LAMBDA kept, v : IF kept # <<>> /\ Rel(kept[Len(kept)], v) THEN kept ELSE Append(kept, v), <<>>, s)
SList(st, op, a) ==
  LET r == a[1] + 1
      x == st[r]
      n == Len(x)
      put(s) == ResSt(Full(s), [st EXCEPT ![r] = s])
      at(k, s) == ResSt(<<k>> \o Full(s), [st EXCEPT ![r] = s])
      see(v) == ResSt(v, st)
      q == a[2] + 1
      both(s, t) == ResSt(Full(s) \o Full(t), [[st EXCEPT ![q] = t] EXCEPT ![r] = s])
      pair(k, s, t) == ResSt(<<k>> \o Full(s) \o Full(t), [[st EXCEPT ![q] = t] EXCEPT ![r] = s])
      move(k, p, i, e) ==      \* elements i..e-1 of register p to position k of register r
        LET seg == Slice(st[p], i, e) IN
        IF p # r THEN LET y == Ins(x, k, seg) z == Del(st[p], i, e) IN ResSt(<<k + e - i>> \o Full(y) \o Full(z), [[st EXCEPT ![p] = z] EXCEPT ![r] = y])
        ELSE LET rest == Del(x, i, e) to == IF k <= i THEN k ELSE k - (e - i) y == Ins(rest, to, seg) IN ResSt(<<to + e - i>> \o Full(y) \o Full(y), [st EXCEPT ![r] = y])
  IN CASE op = "pushf" -> put(<<a[2]>> \o x)
       [] op = "popf" -> put(Tail(x))
       [] op = "pushb" -> ResSt(<<a[2]>> \o Full(Append(x, a[2])), [st EXCEPT ![r] = Append(x, a[2])])
       [] op = "insert" -> at(a[2] + 1, Ins(x, a[2], <<a[3]>>))
       [] op = "insertn" -> at(a[2] + a[3], Ins(x, a[2], Rep(a[3], a[4])))
       [] op = "insertv" -> at(a[2] + Len(a) - 2, Ins(x, a[2], From(a, 3)))
       [] op = "erase" -> at(a[2], Del(x, a[2], a[2] + 1))
       [] op = "eraser" -> at(a[2], Del(x, a[2], a[3]))
       [] op = "assignn" -> put(Rep(a[2], a[3]))
       [] op = "assignv" -> put(From(a, 2))
       [] op = "resize" -> put(Upto(x, Min({n, a[2]})) \o Rep(Max({0, a[2] - n}), 0))
       [] op = "resizev" -> put(Upto(x, Min({n, a[2]})) \o Rep(Max({0, a[2] - n}), a[3]))
       [] op = "rev" -> put(Reverse(x))
       [] op = "revr" -> at(a[3], Upto(x, a[2]) \o Reverse(Slice(x, a[2], a[3])) \o From(x, a[3] + 1))
       [] op = "remove" -> put(SelectSeq(x, LAMBDA v : v # a[2]))
       [] op = "remodd" -> put(SelectSeq(x, LAMBDA v : v % 2 = 0))
       [] op = "uniq" -> put(Uniq(x, LAMBDA s, t : s = t))
       [] op = "uniqle" -> put(Uniq(x, LAMBDA s, t : s <= t))
       [] op = "sort" -> put(Sorted(x))
       [] op = "sortr" -> at(a[3], Upto(x, a[2]) \o Sorted(Slice(x, a[2], a[3])) \o From(x, a[3] + 1))
       [] op = "sortrg" -> at(a[3], Upto(x, a[2]) \o Reverse(Sorted(Slice(x, a[2], a[3]))) \o From(x, a[3] + 1))
       [] op = "sort2" -> put(Upto(x, a[2]) \o Sorted(Slice(x, a[2], a[3])) \o Slice(x, a[3], a[4]) \o Sorted(Slice(x, a[4], a[5])) \o From(x, a[5] + 1))
       [] op = "merger" -> LET m == Sorted(Slice(x, a[2], a[3]) \o Slice(x, a[4], a[5])) IN
            IF a[4] = a[5] \/ (a[6] = 1 /\ a[2] = a[3]) THEN \* nothing to merge in or into
              (IF a[6] = 0 THEN at(a[3], x)
               ELSE IF a[2] = a[3] THEN at(a[5], x)
               ELSE at(a[5], Upto(x, a[2]) \o Slice(x, a[3], a[4]) \o m \o From(x, a[5] + 1)))
            ELSE IF a[6] = 0 THEN at(a[2] + Len(m), Upto(x, a[2]) \o m \o Slice(x, a[3], a[4]) \o From(x, a[5] + 1))
            ELSE at(a[5], Upto(x, a[2]) \o Slice(x, a[3], a[4]) \o m \o From(x, a[5] + 1))
       [] op = "merge" -> both(Sorted(x \o st[q]), <<>>)
       [] op = "append" -> pair(n, x \o st[q], <<>>)
       [] op = "prepend" -> pair(Len(st[q]), st[q] \o x, <<>>)
       [] op = "appendv" -> at(n + Len(a) - 1, x \o From(a, 2))
       [] op = "prependv" -> at(Len(a) - 1, From(a, 2) \o x)
       [] op = "splice" -> move(a[2], a[3] + 1, 0, Len(st[a[3] + 1]))
       [] op = "splice1" -> move(a[2], a[3] + 1, a[4], a[4] + 1)
       [] op = "splicer" -> move(a[2], a[3] + 1, a[4], a[5])
       [] op = "copy" -> ResSt(Full(st[q]) \o Full(st[q]), [st EXCEPT ![r] = st[q]])
       [] op = "move" -> both(st[q], <<>>)
       [] op = "swap" -> ResSt(Full(st[q]) \o Full(x), [st EXCEPT ![r] = st[q], ![q] = x])
       [] op = "clear" -> put(<<>>)
       [] op = "same" -> put(x)
       [] op = "vec" -> see(x)
       [] op = "ends" -> see(<<x[1]>>)
       [] op = "single" -> see(<<B(n = 0), B(n = 1)>>)

\* a stack and a queue
StackQueue(st, op, a) ==
  LET s == st[1] q == st[2] IN
  CASE op = "spush" -> ResSt(<<a[1], 0>>, <<Append(s, a[1]), q>>)
    [] op = "spop" -> ResSt(<<s[Len(s)], B(Len(s) = 1)>>, <<Front(s), q>>)
    [] op = "qpush" -> ResSt(<<(q \o a)[1], Len(q) + 1, 0>>, <<s, Append(q, a[1])>>)
    [] op = "qpop" -> ResSt(<<q[1], Len(q) - 1, B(Len(q) = 1)>>, <<s, Tail(q)>>)
    [] op = "qsplice" -> ResSt(Full(<<1, q[1], 2>>) \o <<Len(q) - 1>>, <<s, Tail(q)>>)

(* ----------------------------------------------------------- hash tables:
   injective numberings in order of first appearance                       *)
Number(s, v) == IF \E k \in 1..Len(s) : s[k] = v THEN (CHOOSE k \in 1..Len(s) : s[k] = v) - 1 ELSE -1
HashT(st, op, a) ==
  LET r == a[1] + 1 x == st[r] k == Number(x, a[2]) IN
  CASE op = "match" -> LET y == IF k < 0 THEN Append(x, a[2]) ELSE x IN ResSt(<<Number(y, a[2]), Len(y)>>, [st EXCEPT ![r] = y])
    [] op = "find" -> ResSt(<<k, Len(x)>>, st)
    [] op = "all" -> ResSt(x, st)
    [] op = "recon" -> ResSt(<<Len(x) + 1>>, [st EXCEPT ![r] = Append(x, a[2])])
    [] op = "swap" -> ResSt(<<Len(st[2]), Len(st[1])>>, <<st[2], st[1]>>)

(* ------------------------------------------------------------- partitions:
   of 0..n-1, given by the sequence of class numbers and of representatives *)
Members(cl, c) == Asc({i - 1 : i \in {j \in 1..Len(cl) : cl[j] = c}})
PTObs(cl, rep) ==
  LET m == [c \in 1..Len(rep) |-> Members(cl, c - 1)] sz == [c \in 1..Len(rep) |-> Len(m[c])] IN
  <<Len(cl), Len(rep)>> \o cl \o rep \o sz \o sz \o Cat([c \in 1..Len(rep) |-> Full(m[c])])
\* the classes numbered in order of their first elements
FirstOrder(lab) ==
  LET firsts == Asc({i \in 1..Len(lab) : \A j \in 1..(i - 1) : lab[j] # lab[i]})
  IN [cl |-> [i \in 1..Len(lab) |-> (CHOOSE k \in 1..Len(firsts) : lab[firsts[k]] = lab[i]) - 1], rep |-> [k \in 1..Len(firsts) |-> firsts[k] - 1]]
RECURSIVE Orbit(_, _, _)
Orbit(gens, S, new) == IF new = {} THEN S ELSE LET img == {g[x + 1] : g \in gens, x \in new} \ S IN Orbit(gens, S \cup img, img)
PartT(op, a) ==
  CASE op = "values" -> LET f == FirstOrder(a) IN PTObs(f.cl, f.rep)
    [] op = "numbered" -> PTObs(a, [c \in 1..Cardinality(SetOf(a)) |-> Bot({i - 1 : i \in {j \in 1..Len(a) : a[j] = c - 1}})])
    [] op = "orbits" -> LET n == a[1] gens == {SubSeq(a, n * g + 2, n * (g + 1) + 1) : g \in 0..((((Len(a) - 1) \div Max({n, 1}))) - 1)}
                            low == [i \in 1..n |-> Bot(Orbit(gens, {i - 1}, {i - 1}))]
                            f == FirstOrder(low) IN PTObs(f.cl, f.rep)
    [] op = "built" -> LET n == a[1] o == [k \in 1..n |-> a[2 * k]] c == [k \in 1..n |-> a[2 * k + 1]]
                           cl == [i \in 1..n |-> c[CHOOSE k \in 1..n : o[k] = i - 1]] IN PTObs(cl, Upto(o, Cardinality(SetOf(c))))

(* ----------------------------------------------------------- permutations *)
InvP(p) == [i \in 1..Len(p) |-> (CHOOSE j \in 1..Len(p) : p[j] = i - 1) - 1]
Inversions(p) == Cardinality({ij \in (1..Len(p)) \X (1..Len(p)) : ij[1] < ij[2] /\ p[ij[1]] > p[ij[2]]})
StdP(v) == [i \in 1..Len(v) |-> Cardinality({j \in 1..Len(v) : v[j] < v[i] \/ (v[j] = v[i] /\ j < i)})]
PermT(op, a) ==
  LET n == a[1] p == SubSeq(a, 2, n + 1) b == From(a, n + 2) IN
  CASE op = "inv" -> InvP(p)
    [] op = "pull" -> [i \in 1..n |-> b[p[i] + 1]]
    [] op = "permute" -> LET q == InvP(p) IN [i \in 1..n |-> b[q[i] + 1]]
    [] op = "renum" -> [i \in 1..Len(b) |-> p[b[i] + 1]]
    [] op = "renumx" -> [i \in 1..Len(b) |-> IF b[i] = 77 THEN 77 ELSE p[b[i] + 1]]
    [] op = "renumb" -> Asc({p[k + 1] : k \in SetOf(b)})
    [] op = "sign" -> LET m == Inversions(p) IN <<B(m = 0), m % 2, 1 - 2 * (m % 2)>>
    [] op = "fixed" -> Asc({i - 1 : i \in {j \in 1..n : p[j] = j - 1}})
    [] op = "compose" -> LET s == b[1] q == Tail(b) IN [i \in 1..n |-> IF i > s /\ i <= s + Len(q) THEN p[q[i - s] + s + 1] ELSE p[i]]
    [] op = "std" -> StdP(a)
    [] op = "stdb" -> StdP(a) \o [k \in 1..11 |-> Cardinality({i \in 1..Len(a) : a[i] < k - 1})]
    [] op = "bitsp" -> Asc({p[k + 1] : k \in SetOf(b)})
    [] op = "bitsq" -> Asc({i - 1 : i \in {j \in 1..n : p[j] \in SetOf(b)}})
    [] op = "conj" -> LET q == InvP(p) M(i, j) == b[i * n + j + 1] IN [k \in 1..(n * n) |-> M(q[((k - 1) \div n) + 1], q[((k - 1) % n) + 1])] \o [k \in 1..(n * n) |-> M(p[((k - 1) \div n) + 1], p[((k - 1) % n) + 1])]
    [] op = "pullm" -> LET m == b[1] row == [k \in 1..(m * n) |-> b[((k - 1) \div n) * n + p[((k - 1) % n) + 1] + 2]] IN row \o row

(* ------------------------------------------------------------------ posets:
   st[i+1] is the set of elements strictly below i, all less than i        *)
PairsAt(a, k, i) == {a[j] : j \in {m \in {k + 2 * t : t \in 0..((Len(a) - k - 1) \div 2)} : m < Len(a) /\ a[m + 1] = i}}
Down(st, X) == X \cup UNION {st[x + 1] : x \in X}
Closure(n, Low(_)) == FoldLeft(LAMBDA st, i : Append(st, Down(st, Low(i))), <<>>, [i \in 1..n |-> i - 1])
Below(st) == <<Len(st)>> \o Cat([i \in 1..Len(st) |-> <<Cardinality(st[i])>> \o Asc(st[i])])
Maxima(st, S) == {x \in S : ~\E y \in S : x \in st[y + 1]}
Minima(st, S) == {x \in S : st[x + 1] \cap S = {}}
Above(st, x) == {s \in 0..(Len(st) - 1) : x \in st[s + 1]}
Covers(st, x) == Maxima(st, st[x + 1])
PosetT(st, op, a) ==
  LET n == Len(st) put(s) == ResSt(Below(s), s) see(v) == ResSt(v, st) IN
  CASE op = "new" -> put([i \in 1..a[1] |-> {}])
    [] op = "hasse" -> put(Closure(a[1], LAMBDA i : PairsAt(a, 2, i)))
    [] op = "ncompH" -> see(<<n + FoldLeft(LAMBDA s, x : s + Cardinality(x), 0, st)>>)
    [] op = "ncomp" -> see(<<n + FoldLeft(LAMBDA s, x : s + Cardinality(x), 0, st)>>)
    [] op = "max" -> put(Append(st, Down(st, SetOf(a))))
    [] op = "resize" -> put(st \o [i \in 1..(a[1] - n) |-> {}])
    [] op = "dual" -> put([i \in 1..n |-> {j \in 0..(i - 2) : n - i \in st[n - j]}])
    [] op = "above" -> see(Asc(Above(st, a[1])))
    [] op = "covers" -> see(Asc(Covers(st, a[1])) \o <<-1>> \o Asc(Minima(st, Above(st, a[1]))))
    [] op = "extrema" -> see(Asc(Maxima(st, SetOf(a))) \o <<-1>> \o Asc(Minima(st, SetOf(a))))
    [] op = "graph" -> see(<<n>> \o Cat([i \in 1..n |-> LET c == Covers(st, i - 1) IN <<Cardinality(c)>> \o Asc(c)]))
    [] op = "graphto" -> see(<<a[1] + 1>> \o Cat([i \in 1..(a[1] + 1) |-> LET c == IF i - 1 = a[1] \/ i - 1 \in st[a[1] + 1] THEN Covers(st, i - 1) ELSE {} IN <<Cardinality(c)>> \o Asc(c)]))
    [] op = "le" -> see(<<B(a[1] = a[2] \/ a[1] \in st[a[2] + 1])>>)
    [] op = "eq" -> see(<<1>>)

(* --------------------------------------------------- preorders: transitive
   closure of a relation given by pairs                                     *)
Reach(n, a) == FoldLeft(LAMBDA R, k : [i \in 1..n |-> IF k \in R[i] THEN R[i] \cup R[k] ELSE R[i]],
                        [i \in 1..n |-> {a[2 * t + 1] + 1 : t \in {u \in 1..((Len(a) - 1) \div 2) : a[2 * u] = i - 1}}], [k \in 1..n |-> k])
Pairs(R, n) == Cat([i \in 1..n |-> LET s == Asc(R[i]) IN Cat([k \in 1..Len(s) |-> <<i - 1, s[k] - 1>>])])
PairSet(s) == {<<s[2 * k - 1], s[2 * k]>> : k \in 1..(Len(s) \div 2)}
\* split a sequence of length-prefixed lists
RECURSIVE Lists(_)
Lists(s) == IF s = <<>> THEN <<>> ELSE <<SubSeq(s, 2, s[1] + 1)>> \o Lists(From(s, s[1] + 2))
PreorderOK(op, a, res) ==
  LET n == a[1] R == Reach(n, a) IN
  CASE op = "closure" -> res = Pairs(R, n)
    [] op = "rclosure" -> PairSet(res) = PairSet(Pairs(R, n))
    [] op = "cliques" -> LET L == Lists(res) IN
         /\ SetOf(L) = {Asc({j - 1 : j \in {k \in 1..n : k \in R[i] /\ i \in R[k]}}) : i \in {k \in 1..n : k \in R[k]}}
         /\ Cardinality(SetOf(L)) = Len(L)

(* ---------------------------------------------------------------- machines *)
Start(kind) == CASE kind = "bm" -> [r \in 1..4 |-> [c |-> 0, s |-> {}]]
                 [] kind = "bs" -> [r \in 1..3 |-> {}]
                 [] kind = "sl" -> [r \in 1..3 |-> <<>>]
                 [] kind = "sq" -> <<<<>>, <<>>>>
                 [] kind = "ht" -> <<<<>>, <<>>>>
                 [] OTHER -> <<>>
After(kind, par, st, op, a) ==
  CASE kind = "bm" -> BMap(st, op, a)
    [] kind = "bs" -> BSet(par, st, op, a)
    [] kind = "sl" -> SList(st, op, a)
    [] kind = "sq" -> StackQueue(st, op, a)
    [] kind = "ht" -> HashT(st, op, a)
    [] kind = "pt" -> ResSt(PartT(op, a), st)
    [] kind = "pm" -> ResSt(PermT(op, a), st)
    [] kind = "po" -> PosetT(st, op, a)
=============================================================================

-------------------------------- MODULE Linear --------------------------------
(* Formal linear combinations: finite functions from keys to split integers
   <<a,b>> = a + b*s with s^2 = 1; zero values are absent from the domain.
   Registers hold such functions, the actions are the operations on them.
   A key may stand for a combination itself (a parameter that is not final):
   the table ex gives it, other keys stand for themselves.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Zero == <<0, 0>>
Val(f, k) == IF k \in DOMAIN f THEN f[k] ELSE Zero
Fun(S, F(_)) == LET T == {k \in S : F(k) # Zero} IN [k \in T |-> F(k)]
Nil == Fun({}, LAMBDA k : Zero)
Sp(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Sx(x, y) == <<x[1] * y[1] + x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
Plus(f, g) == Fun(DOMAIN f \cup DOMAIN g, LAMBDA k : Sp(Val(f, k), Val(g, k)))
Times(c, f) == Fun(DOMAIN f, LAMBDA k : Sx(c, f[k]))
Put(f, k, c) == Fun(DOMAIN f \cup {k}, LAMBDA j : IF j = k THEN c ELSE f[j])
One(k, c) == Put(Nil, k, c)
\* sum of c times the combination of k
OfTerms(ts) == FoldLeft(LAMBDA f, t : Plus(f, One(t[1], <<t[2], t[3]>>)), Nil, ts)
Lift(f, tab) == FoldLeft(LAMBDA g, k : Plus(g, Times(f[k], tab[k])), Nil, SetToSeq(DOMAIN f))
Shift(f, d) == [k \in {j + d : j \in DOMAIN f} |-> f[k - d]]
Product(f, g) == FoldLeft(LAMBDA h, k : Plus(h, Times(f[k], Shift(g, k))), Nil, SetToSeq(DOMAIN f))
Terms(f) == {<<k, f[k][1], f[k][2]>> : k \in DOMAIN f}
B(b) == IF b THEN 1 ELSE 0

\* D = [ex, img, sc, ht] tables; w the registers; e = [op, a, r]
Ex(D, k) == IF k \in DOMAIN D.ex THEN D.ex[k] ELSE One(k, <<1, 0>>)
After(D, w, e) ==
  LET a == e.a
      put(f) == [res |-> <<>>, w |-> [w EXCEPT ![a[1]] = f]]
      see(v) == [res |-> v, w |-> w]
      R(j) == w[a[j]]
      C(j) == <<a[j], a[j + 1]>>
  IN CASE e.op = "null" -> put(Nil)
       [] e.op = "copy" -> put(R(2))
       [] e.op = "add" -> put(Plus(R(2), Times(C(4), Ex(D, a[3]))))                 \* r := q + c*k
       [] e.op = "list" -> put(FoldLeft(LAMBDA f, j : Plus(f, Times(<<a[3 * j + 1], a[3 * j + 2]>>, Ex(D, a[3 * j]))), R(2), [j \in 1..((Len(a) - 2) \div 3) |-> j]))
       [] e.op = "addm" -> put(Plus(R(2), Times(C(4), R(3))))                        \* r := q + c*t
       [] e.op = "mul" -> put(Times(C(3), R(2)))
       [] e.op = "put" -> put(Put(R(1), a[2], C(3)))
       [] e.op = "coef" -> see(Val(R(1), a[2]))
       [] e.op = "size" -> see(<<Cardinality(DOMAIN R(1))>>)
       [] e.op = "bound" -> see(<<IF e.r[1] >= Cardinality(DOMAIN R(1)) THEN e.r[1] ELSE -1>>)
       [] e.op = "zero" -> see(<<B(DOMAIN R(1) = {})>>)
       [] e.op = "nonzero" -> see(<<B(DOMAIN R(1) # {})>>)
       [] e.op = "eq" -> see(<<B(R(1) = R(2))>>)
       [] e.op = "neq" -> see(<<B(R(1) # R(2))>>)
       [] e.op = "cut" -> put(Fun(DOMAIN R(2), LAMBDA k : IF D.ht[k] <= a[3] THEN R(2)[k] ELSE Zero))
       [] e.op = "img" -> put(Lift(R(2), D.img))
       [] e.op = "sc" -> LET F == Lift(R(1), D.sc[a[2]]) IN see(IF Len(e.r) = Cardinality(DOMAIN F) /\ Range(e.r) = Terms(F) THEN e.r ELSE <<"expected", Terms(F)>>)
       [] e.op = "conv" -> put(Product(R(2), R(3)))
       [] e.op = "shadd" -> put(Plus(R(1), Times(C(4), Shift(R(2), a[3]))))          \* r += c*x^d*q
       [] e.op \in {"first", "last"} -> see(IF DOMAIN R(1) = {} THEN <<-1>> ELSE e.r)   \* which term is judged from the display
       [] e.op = "err" -> see(<<-1>>)

\* the sequence o displays the function f in the order of iteration
Shows(o, f) == Len(o) = Cardinality(DOMAIN f) /\ Range(o) = Terms(f)

Small == {Fun({1, 2}, LAMBDA k : IF k = 1 THEN x ELSE y) : x \in {<<0, 0>>, <<1, -1>>, <<1, 1>>, <<2, 0>>}, y \in {<<0, 0>>, <<0, 1>>, <<-1, 1>>}}
Laws == \A f \in Small, g \in Small :
        /\ Plus(f, g) = Plus(g, f) /\ Plus(f, Times(<<-1, 0>>, f)) = Nil
        /\ \A c \in {<<0, 1>>, <<1, 1>>, <<1, -1>>, <<3, -2>>} : Times(c, Plus(f, g)) = Plus(Times(c, f), Times(c, g))
        /\ Times(<<1, 1>>, Times(<<1, -1>>, f)) = Nil /\ Times(<<0, 1>>, Times(<<0, 1>>, f)) = f
        /\ Product(f, g) = Product(g, f) /\ OfTerms(SetToSeq(Terms(f))) = f
=============================================================================

-------------------------------- MODULE Polys --------------------------------
(* Polynomials as sequences of coefficients (position k holds the coefficient
   of q^(k-1)) without leading zeros; three registers, and the sequence of
   polynomials entered in a table of distinct polynomials.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

RECURSIVE Norm(_)
Norm(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN Norm(SubSeq(s, 1, Len(s) - 1)) ELSE s
Cf(s, d) == IF d >= 0 /\ d < Len(s) THEN s[d + 1] ELSE 0
MaxOf(a, b) == IF a > b THEN a ELSE b
Build(n, F(_)) == Norm([k \in 1..n |-> F(k - 1)])
Sum(n, F(_)) == FoldLeft(LAMBDA t, k : t + F(k), 0, [k \in 1..n |-> k - 1])
Add(s, t) == Build(MaxOf(Len(s), Len(t)), LAMBDA d : Cf(s, d) + Cf(t, d))
Sub(s, t) == Build(MaxOf(Len(s), Len(t)), LAMBDA d : Cf(s, d) - Cf(t, d))
Mul(s, t) == Build(Len(s) + Len(t), LAMBDA d : Sum(Len(s), LAMBDA k : Cf(s, k) * Cf(t, d - k)))
Scale(s, c) == Build(Len(s), LAMBDA d : c * Cf(s, d))
Shift(s, d) == IF s = <<>> THEN s ELSE [k \in 1..d |-> 0] \o s
\* the coefficients of degrees up to d of the power series s/(1 + c*q^k)
SeriesQuot(s, c, k, d) == FoldLeft(LAMBDA Q, i : Append(Q, Cf(s, i) - c * Cf(Q, i - k)), <<>>, [i \in 1..(d + 1) |-> i - 1])
B(b) == IF b THEN 1 ELSE 0
\* order by degree, then by the highest coefficient that differs
Less(s, t) == \/ Len(s) < Len(t)
              \/ Len(s) = Len(t) /\ \E k \in 1..Len(s) : s[k] < t[k] /\ \A j \in (k + 1)..Len(s) : s[j] = t[j]
Term(c, d) == IF d = 0 THEN ToString(c)
              ELSE (IF c = 1 THEN "" ELSE IF c = -1 THEN "-" ELSE ToString(c)) \o "q" \o (IF d > 1 THEN "^" \o ToString(d) ELSE "")
Text(s) == IF s = <<>> THEN "0"
           ELSE FoldLeft(LAMBDA w, d : IF Cf(s, d) = 0 THEN w ELSE w \o (IF d < Len(s) - 1 /\ Cf(s, d) > 0 THEN "+" ELSE "") \o Term(Cf(s, d), d),
                         "", [k \in 1..Len(s) |-> Len(s) - k])

\* st = [p |-> three polynomials, t |-> table]; the result of a step and the new state
Exact(s, c) == c # 0 /\ \A k \in 1..Len(s) : \E m \in -3000..3000 : m * c = s[k]
DivExact(s, c) == [k \in 1..Len(s) |-> IF (s[k] < 0) = (c < 0) THEN (IF c < 0 THEN ((-s[k]) \div (-c)) ELSE (s[k] \div c)) ELSE IF c < 0 THEN -(s[k] \div (-c)) ELSE -((-s[k]) \div c)]
Index(t, s) == IF \E k \in 1..Len(t) : t[k] = s THEN (CHOOSE k \in 1..Len(t) : t[k] = s) - 1 ELSE Len(t)
After(lim, st, e) ==
  LET a == e.a
      r == a[1] + 1
      x == st.p[r]
      P(k) == st.p[a[k] + 1]
      put(s) == [res |-> s, st |-> [st EXCEPT !.p[r] = s]]
      flag(f, s) == [res |-> <<f>> \o s, st |-> [st EXCEPT !.p[r] = s]]
      see(v) == [res |-> v, st |-> st]
  IN CASE e.op = "new" -> put(Norm(SubSeq(a, 2, Len(a))))
       [] e.op = "const" -> put(Norm(<<a[2]>>))
       [] e.op = "mono" -> put(Shift(<<a[3]>>, a[2]))
       [] e.op = "shift" -> put(Shift(P(3), a[2]))
       [] e.op = "add" -> put(Add(P(2), P(3)))
       [] e.op = "sub" -> put(Sub(P(2), P(3)))
       [] e.op = "mul" -> put(Mul(P(2), P(3)))
       [] e.op = "times" -> put(Scale(P(2), a[3]))
       [] e.op = "stimes" -> put(Scale(P(2), a[3]))
       [] e.op = "div" -> IF a[2] # 0 /\ Exact(x, a[2]) THEN flag(0, DivExact(x, a[2])) ELSE see(<<-1>>)
       [] e.op = "sdiv" -> put(DivExact(x, a[2]))
       [] e.op = "rel" -> see(<<B(x = P(2)), B(x # P(2)), B(Less(x, P(2))), B(x = <<>>), Len(x), e.r[6], B(Cardinality({k \in 1..Len(x) : x[k] # 0}) > 1)>>)
       [] e.op = "dlt" -> see(<<B(Len(x) <= a[2])>>)
       [] e.op = "coef" -> see(x \o <<0, 0>> \o x)
       [] e.op = "uprem" -> see(<<IF x = <<>> THEN 0 ELSE Cf(SeriesQuot(x, a[2], 1, a[3]), a[3])>>)
       [] e.op = "upto1" -> put(Mul(x, <<1, 1>>))
       [] e.op = "uptok" -> put(Add(x, Shift(x, a[2])))
       [] e.op = "fac" -> LET Q == SeriesQuot(x, 1, a[2], a[3]) IN flag(Cf(Q, a[3]), Norm(SubSeq(Q, 1, a[3] + 1 - a[2])))
       [] e.op = "print" -> see(<<>>)
       [] e.op = "match" -> see(<<e.r[1]>>)
       [] e.op = "found" -> LET k == Index(st.t, x) IN [res |-> <<k, IF k = Len(st.t) THEN k + 1 ELSE Len(st.t)>>, st |-> IF k = Len(st.t) THEN [st EXCEPT !.t = Append(st.t, x)] ELSE st]
       \* natural coefficients at most lim: an overflow must be reported, and only an overflow
       [] e.op = "sadd" -> LET ok == \A k \in 1..Len(P(2)) : (a[4] = 0 \/ P(2)[k] <= lim \div a[4]) /\ a[4] * P(2)[k] + Cf(x, k - 1 + a[3]) <= lim
                           IN IF ok THEN flag(0, Add(x, Shift(Scale(P(2), a[4]), a[3]))) ELSE see(<<-1>>)
       [] e.op = "ssub" -> put(Sub(x, Shift(Scale(P(2), a[4]), a[3])))
       [] e.op = "quot" -> IF x = <<>> THEN put(<<>>) ELSE put(Norm(SeriesQuot(x, 1, 1, Len(x) - 1)))

\* laws of the specification, checked for all small polynomials
Small == UNION {[1..n -> -2..2] : n \in 0..3}
Laws == \A s \in {Norm(x) : x \in Small}, t \in {Norm(x) : x \in Small} :
        /\ Add(s, t) = Add(t, s) /\ Sub(Add(s, t), t) = s /\ Mul(s, t) = Mul(t, s)
        /\ Len(Mul(s, t)) = (IF s = <<>> \/ t = <<>> THEN 0 ELSE Len(s) + Len(t) - 1)
        /\ Norm(SeriesQuot(Mul(s, <<1, 1>>), 1, 1, 4)) = s
        /\ B(Less(s, t)) + B(Less(t, s)) + B(s = t) = 1
=============================================================================

------------------------------- MODULE Axis -------------------------------
(* Big-step semantics of the core of the axis language: a store of variable
   instances, closures that capture instances, value semantics for every
   kind of value, loops with break, functions with return, error exits that
   keep the side effects already made, and the exact text of printed values.

   A program state is s = [mem, out]: mem maps locations to values, out is
   the sequence of lines printed.  An environment maps a name to a record
   [l,v]: a location l, or l = 0 and a constant value v.                    *)
EXTENDS Integers, Sequences, TLC

Val(t,v) == [t |-> t, v |-> v]
IntV(n) == Val("i",n)
BoolV(b) == Val("b",b)
StrV(x) == Val("s",x)
RowV(x) == Val("row",x)
TupV(x) == Val("tup",x)
VecV(x) == Val("vec",x)                    \* sequence of integers
MatV(c,n) == [t |-> "mat", v |-> c, n |-> n]   \* sequence of columns, number of rows
Void == TupV(<<>>)

\* ---- results of evaluations
R(v,s) == [k |-> "v", v |-> v, n |-> 0, s |-> s]
Brk(n,s) == [k |-> "brk", v |-> Void, n |-> n, s |-> s]
Ret(v,s) == [k |-> "ret", v |-> v, n |-> 0, s |-> s]
Err(s) == [k |-> "err", v |-> Void, n |-> 0, s |-> s]
Stop(s) == [k |-> "stop", v |-> Void, n |-> 0, s |-> s]   \* while condition false

\* ---- printing
RECURSIVE Blanks(_), JoinWith(_,_), Fmt(_), Raw(_), MaxLen(_,_)
Blanks(n) == IF n <= 0 THEN "" ELSE " " \o Blanks(n-1)
PadTo(x,w) == Blanks(w-Len(x)) \o x
JoinWith(xs,sep) == IF Len(xs) = 0 THEN "" ELSE IF Len(xs) = 1 THEN xs[1]
                    ELSE Head(xs) \o sep \o JoinWith(Tail(xs),sep)
MaxLen(xs,m) == IF xs = <<>> THEN m
                ELSE MaxLen(Tail(xs),IF Len(Head(xs)) > m THEN Len(Head(xs)) ELSE m)
FmtVec(v) ==
  LET ts == [i \in 1..Len(v) |-> ToString(v[i])]
      w == MaxLen(ts,0)
  IN IF v = <<>> THEN "[ ]"
     ELSE "[ " \o JoinWith([i \in 1..Len(ts) |-> PadTo(ts[i],w)],", ") \o " ]"
\* every column of a matrix is padded to its own width
\* rational numbers (t = "q": numerator, denominator) and rational vectors
\* (t = "rv": numerators v, common denominator d) in lowest terms
RECURSIVE Gcd(_,_), GcdAll(_,_), LcmDen(_)
Abs(x) == IF x < 0 THEN -x ELSE x
Gcd(a,b) == IF b = 0 THEN Abs(a) ELSE Gcd(b,a % Abs(b))
GcdAll(xs,g) == IF xs = <<>> THEN g ELSE GcdAll(Tail(xs),Gcd(g,Head(xs)))
LcmDen(qs) == IF qs = <<>> THEN 1 ELSE LET l == LcmDen(Tail(qs)) IN (l * Head(qs)[2]) \div Gcd(l,Head(qs)[2])
Q(n,d) == LET g == Gcd(n,d) IN Val("q",<<n \div g,d \div g>>)
RatVecV(qs) ==          \* qs: sequence of <<numerator,denominator>>
  LET d == LcmDen(qs) IN [t |-> "rv", v |-> [i \in 1..Len(qs) |-> qs[i][1] * (d \div qs[i][2])], d |-> d]
FmtMat(cols,n) ==
  LET cw == [j \in 1..Len(cols) |-> MaxLen([i \in 1..n |-> ToString(cols[j][i])],0)]
      line(i) == "| " \o JoinWith([j \in 1..Len(cols) |-> PadTo(ToString(cols[j][i]),cw[j])],", ") \o " |\n"
  IN IF n = 0 \/ cols = <<>>
     THEN "The " \o ToString(n) \o "x" \o ToString(Len(cols)) \o " matrix"
     ELSE "\n" \o JoinWith([i \in 1..n |-> line(i)],"")
Fmt(v) ==
  CASE v.t = "i" -> ToString(v.v)
    [] v.t = "b" -> IF v.v THEN "true" ELSE "false"
    [] v.t = "s" -> "\"" \o v.v \o "\""
    [] v.t = "row" -> "[" \o JoinWith([i \in 1..Len(v.v) |-> Fmt(v.v[i])],",") \o "]"
    [] v.t = "tup" -> "(" \o JoinWith([i \in 1..Len(v.v) |-> Fmt(v.v[i])],",") \o ")"
    [] v.t = "vec" -> FmtVec(v.v)
    [] v.t = "un" -> Fmt(v.v) \o "." \o v.n
    [] v.t = "mat" -> FmtMat(v.v,v.n)
    [] v.t = "q" -> ToString(v.v[1]) \o "/" \o ToString(v.v[2])
    [] v.t = "rv" -> FmtVec(v.v) \o "/" \o ToString(v.d)
    [] v.t = "fun" -> "function"
    [] OTHER -> "?"
\* a matrix is shown through its columns (the driver prints [vec]:columns)
Shown(v) == IF v.t = "mat" THEN RowV([i \in 1..Len(v.v) |-> VecV(v.v[i])]) ELSE v
\* prints() writes strings without quotes and concatenates its arguments
Raw(v) == IF v.t = "s" THEN v.v ELSE Fmt(v)
PrintLine(vs) == JoinWith([i \in 1..Len(vs) |-> Raw(vs[i])],"")

\* ---- store
NewLoc(s,v) == [s EXCEPT !.mem = Append(@,v)]
Get(env,n,s) == LET b == env[n] IN IF b.l = 0 THEN b.v ELSE s.mem[b.l]
Put(env,n,s,v) == [s EXCEPT !.mem[env[n].l] = v]

\* binding a pattern creates fresh instances
RECURSIVE Bind(_,_,_), BindAll(_,_,_,_)
Bind(p,v,es) ==   \* es = <<env,s>>
  IF p.o = "skip" THEN es
  ELSE IF p.o = "id"
  THEN IF p.c THEN << (p.n :> [l |-> 0, v |-> v]) @@ es[1], es[2] >>
       ELSE LET s1 == NewLoc(es[2],v)
            IN << (p.n :> [l |-> Len(s1.mem), v |-> Void]) @@ es[1], s1 >>
  ELSE LET e1 == BindAll(p.ps,v.v,1,es)
       IN IF p.n = "" THEN e1
          ELSE LET s1 == NewLoc(e1[2],v)
               IN << (p.n :> [l |-> Len(s1.mem), v |-> Void]) @@ e1[1], s1 >>
BindAll(ps,vs,i,es) == IF i > Len(ps) THEN es ELSE BindAll(ps,vs,i+1,Bind(ps[i],vs[i],es))

\* ---- strict operations
FloorMod(a,b) == IF b > 0 THEN a % b ELSE -((-a) % (-b))   \* sign of the divisor
EuclQuo(a,b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
Rev(x) == [i \in 1..Len(x) |-> x[Len(x)+1-i]]
RECURSIVE Flat(_)
Flat(xs) == IF xs = <<>> THEN <<>> ELSE Head(xs) \o Flat(Tail(xs))
RECURSIVE DotP(_,_,_)
DotP(a,b,i) == IF i > Len(a) THEN 0 ELSE a[i]*b[i] + DotP(a,b,i+1)
ValEq(a,b) == Fmt(a) = Fmt(b)      \* equality of values of equal type

\* builtin operations: f is a name made of the operation and operand kinds;
\* the result is a sequence: empty when the operation reports an error
Op(f,a) ==
  LET x == a[1].v  y == a[2].v IN
  CASE f = "+" -> <<IntV(x+y)>>
    [] f = "-" -> <<IntV(x-y)>>
    [] f = "*" -> <<IntV(x*y)>>
    [] f = "%" -> IF y = 0 THEN <<>> ELSE <<IntV(FloorMod(x,y))>>
    [] f = "\\" -> IF y = 0 THEN <<>> ELSE <<IntV(EuclQuo(x,y))>>
    [] f = "neg" -> <<IntV(-x)>>
    [] f = "=" -> <<BoolV(ValEq(a[1],a[2]))>>
    [] f = "!=" -> <<BoolV(~ValEq(a[1],a[2]))>>
    [] f = "<" -> <<BoolV(x < y)>>
    [] f = "<=" -> <<BoolV(x <= y)>>
    [] f = ">" -> <<BoolV(x > y)>>
    [] f = ">=" -> <<BoolV(x >= y)>>
    [] f = "s##" -> <<StrV(x \o y)>>
    [] f = "i2s" -> <<StrV(ToString(x))>>
    [] f = "#r" -> <<IntV(Len(x))>>
    [] f = "#m" -> <<IntV(Len(x))>>
    [] f = "r##" -> <<RowV(x \o y)>>
    [] f = "r#e" -> <<RowV(Append(x,a[2]))>>
    [] f = "e#r" -> <<RowV(<<a[1]>> \o y)>>
    [] f = "##r" -> <<RowV(Flat([i \in 1..Len(x) |-> x[i].v]))>>
    [] f = "v+" -> IF Len(x) # Len(y) THEN <<>> ELSE <<VecV([i \in 1..Len(x) |-> x[i]+y[i]])>>
    [] f = "v-" -> IF Len(x) # Len(y) THEN <<>> ELSE <<VecV([i \in 1..Len(x) |-> x[i]-y[i]])>>
    [] f = "vneg" -> <<VecV([i \in 1..Len(x) |-> -x[i]])>>
    [] f = "v*i" -> <<VecV([i \in 1..Len(x) |-> x[i]*y])>>
    [] f = "v%i" -> IF y = 0 THEN <<>> ELSE <<VecV([i \in 1..Len(x) |-> FloorMod(x[i],y)])>>
    [] f = "v\\i" -> IF y = 0 THEN <<>> ELSE <<VecV([i \in 1..Len(x) |-> EuclQuo(x[i],y)])>>
    [] f = "v##" -> <<VecV(x \o y)>>
    [] f = "v#e" -> <<VecV(Append(x,y))>>
    [] f = "e#v" -> <<VecV(<<x>> \o y)>>
    [] f = "v*v" -> IF Len(x) # Len(y) THEN <<>> ELSE <<IntV(DotP(x,y,1))>>
    [] f = "m*v" -> IF Len(x) # Len(y) THEN <<>>
                    ELSE <<VecV([i \in 1..a[1].n |-> DotP([j \in 1..Len(x) |-> x[j][i]],y,1)])>>
    [] f = "^m" -> <<MatV([i \in 1..a[1].n |-> [j \in 1..Len(x) |-> x[j][i]]],Len(x))>>
    [] f = "m+" -> <<MatV([i \in 1..Len(x) |-> [j \in 1..Len(x[i]) |-> x[i][j]+y[i][j]]],a[1].n)>>
    [] f = "r2v" -> <<VecV([i \in 1..Len(x) |-> x[i].v])>>
    [] f = "v2r" -> <<RowV([i \in 1..Len(x) |-> IntV(x[i])])>>
    [] f = "r2m" -> <<MatV([i \in 1..Len(x) |-> x[i].v],Len(x[1].v))>>  \* row of vectors of equal size
    [] f = "not" -> <<BoolV(~x)>>
    [] f = "succ" -> <<IntV(x+1)>>

\* components of an array value: sequence of values
StrAt(x,i) == SubSeq(x,i,i)
Items(v) ==
  CASE v.t = "row" -> v.v
    [] v.t = "vec" -> [i \in 1..Len(v.v) |-> IntV(v.v[i])]
    [] v.t = "s"   -> [i \in 1..Len(v.v) |-> StrV(StrAt(v.v,i))]
    [] v.t = "mat" -> [i \in 1..Len(v.v) |-> VecV(v.v[i])]
    [] v.t = "rv"  -> [i \in 1..Len(v.v) |-> Q(v.v[i],v.d)]
Rebuild(v,its) ==    \* an array of the kind of v with the given components
  CASE v.t = "row" -> RowV(its)
    [] v.t = "vec" -> VecV([i \in 1..Len(its) |-> its[i].v])
    [] v.t = "s"   -> StrV(JoinWith([i \in 1..Len(its) |-> its[i].v],""))
    [] v.t = "mat" -> MatV([i \in 1..Len(its) |-> its[i].v],v.n)
    [] v.t = "rv"  -> RatVecV([i \in 1..Len(its) |-> its[i].v])

\* boundary positions of a slice of an array of n elements, in the traversal
\* direction chosen by the bracket
Slice(v,rev,lo,lorev,hi,hirev) ==
  LET its == IF rev THEN Rev(Items(v)) ELSE Items(v)
      n == Len(its)
      a == IF lorev THEN n-lo ELSE lo
      b == IF hirev THEN n-hi ELSE hi
  IN IF a < 0 \/ b > n THEN <<>>
     ELSE << Rebuild(v,IF a >= b THEN <<>> ELSE SubSeq(its,a+1,b)) >>

Subs(v,i,rev) ==
  LET n == Len(v.v)  j == IF rev THEN n-1-i ELSE i
  IN IF j < 0 \/ j >= n THEN <<>> ELSE << Items(v)[j+1] >>
Subs2(m,i,j,rev) ==
  LET r == m.n  c == Len(m.v)
      i1 == IF rev THEN r-1-i ELSE i
      j1 == IF rev THEN c-1-j ELSE j
  IN IF i1 < 0 \/ i1 >= r \/ j1 < 0 \/ j1 >= c THEN <<>> ELSE << IntV(m.v[j1+1][i1+1]) >>
SetComp(v,i,rev,x) ==
  LET n == Len(v.v)  j == IF rev THEN n-1-i ELSE i
  IN IF j < 0 \/ j >= n THEN <<>>
     ELSE IF v.t = "mat" /\ Len(x.v) # v.n THEN <<>>
     ELSE << [v EXCEPT !.v[j+1] = IF v.t = "row" THEN x ELSE x.v] >>
SetComp2(m,i,j,rev,x) ==
  IF Subs2(m,i,j,rev) = <<>> THEN <<>>
  ELSE LET i1 == IF rev THEN m.n-1-i ELSE i
           j1 == IF rev THEN Len(m.v)-1-j ELSE j
       IN << [m EXCEPT !.v[j1+1][i1+1] = x.v] >>

\* ---- evaluation
RECURSIVE Ev(_,_,_), EvList(_,_,_,_,_), ForIt(_,_,_,_,_,_,_), WhileIt(_,_,_,_), Apply(_,_,_)

EvList(es,i,env,s,acc) ==      \* left to right; result value is the sequence of values
  IF i > Len(es) THEN R(acc,s)
  ELSE LET r == Ev(es[i],env,s)
       IN IF r.k # "v" THEN r ELSE EvList(es,i+1,env,r.s,Append(acc,r.v))

LoopEnd(e,vals) == RowV(IF e.rr THEN Rev(vals) ELSE vals)

\* iterations over xs[i..]: xs is the sequence of <<value,index>> in traversal order
ForIt(e,xs,i,env,s,acc,dummy) ==
  IF i > Len(xs) THEN R(LoopEnd(e,acc),s)
  ELSE LET es == Bind(e.p,TupV(xs[i]),<<env,s>>)
           r == Ev(e.body,es[1],es[2])
       IN CASE r.k = "v" -> ForIt(e,xs,i+1,env,r.s,Append(acc,r.v),dummy)
            [] r.k = "brk" -> IF r.n = 0 THEN R(LoopEnd(e,acc),r.s) ELSE Brk(r.n-1,r.s)
            [] OTHER -> r
WhileIt(e,env,s,acc) ==
  LET r == Ev(e.body,env,s)
  IN CASE r.k = "v" -> WhileIt(e,env,r.s,Append(acc,r.v))
       [] r.k = "stop" -> R(LoopEnd(e,acc),r.s)
       [] r.k = "brk" -> IF r.n = 0 THEN R(LoopEnd(e,acc),r.s) ELSE Brk(r.n-1,r.s)
       [] OTHER -> r

Apply(f,args,s) ==
  LET es == BindAll(f.ps,args,1,<<f.env,s>>)
      r == Ev(f.body,es[1],es[2])
  IN IF r.k = "ret" THEN R(r.v,r.s) ELSE r

Opt(xs,s) == IF xs = <<>> THEN Err(s) ELSE R(xs[1],s)

Ev(e,env,s) ==
  CASE e.o = "lit" -> R(e.v,s)
    [] e.o = "var" -> R(Get(env,e.n,s),s)
    [] e.o = "op" ->
         LET r == EvList(e.as,1,env,s,<<>>)
         IN IF r.k # "v" THEN r
            ELSE Opt(Op(e.f,IF Len(e.as) = 1 THEN <<r.v[1],Void>> ELSE r.v),r.s)
    [] e.o = "if" ->
         LET r == Ev(e.c,env,s)
         IN IF r.k # "v" THEN r ELSE Ev(IF r.v.v THEN e.a ELSE e.b,env,r.s)
    [] e.o = "and" -> LET r == Ev(e.a,env,s) IN IF r.k # "v" \/ ~r.v.v THEN r ELSE Ev(e.b,env,r.s)
    [] e.o = "or" -> LET r == Ev(e.a,env,s) IN IF r.k # "v" \/ r.v.v THEN r ELSE Ev(e.b,env,r.s)
    [] e.o = "case" ->     \* e.lo, e.hi: optional branches (sequences of length 0 or 1)
         LET r == Ev(e.c,env,s)
             n == Len(e.bs)
             i == r.v.v
         IN IF r.k # "v" THEN r
            ELSE Ev(IF i < 0 /\ e.lo # <<>> THEN e.lo[1]
                    ELSE IF (i < 0 \/ i >= n) /\ e.hi # <<>> THEN e.hi[1]
                    ELSE e.bs[FloorMod(i,n)+1],env,r.s)
    [] e.o = "ucase" ->    \* discrimination: branch by tag
         LET r == Ev(e.c,env,s)
         IN IF r.k # "v" THEN r
            ELSE LET hit == {i \in 1..Len(e.bs) : e.bs[i].tag = r.v.n}
                 IN IF hit = {} THEN Ev(e.els,env,r.s)
                    ELSE LET b == e.bs[CHOOSE i \in hit : TRUE]
                             es == Bind(b.p,r.v.v,<<env,r.s>>)
                         IN Ev(b.e,es[1],es[2])
    [] e.o = "inj" -> LET r == Ev(e.a,env,s)
                      IN IF r.k # "v" THEN r ELSE R([t |-> "un", v |-> r.v, n |-> e.tag],r.s)
    [] e.o = "proj" -> LET r == Ev(e.a,env,s) IN IF r.k # "v" THEN r ELSE R(r.v.v[e.i],r.s)
    [] e.o = "seq" ->
         LET r == Ev(e.a,env,s) IN IF r.k # "v" THEN r ELSE Ev(e.b,env,r.s)
    [] e.o = "next" ->
         LET r == Ev(e.a,env,s)
         IN IF r.k # "v" THEN r
            ELSE LET q == Ev(e.b,env,r.s) IN IF q.k # "v" THEN q ELSE R(r.v,q.s)
    [] e.o = "let" ->
         LET r == EvList(e.es,1,env,s,<<>>)
         IN IF r.k # "v" THEN r
            ELSE LET es == BindAll(e.ps,r.v,1,<<env,r.s>>) IN Ev(e.b,es[1],es[2])
    [] e.o = "tup" -> LET r == EvList(e.es,1,env,s,<<>>) IN IF r.k # "v" THEN r ELSE R(TupV(r.v),r.s)
    [] e.o = "row" -> LET r == EvList(e.es,1,env,s,<<>>) IN IF r.k # "v" THEN r ELSE R(RowV(r.v),r.s)
    [] e.o = "fun" -> R([t |-> "fun", ps |-> e.ps, body |-> e.b, env |-> env],s)
    [] e.o = "rec" ->
         LET l == Len(s.mem)+1
             env1 == (e.n :> [l |-> l, v |-> Void]) @@ env
             f == [t |-> "fun", ps |-> e.ps, body |-> e.b, env |-> env1]
         IN R(f,NewLoc(s,f))
    [] e.o = "call" ->
         LET r == Ev(e.f,env,s)
         IN IF r.k # "v" THEN r
            ELSE LET a == EvList(e.as,1,env,r.s,<<>>)
                 IN IF a.k # "v" THEN a ELSE Apply(r.v,a.v,a.s)
    [] e.o = "ass" ->
         LET r == Ev(e.e,env,s) IN IF r.k # "v" THEN r ELSE R(r.v,Put(env,e.n,r.s,r.v))
    [] e.o = "mass" ->     \* multiple assignment to a pattern of names
         LET r == Ev(e.e,env,s)
             F[i \in 0..Len(e.ns)] ==
               IF i = 0 THEN r.s ELSE IF e.ns[i] = "" THEN F[i-1] ELSE Put(env,e.ns[i],F[i-1],r.v.v[i])
         IN IF r.k # "v" THEN r ELSE R(r.v,F[Len(e.ns)])
    [] e.o = "cass" ->     \* n[i] := e, or n[i] f:= e
         LET q == Ev(e.e,env,s)
         IN IF q.k # "v" THEN q
            ELSE LET r == Ev(e.i,env,q.s)
            IN IF r.k # "v" THEN r
               ELSE LET old == Get(env,e.n,r.s)
                        x == IF e.f = "" THEN <<q.v>>
                             ELSE LET c == Subs(old,r.v.v,e.r)
                                  IN IF c = <<>> THEN <<>> ELSE Op(e.f,<<c[1],q.v>>)
                        y == IF x = <<>> THEN <<>> ELSE SetComp(old,r.v.v,e.r,x[1])
                    IN IF y = <<>> THEN Err(r.s) ELSE R(x[1],Put(env,e.n,r.s,y[1]))
    [] e.o = "cass2" ->    \* n[i,j] := e
         LET q == Ev(e.e,env,s)
         IN IF q.k # "v" THEN q
            ELSE LET r == EvList(<<e.i,e.j>>,1,env,q.s,<<>>)
            IN IF r.k # "v" THEN r
               ELSE LET old == Get(env,e.n,r.s)
                        x == IF e.f = "" THEN <<q.v>>
                             ELSE LET c == Subs2(old,r.v[1].v,r.v[2].v,e.r)
                                  IN IF c = <<>> THEN <<>> ELSE Op(e.f,<<c[1],q.v>>)
                        y == IF x = <<>> THEN <<>> ELSE SetComp2(old,r.v[1].v,r.v[2].v,e.r,x[1])
                    IN IF y = <<>> THEN Err(r.s) ELSE R(x[1],Put(env,e.n,r.s,y[1]))
    [] e.o = "fass" ->     \* n.field := e, or n.field f:= e
         LET q == Ev(e.e,env,s)
         IN IF q.k # "v" THEN q
            ELSE LET old == Get(env,e.n,q.s)
                     x == IF e.f = "" THEN <<q.v>> ELSE Op(e.f,<<old.v[e.i],q.v>>)
                 IN IF x = <<>> THEN Err(q.s)
                    ELSE R(x[1],Put(env,e.n,q.s,[old EXCEPT !.v[e.i] = x[1]]))
    [] e.o = "sub" ->      \* index first, then array
         LET r == Ev(e.i,env,s)
         IN IF r.k # "v" THEN r
            ELSE LET q == Ev(e.a,env,r.s)
                 IN IF q.k # "v" THEN q ELSE Opt(Subs(q.v,r.v.v,e.r),q.s)
    [] e.o = "sub2" ->
         LET r == EvList(<<e.i,e.j>>,1,env,s,<<>>)
         IN IF r.k # "v" THEN r
            ELSE LET q == Ev(e.a,env,r.s)
                 IN IF q.k # "v" THEN q ELSE Opt(Subs2(q.v,r.v[1].v,r.v[2].v,e.r),q.s)
    [] e.o = "slice" ->    \* upper, lower, array
         LET h == Ev(e.hi,env,s)
         IN IF h.k # "v" THEN h
            ELSE LET l == Ev(e.lo,env,h.s)
            IN IF l.k # "v" THEN l
               ELSE LET q == Ev(e.a,env,l.s)
                    IN IF q.k # "v" THEN q
                       ELSE Opt(Slice(q.v,e.r,l.v.v,e.lr,h.v.v,e.hr),q.s)
    [] e.o = "forin" ->
         LET q == Ev(e.a,env,s)
             its == Items(q.v)
             n == Len(its)
             xs == [i \in 1..n |-> << its[i], IntV(i-1) >>]
         IN IF q.k # "v" THEN q ELSE ForIt(e,IF e.tr THEN Rev(xs) ELSE xs,1,env,q.s,<<>>,0)
    [] e.o = "cfor" ->     \* count, lower bound
         LET c == Ev(e.n,env,s)
         IN IF c.k # "v" THEN c
            ELSE LET l == Ev(e.lo,env,c.s)
                     n == IF c.v.v < 0 THEN 0 ELSE c.v.v
                     xs == [i \in 1..n |-> << IntV(l.v.v+i-1) >>]
                 IN IF l.k # "v" THEN l
                    ELSE ForIt(e,IF e.tr THEN Rev(xs) ELSE xs,1,env,l.s,<<>>,0)
    [] e.o = "while" -> WhileIt(e,env,s,<<>>)
    [] e.o = "do" ->       \* condition; body
         LET r == Ev(e.c,env,s)
         IN IF r.k # "v" THEN r ELSE IF r.v.v THEN Ev(e.b,env,r.s) ELSE Stop(r.s)
    [] e.o = "dont" -> Stop(s)
    [] e.o = "brk" -> Brk(e.n,s)
    [] e.o = "ret" -> LET r == Ev(e.e,env,s) IN IF r.k # "v" THEN r ELSE Ret(r.v,r.s)
    [] e.o = "die" -> Err(s)
    [] e.o = "prints" ->
         LET r == EvList(e.es,1,env,s,<<>>)
         IN IF r.k # "v" THEN r
            ELSE R(Void,[r.s EXCEPT !.out = Append(@,PrintLine(r.v))])
    [] e.o = "void" -> LET r == Ev(e.a,env,s) IN IF r.k # "v" THEN r ELSE R(Void,r.s)
=============================================================================

----------------------------- MODULE ArithTrace -----------------------------
(* A register machine of exact integers and rationals.  The state holds the
   registers of one program; each step executes one assignment command whose
   right hand side is an expression tree evaluated exactly (BigInt), or an
   error command that must change nothing.  The trace, recorded from the atlas
   interpreter, gives after every command the error flag, the delivered values
   and all registers; every one of them is compared.                       *)
EXTENDS BigInt, TLC, Json, IOUtils

Progs == JsonDeserialize(IOEnv.progs)   \* sequence of programs

VARIABLES p, pc, ints, rats, ok
vars == <<p, pc, ints, rats, ok>>

V(t,v) == [t |-> t, v |-> v]
Err == [t |-> "e", v |-> 0]
BoolV(b) == V("b", IF b THEN 1 ELSE 0)
ToRat(x) == IF x.t = "i" THEN RInt(x.v) ELSE x.v
RNormal(x) == /\ IsInt(x.n) /\ IsInt(x.q) /\ x.q.s = 1

CmpTest(op,c) == CASE op = "=" -> c = 0 [] op = "!=" -> c # 0 [] op = "<" -> c < 0
                   [] op = "<=" -> c <= 0 [] op = ">" -> c > 0 [] op = ">=" -> c >= 0
CmpOps == {"=","!=","<","<=",">",">="}
UnitInt(x) == x.d = <<1>>
BigExp(x) == Cmp(Abs(x),I(1000000)) > 0   \* generator stays below, except for unit and zero bases

Unary(op,x) ==
  IF x.t = "i" THEN
    CASE op = "neg" -> V("i",Neg(x.v))
      [] op = "compl" -> V("i",Compl(x.v))
      [] op = "inv" -> IF x.v.s = 0 THEN Err ELSE V("r",Frac(One,x.v))
      [] op = "succ" -> V("i",Add(x.v,One))
      [] op = "pred" -> V("i",Sub(x.v,One))
      [] op = "bit_length" -> V("i",I(BitLength(x.v)))
      [] op = "torat" -> V("r",RInt(x.v))
      [] op = "unfrac" -> V("ii",<<x.v,One>>)
  ELSE
    CASE op = "neg" -> V("r",RNeg(x.v))
      [] op = "inv" -> IF x.v.n.s = 0 THEN Err ELSE V("r",Frac(x.v.q,x.v.n))
      [] op = "floor" -> V("i",RFloor(x.v))
      [] op = "ceil" -> V("i",RCeil(x.v))
      [] op = "frac" -> V("r",RSub(x.v,RInt(RFloor(x.v))))
      [] op = "unfrac" -> V("ii",<<x.v.n,x.v.q>>)

IntPow(x,n) ==
  IF UnitInt(x) THEN V("i",IF IsOdd(n) THEN x ELSE One)
  ELSE IF n.s < 0 THEN Err
  ELSE IF x.s = 0 THEN V("i",IF n.s = 0 THEN One ELSE Zero)
  ELSE IF BigExp(n) THEN Err ELSE V("i",Pow(x,SmallVal(n)))
RatPow(x,n) ==
  IF UnitInt(x.n) /\ UnitInt(x.q) THEN V("r",IF IsOdd(n) THEN x ELSE RInt(One))
  ELSE IF x.n.s = 0 THEN IF n.s < 0 THEN Err ELSE V("r",IF n.s = 0 THEN RInt(One) ELSE x)
  ELSE IF BigExp(n) THEN Err ELSE V("r",RPow(x,SmallVal(n)))

Binary(op,x,y) ==
  IF x.t = "i" /\ y.t = "i" THEN
    CASE op = "+" -> V("i",Add(x.v,y.v))
      [] op = "-" -> V("i",Sub(x.v,y.v))
      [] op = "*" -> V("i",Mul(x.v,y.v))
      [] op = "\\" -> IF y.v.s = 0 THEN Err ELSE V("i",Quo(x.v,y.v))
      [] op = "%" -> IF y.v.s = 0 THEN Err ELSE V("i",Rem(x.v,y.v))
      [] op = "\\%" -> IF y.v.s = 0 THEN Err ELSE V("ii",DivMod(x.v,y.v))
      [] op = "/" -> IF y.v.s = 0 THEN Err ELSE V("r",Frac(x.v,y.v))
      [] op = "^" -> IntPow(x.v,y.v)
      [] op = "AND" -> V("i",BitOp(BAnd,x.v,y.v))
      [] op = "OR" -> V("i",BitOp(BOr,x.v,y.v))
      [] op = "XOR" -> V("i",BitOp(BXor,x.v,y.v))
      [] op = "AND_NOT" -> V("i",BitOp(BAndNot,x.v,y.v))
      [] op = "bitwise_subset" -> BoolV(BitSubset(x.v,y.v))
      [] op = "nth_set_bit" -> V("i",I(NthSetBit(x.v,SmallVal(y.v))))
      [] op \in CmpOps -> BoolV(CmpTest(op,Cmp(x.v,y.v)))
  ELSE IF op \in {"\\"} THEN IF y.v.s = 0 THEN Err ELSE V("i",RQuo(x.v,RInt(y.v)))
  ELSE IF op = "^" THEN RatPow(x.v,y.v)
  ELSE LET a == ToRat(x)  b == ToRat(y) IN
    CASE op = "+" -> V("r",RAdd(a,b))
      [] op = "-" -> V("r",RSub(a,b))
      [] op = "*" -> V("r",RMul(a,b))
      [] op = "/" -> IF b.n.s = 0 THEN Err ELSE V("r",RDiv(a,b))
      [] op = "%" -> IF b.n.s = 0 THEN Err ELSE V("r",RMod(a,b))
      [] op \in CmpOps -> BoolV(CmpTest(op,RCmp(a,b)))

RECURSIVE Eval(_,_,_)
Eval(e,iv,rv) ==
  CASE e.o = "i" -> V("i",iv[e.k])
    [] e.o = "r" -> V("r",rv[e.k])
    [] e.o = "lit" -> V("i",e.v)
    [] e.o = "rlit" -> V("r",e.v)
    [] e.o = "bitset" -> V("i",OfBits(e.v,0))
    [] e.o = "un" -> LET x == Eval(e.a,iv,rv) IN IF x.t = "e" THEN Err ELSE Unary(e.f,x)
    [] e.o = "bin" -> LET x == Eval(e.a,iv,rv)  y == Eval(e.b,iv,rv)
                      IN IF x.t = "e" \/ y.t = "e" THEN Err ELSE Binary(e.f,x,y)

\* the values a result delivers, in order
Parts(x) == IF x.t = "ii" THEN <<V("i",x.v[1]),V("i",x.v[2])>> ELSE <<x>>

RECURSIVE Store(_,_,_,_)
Store(ds,vs,iv,rv) ==
  IF ds = <<>> THEN <<iv,rv>>
  ELSE LET d == Head(ds)  v == Head(vs)
       IN IF d.t = "i" THEN Store(Tail(ds),Tail(vs),[iv EXCEPT ![d.k] = v.v],rv)
          ELSE IF d.t = "r" THEN Store(Tail(ds),Tail(vs),iv,[rv EXCEPT ![d.k] = ToRat(v)])
          ELSE Store(Tail(ds),Tail(vs),iv,rv)

Init == /\ p \in 1..Len(Progs)
        /\ pc = 1
        /\ ints = Progs[p].ints
        /\ rats = Progs[p].rats
        /\ ok = TRUE

Step == /\ ok /\ pc <= Len(Progs[p].cmds)
        /\ LET c == Progs[p].cmds[pc]
               x == Eval(c.e,ints,rats)
               st == IF x.t = "e" THEN <<ints,rats>> ELSE Store(c.ds,Parts(x),ints,rats)
           IN /\ ints' = st[1]
              /\ rats' = st[2]
              /\ ok' = /\ c.err = (x.t = "e")
                       /\ x.t # "e" => c.res = [i \in 1..Len(Parts(x)) |-> Parts(x)[i]]
                       /\ c.ints = st[1]
                       /\ c.rats = st[2]
        /\ pc' = pc + 1
        /\ p' = p
Next == Step
Spec == Init /\ [][Next]_vars

Conforms == ok
RatsReduced == \A i \in 1..Len(rats) : RNormal(rats[i])
=============================================================================

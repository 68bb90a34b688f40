------------------------------- MODULE BigInt -------------------------------
(* Exact integers of any size.  TLC integers have 32 bits, so an integer is a
   record [s, d]: sign s in {-1,0,1} and magnitude d, a little-endian sequence
   of base-1000 digits without leading (i.e. trailing) zeros.  Zero is
   [s |-> 0, d |-> <<>>].  Rationals are [n, q] with q > 0 and gcd 1.       *)
EXTENDS Integers, Sequences, SequencesExt

B == 1000

Digit(d,i) == IF i <= Len(d) THEN d[i] ELSE 0
MaxLen(a,b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE Trim(_)
Trim(d) == IF d = <<>> THEN d
           ELSE IF d[Len(d)] = 0 THEN Trim(SubSeq(d,1,Len(d)-1)) ELSE d

\* carry propagation of a sequence of column values, each non-negative
RECURSIVE Carry(_,_,_,_)
Carry(c,i,carry,acc) ==
  IF i > Len(c)
  THEN IF carry = 0 THEN acc ELSE Carry(c,i,carry \div B,Append(acc,carry % B))
  ELSE LET t == c[i] + carry
       IN Carry(c,i+1,t \div B,Append(acc,t % B))

MagAdd(a,b) == Carry([i \in 1..MaxLen(a,b) |-> Digit(a,i)+Digit(b,i)],1,0,<<>>)

RECURSIVE Borrow(_,_,_,_,_)
Borrow(a,b,i,br,acc) ==           \* a >= b
  IF i > Len(a) THEN Trim(acc)
  ELSE LET t == a[i] - Digit(b,i) - br
       IN IF t < 0 THEN Borrow(a,b,i+1,1,Append(acc,t+B))
                   ELSE Borrow(a,b,i+1,0,Append(acc,t))
MagSub(a,b) == Borrow(a,b,1,0,<<>>)

RECURSIVE MagCmpAt(_,_,_)
MagCmpAt(a,b,i) == IF i = 0 THEN 0
                   ELSE IF a[i] # b[i] THEN IF a[i] < b[i] THEN -1 ELSE 1
                   ELSE MagCmpAt(a,b,i-1)
MagCmp(a,b) == IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1
               ELSE MagCmpAt(a,b,Len(a))

RECURSIVE ColSum(_,_,_,_,_)
ColSum(a,b,k,i,hi) == IF i > hi THEN 0 ELSE a[i]*b[k-i+1] + ColSum(a,b,k,i+1,hi)
MagMul(a,b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE LET la == Len(a)  lb == Len(b)
           lo(k) == IF k-lb+1 > 1 THEN k-lb+1 ELSE 1
           hi(k) == IF k < la THEN k ELSE la
       IN Carry([k \in 1..la+lb-1 |-> ColSum(a,b,k,lo(k),hi(k))],1,0,<<>>)
MagMulSmall(a,m) == IF m = 0 THEN <<>> ELSE Carry([i \in 1..Len(a) |-> a[i]*m],1,0,<<>>)

\* largest q in lo..hi with b*q <= r
RECURSIVE QDigit(_,_,_,_)
QDigit(b,r,lo,hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo+hi+1) \div 2
       IN IF MagCmp(MagMulSmall(b,m),r) <= 0 THEN QDigit(b,r,m,hi) ELSE QDigit(b,r,lo,m-1)
RECURSIVE MagDivAt(_,_,_,_,_)
MagDivAt(a,b,i,q,r) ==  \* process digits of a from the top; q little-endian built in front
  IF i = 0 THEN <<Trim(q),r>>
  ELSE LET r1 == Trim(<<a[i]>> \o r)
           d == IF MagCmp(b,r1) > 0 THEN 0 ELSE QDigit(b,r1,1,999)
       IN MagDivAt(a,b,i-1,<<d>> \o q, IF d = 0 THEN r1 ELSE MagSub(r1,MagMulSmall(b,d)))
MagDiv(a,b) ==
  IF MagCmp(a,b) < 0 THEN <<<<>>,a>>
  ELSE LET k == Len(b)-1     \* the top k digits of a start as remainder
       IN MagDivAt(a,b,Len(a)-k,<<>>,SubSeq(a,Len(a)-k+1,Len(a)))

Zero == [s |-> 0, d |-> <<>>]
Mk(s,d) == IF d = <<>> THEN Zero ELSE [s |-> s, d |-> d]
RECURSIVE MagOfNat(_)
MagOfNat(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o MagOfNat(n \div B)
I(n) == IF n = 0 THEN Zero ELSE IF n > 0 THEN [s |-> 1, d |-> MagOfNat(n)]
        ELSE [s |-> -1, d |-> MagOfNat(-n)]
One == I(1)

IsInt(x) == /\ x.s \in {-1,0,1}
            /\ \A i \in 1..Len(x.d) : x.d[i] \in 0..B-1
            /\ (x.s = 0) = (x.d = <<>>)
            /\ x.d # <<>> => x.d[Len(x.d)] # 0

Neg(x) == [s |-> -x.s, d |-> x.d]
Add(x,y) ==
  IF x.s = 0 THEN y ELSE IF y.s = 0 THEN x
  ELSE IF x.s = y.s THEN [s |-> x.s, d |-> MagAdd(x.d,y.d)]
  ELSE LET c == MagCmp(x.d,y.d)
       IN IF c = 0 THEN Zero
          ELSE IF c > 0 THEN Mk(x.s,MagSub(x.d,y.d)) ELSE Mk(y.s,MagSub(y.d,x.d))
Sub(x,y) == Add(x,Neg(y))
Mul(x,y) == IF x.s = 0 \/ y.s = 0 THEN Zero ELSE [s |-> x.s*y.s, d |-> MagMul(x.d,y.d)]
Cmp(x,y) == IF x.s # y.s THEN IF x.s < y.s THEN -1 ELSE 1
            ELSE IF x.s >= 0 THEN MagCmp(x.d,y.d) ELSE MagCmp(y.d,x.d)

\* Euclidean division: remainder has the sign of the divisor (or is 0)
DivMod(x,y) ==   \* y # 0
  LET qr == MagDiv(x.d,y.d)
      q == Mk(x.s*y.s,qr[1])   r == Mk(x.s,qr[2])
  IN IF r.s # 0 /\ r.s # y.s THEN <<Sub(q,One),Add(r,y)>> ELSE <<q,r>>
Quo(x,y) == DivMod(x,y)[1]
Rem(x,y) == DivMod(x,y)[2]

RECURSIVE Pow(_,_)
Pow(x,n) == IF n = 0 THEN One
            ELSE LET h == Pow(x,n \div 2)  hh == Mul(h,h)
                 IN IF n % 2 = 0 THEN hh ELSE Mul(hh,x)

IsOdd(x) == x.s # 0 /\ x.d[1] % 2 = 1
Abs(x) == [s |-> x.s*x.s, d |-> x.d]

RECURSIVE Gcd(_,_)
Gcd(x,y) == IF y.s = 0 THEN Abs(x) ELSE Gcd(y,Rem(x,y))

\* small integer value of x, for |x| < 10^9
SmallVal(x) == x.s*(Digit(x.d,1) + B*(Digit(x.d,2) + B*Digit(x.d,3)))
IsSmall(x) == Len(x.d) <= 3

(* Two's complement view: <<bits, sgn>>, bits little-endian, sgn the bit that
   continues indefinitely *)
RECURSIVE Halve(_,_,_,_)
Halve(d,i,c,acc) == IF i = 0 THEN <<Trim(acc),c>>
                    ELSE LET t == c*B + d[i] IN Halve(d,i-1,t % 2,<<t \div 2>> \o acc)
RECURSIVE MagBits(_)
MagBits(d) == IF d = <<>> THEN <<>>
              ELSE LET h == Halve(d,Len(d),0,<<>>) IN <<h[2]>> \o MagBits(h[1])
Bits(x) == IF x.s >= 0 THEN <<MagBits(x.d),0>>
           ELSE LET b == MagBits(Sub(Neg(x),One).d)     \* -x-1 >= 0
                IN <<[i \in 1..Len(b) |-> 1-b[i]],1>>
BitAt(w,i) == IF i <= Len(w[1]) THEN w[1][i] ELSE w[2]   \* i from 1
RECURSIVE MagOfBits(_,_,_)
MagOfBits(b,i,acc) == IF i = 0 THEN acc
   ELSE MagOfBits(b,i-1, LET t == MagMulSmall(acc,2) IN IF b[i] = 0 THEN t ELSE MagAdd(t,<<1>>))
OfBits(b,sgn) == IF sgn = 0 THEN LET m == MagOfBits(b,Len(b),<<>>) IN Mk(1,m)
                 ELSE LET m == MagOfBits([i \in 1..Len(b) |-> 1-b[i]],Len(b),<<>>)
                      IN Sub(Neg(Mk(1,m)),One)
BitOp(Op(_,_),x,y) ==
  LET u == Bits(x)  v == Bits(y)  n == MaxLen(u[1],v[1])
  IN OfBits([i \in 1..n |-> Op(BitAt(u,i),BitAt(v,i))],Op(u[2],v[2]))
BAnd(a,b) == a*b
BOr(a,b) == a+b-a*b
BXor(a,b) == a+b-2*a*b
BAndNot(a,b) == a*(1-b)
Compl(x) == Sub(Neg(x),One)
BitSubset(x,y) == BitOp(BAndNot,x,y).s = 0
BitLength(x) == IF x.s >= 0 THEN Len(MagBits(x.d)) ELSE -1-Len(MagBits(Compl(x).d))
\* position (from 0) of the bit number n (from 0) that is set, or -1
RECURSIVE NthSet(_,_,_)
NthSet(w,n,i) ==
  IF i > Len(w[1]) THEN IF w[2] = 0 THEN -1 ELSE i-1+n
  ELSE IF w[1][i] = 1 THEN IF n = 0 THEN i-1 ELSE NthSet(w,n-1,i+1)
  ELSE NthSet(w,n,i+1)
NthSetBit(x,n) == IF n >= 0 THEN NthSet(Bits(x),n,1) ELSE NthSet(Bits(Compl(x)),-1-n,1)

-----------------------------------------------------------------------------
(* rationals *)
Frac(n,q) == LET g == Gcd(n,q)
                 h == IF q.s < 0 THEN Neg(g) ELSE g
             IN [n |-> Quo(n,h), q |-> Quo(q,h)]
RInt(n) == [n |-> n, q |-> One]
RAdd(x,y) == Frac(Add(Mul(x.n,y.q),Mul(y.n,x.q)),Mul(x.q,y.q))
RNeg(x) == [n |-> Neg(x.n), q |-> x.q]
RSub(x,y) == RAdd(x,RNeg(y))
RMul(x,y) == Frac(Mul(x.n,y.n),Mul(x.q,y.q))
RDiv(x,y) == Frac(Mul(x.n,y.q),Mul(x.q,y.n))     \* y # 0
RCmp(x,y) == Cmp(Mul(x.n,y.q),Mul(y.n,x.q))
RFloor(x) == Quo(x.n,x.q)
RCeil(x) == Neg(Quo(Neg(x.n),x.q))
RQuo(x,y) == RFloor(RDiv(x,y))
RMod(x,y) == RSub(x,RMul(RInt(RQuo(x,y)),y))
RPow(x,n) == IF n >= 0 THEN [n |-> Pow(x.n,n), q |-> Pow(x.q,n)]
             ELSE Frac(Pow(x.q,-n),Pow(x.n,-n))
=============================================================================

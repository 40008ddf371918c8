-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic on normalised pairs <<n, d>> (d > 0,          *)
(* gcd(n,d) = 1).  <<s, 0>> is "no lattice rational" (s: the sign of the   *)
(* observed number, 0 for NaN or infinity); it poisons every operation, so *)
(* a value the specification cannot name exactly is never mistaken for one *)
(* it can.  TLC's integers are 32 bit and overflow is an error, never a    *)
(* silent wrap.                                                            *)
EXTENDS Integers, Sequences, TLC

RECURSIVE GcdR(_, _)
GcdR(a, b) == IF b = 0 THEN a ELSE GcdR(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
Gcd(a, b) == GcdR(Abs(a), Abs(b))
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0

NaR == <<0, 0>>
IsRat(a) == a[2] # 0

Rn(n, d) ==                       \* normalise n/d, d # 0
  IF n = 0 THEN <<0, 1>>
  ELSE LET g == Gcd(n, d)
           s == IF d < 0 THEN -1 ELSE 1
       IN <<s * (n \div g), s * (d \div g)>>
\* \div floors, but g divides both, so it is exact
Z(n) == <<n, 1>>
R0 == <<0, 1>>
R1 == <<1, 1>>

RNeg(a) == <<-a[1], a[2]>>
RAdd(a, b) ==
  IF a[2] = 0 \/ b[2] = 0 THEN NaR
  ELSE IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] + b[1], 1>>
  ELSE LET g == Gcd(a[2], b[2])
           da == a[2] \div g
       IN Rn(a[1] * (b[2] \div g) + b[1] * da, da * b[2])
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) ==
  IF a[2] = 0 \/ b[2] = 0 THEN NaR
  ELSE IF a[1] = 0 \/ b[1] = 0 THEN R0
  ELSE IF a = R1 THEN b ELSE IF b = R1 THEN a
  ELSE LET g1 == Gcd(a[1], b[2])
           g2 == Gcd(b[1], a[2])
       IN <<(a[1] \div g1) * (b[1] \div g2), (a[2] \div g2) * (b[2] \div g1)>>
RInv(a) == IF a[2] = 0 \/ a[1] = 0 THEN NaR
           ELSE IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RSqr(a) == RMul(a, a)
RAbs(a) == <<Abs(a[1]), a[2]>>
RSgn(a) == Sgn(a[1])                 \* also right for <<s, 0>>
\* order (exact operands only)
RLess(a, b) == RSgn(RSub(a, b)) < 0
RLeq(a, b) == RSgn(RSub(a, b)) <= 0

\* exact square root: NaR-positive (<<1,0>>) when irrational
RECURSIVE ISqrtR(_, _)
ISqrtR(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtR(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE ISqrtR(n, IF n < 46340 THEN n ELSE 46340)
RSqrt(a) ==
  IF a[2] = 0 \/ a[1] < 0 THEN NaR
  ELSE LET p == ISqrt(a[1])
           q == ISqrt(a[2])
       IN IF p * p = a[1] /\ q * q = a[2] THEN <<p, q>> ELSE <<1, 0>>
RMax(a, b) == IF RLess(a, b) THEN b ELSE a
RMin(a, b) == IF RLess(b, a) THEN b ELSE a

\* ---- vectors and matrices (sequences, sequences of rows) ----
RECURSIVE RSumR(_, _)
RSumR(s, i) == IF i > Len(s) THEN R0 ELSE RAdd(s[i], RSumR(s, i + 1))
RSum(s) == RSumR(s, 1)
VAdd(u, v) == TLCEval([i \in DOMAIN u |-> RAdd(u[i], v[i])])
VSub(u, v) == TLCEval([i \in DOMAIN u |-> RSub(u[i], v[i])])
VNeg(u) == [i \in DOMAIN u |-> RNeg(u[i])]
VScale(a, u) == TLCEval([i \in DOMAIN u |-> RMul(a, u[i])])
VZero(n) == [i \in 1..n |-> R0]
Dot(u, v) == RSum([i \in DOMAIN u |-> RMul(u[i], v[i])])
MVec(M, v) == TLCEval([i \in DOMAIN M |-> Dot(M[i], v)])
MCol(M, j) == [i \in DOMAIN M |-> M[i][j]]
MTr(A) == TLCEval([j \in DOMAIN A[1] |-> MCol(A, j)])
MMul(A, B) == LET a == TLCEval(A)
                 b == TLCEval(MTr(B))
             IN TLCEval([i \in DOMAIN a |-> [j \in DOMAIN b |-> Dot(a[i], b[j])]])
MId(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R1 ELSE R0]]
MScale(a, A) == [i \in DOMAIN A |-> VScale(a, A[i])]
Det3(M) ==
  LET m(i, j) == M[i][j]
      t(a, b, c) == RMul(m(1, a), RSub(RMul(m(2, b), m(3, c)), RMul(m(2, c), m(3, b))))
  IN RAdd(RSub(t(1, 2, 3), t(2, 1, 3)), t(3, 1, 2))
AllRat(v) == \A i \in DOMAIN v : IsRat(v[i])
Norm2(v) == Dot(v, v)
=============================================================================

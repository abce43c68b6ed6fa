------------------------------- MODULE Bytes -------------------------------
(* Numbers as sequences of bytes, least significant first, and naturals of   *)
(* any size in base 256: TLC's integers have 32 bits.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Fill(n, x) == [i \in 1 .. n |-> x]

\* unsigned comparison of two byte sequences of the same length
CmpU(a, b) ==
  LET D == {i \in DOMAIN a : a[i] # b[i]}
  IN IF D = {} THEN 0
     ELSE LET m == CHOOSE i \in D : \A j \in D : j <= i IN IF a[m] < b[m] THEN -1 ELSE 1
Neg(a) == a[Len(a)] >= 128
FlipTop(a) == [a EXCEPT ![Len(a)] = (@ + 128) % 256]
CmpS(a, b) == CmpU(FlipTop(a), FlipTop(b))
Cmp(a, b, signed) == IF signed THEN CmpS(a, b) ELSE CmpU(a, b)

\* --- naturals of any size ---
Pad(a, n) == IF Len(a) >= n THEN a ELSE a \o Fill(n - Len(a), 0)
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
NCmp(a, b) == LET n == MaxI(MaxI(Len(a), Len(b)), 1) IN CmpU(Pad(a, n), Pad(b, n))
NZero(a) == \A i \in DOMAIN a : a[i] = 0
RECURSIVE AddC(_, _, _, _, _)
AddC(a, b, i, n, c) ==
  IF i > n THEN <<>>
  ELSE LET t == Limb(a, i) + Limb(b, i) + c IN <<t % 256>> \o AddC(a, b, i + 1, n, t \div 256)
NAdd(a, b) == LET n == MaxI(Len(a), Len(b)) + 1 IN AddC(a, b, 1, n, 0)
AddMod(a, b, n) == AddC(a, b, 1, n, 0)           \* modulo 256^n
RECURSIVE SubC(_, _, _, _, _)
SubC(a, b, i, n, c) ==
  IF i > n THEN <<>>
  ELSE LET t == Limb(a, i) - Limb(b, i) - c IN <<(t + 256) % 256>> \o SubC(a, b, i + 1, n, IF t < 0 THEN 1 ELSE 0)
NSub(a, b) == SubC(a, b, 1, MaxI(Len(a), Len(b)), 0)    \* needs a >= b
RECURSIVE MulC(_, _, _, _)
MulC(a, m, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c % 256>> \o MulC(a, m, i, c \div 256))
  ELSE LET t == a[i] * m + c IN <<t % 256>> \o MulC(a, m, i + 1, t \div 256)
NMul(a, m) == MulC(a, m, 1, 0)                   \* small m (below 2^22)
NShl(a, k) == Fill(k \div 8, 0) \o NMul(a, 2 ^ (k % 8))
\* two's complement magnitude
Invert(a) == [i \in DOMAIN a |-> 255 - a[i]]
Magnitude(a) == AddC(Invert(a), <<1>>, 1, Len(a) + 1, 0)
MagOf(a) == LET m == SubSeq(Magnitude(a), 1, Len(a)) IN m   \* |a| of a negative number of this width
SignExt(a, n) == a \o Fill(n - Len(a), IF Neg(a) THEN 255 ELSE 0)
ZeroExt(a, n) == a \o Fill(n - Len(a), 0)
RECURSIVE LE(_, _)
LE(v, n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o LE(v \div 256, n - 1)

\* --- IEEE 754: the number is M * 2^ex, negated if sg ---
Float(b) ==
  IF Len(b) = 4
  THEN LET x == (b[4] % 128) * 2 + b[3] \div 128
       IN [m |-> <<b[1], b[2], (b[3] % 128) + (IF x = 0 THEN 0 ELSE 128)>>, ex |-> (IF x = 0 THEN 1 ELSE x) - 150, sg |-> b[4] >= 128, fin |-> x # 255, t |-> 21]
  ELSE LET x == (b[8] % 128) * 16 + b[7] \div 16
       IN [m |-> <<b[1], b[2], b[3], b[4], b[5], b[6], (b[7] % 16) + (IF x = 0 THEN 0 ELSE 16)>>, ex |-> (IF x = 0 THEN 1 ELSE x) - 1075, sg |-> b[8] >= 128, fin |-> x # 2047, t |-> 50]
\* is the floating point number b equal to +-s/n up to rounding?
IsQuotient(b, sg, s, n) ==
  LET f == Float(b)
      A == NMul(f.m, n)
      X == IF f.ex >= 0 THEN NShl(A, f.ex) ELSE A
      Y == IF f.ex >= 0 THEN s ELSE NShl(s, -f.ex)
      D == IF NCmp(X, Y) >= 0 THEN NSub(X, Y) ELSE NSub(Y, X)
  IN IF ~f.fin THEN FALSE
     ELSE IF NZero(s) THEN NZero(f.m)
     ELSE IF f.ex > 80 \/ f.ex < -200 THEN FALSE
     ELSE f.sg = sg /\ NCmp(NShl(D, f.t), Y) <= 0
=============================================================================

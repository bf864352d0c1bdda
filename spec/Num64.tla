--------------------------------- MODULE Num64 ---------------------------------
(* 64 bit integers as sequences of 8 bytes, least significant first.                *)
EXTENDS Integers, Sequences
Zero64 == << 0, 0, 0, 0, 0, 0, 0, 0 >>
I8 == << 1, 2, 3, 4, 5, 6, 7, 8 >>

RECURSIVE MulAdd8(_, _, _, _)
MulAdd8(b, i, m, carry) ==
  IF i > 8 THEN b
  ELSE LET x == (b[i] * m) + carry IN MulAdd8([ b EXCEPT ![i] = x % 256 ], i + 1, m, x \div 256)
\* b * m + a modulo 2^64, for small m and a
MulAdd(b, m, a) == MulAdd8(b, 1, m, a)
Times(b, m) == MulAdd(b, m, 0)

RECURSIVE Add8(_, _, _, _)
Add8(b, c, i, carry) ==
  IF i > 8 THEN b
  ELSE LET x == b[i] + c[i] + carry IN Add8([ b EXCEPT ![i] = x % 256 ], c, i + 1, x \div 256)
Plus(b, c) == Add8(b, c, 1, 0)
Neg(b) == Add8([ i \in 1..8 |-> 255 - b[i] ], Zero64, 1, 1)
Minus(b, c) == Plus(b, Neg(c))

RECURSIVE OfDigits(_, _, _)
OfDigits(s, i, acc) == IF i > Len(s) THEN acc ELSE OfDigits(s, i + 1, MulAdd(acc, 10, s[i] - 48))
\* the number that the decimal digits s stand for
Decimal(s) == OfDigits(s, 1, Zero64)
Int64(n) == MulAdd(Zero64, 1, n)     \* of a small int
IsZero(b) == b = Zero64
Negative(b) == b[8] > 127
================================================================================

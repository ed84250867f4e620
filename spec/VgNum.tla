---- MODULE VgNum ----
(***************************************************************************)
(* Integer arithmetic for the probabilities of vgram.  TLC has 32-bit      *)
(* integers and no reals, so natural logarithms are fixed point numbers in *)
(* units of 1/100000.  Every value returned by Ln is within one unit of    *)
(* the real logarithm; comparisons in the specification allow for that.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, VgLnTab

Unit == 100000                    \* Ln(n) = Unit * ln(n)
Ln2  == 69315
MaxInt == 2147483647

MinOf(a, b) == IF a <= b THEN a ELSE b
MaxOf(a, b) == IF a >= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

\* n = m * 2^k + r with 1024 <= m < 2048: ln n = k ln 2 + ln (m + r/2^k)
RECURSIVE LnBig(_, _, _)
LnBig(m, k, f) ==                 \* f: fraction bits so far, in 1/1024
  IF m <= 2047
  THEN (k * 6931472) \div 100 + LnTab[m] + ((LnTab[m + 1] - LnTab[m]) * f) \div 1024
  ELSE LnBig(m \div 2, k + 1, ((m % 2) * 1024 + f) \div 2)

Ln(n) == IF n <= 2048 THEN LnTab[n] ELSE LnBig(n, 0, 0)

\* integer square root
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtFrom(n, y)
ISqrt(n) == IF n <= 1 THEN n ELSE ISqrtFrom(n, IF n >= 1000000 THEN 46341 ELSE 1000)

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
====

---- MODULE VgStat ----
(***************************************************************************)
(* Statistics of one generation of the dictionary.                         *)
(*                                                                         *)
(* A generation g over the dictionary d is a record                        *)
(*   w    initial weights by entry      cnt   counts by entry              *)
(*   P    number of counted entries     ch    number of parsed symbols     *)
(*   mp   minimum probability, 1e-9     ps    the parses made, in order    *)
(*   rep  parses made many times, <<parse, times>>                         *)
(***************************************************************************)
EXTENDS VgDict

NewGen(w, mp) == [w |-> w, cnt |-> <<>>, P |-> 0, ch |-> 0, mp |-> mp, ps |-> <<>>, rep |-> <<>>]

CountOf(g, i) == IF i <= Len(g.cnt) THEN g.cnt[i] ELSE 0          \* i is 1-based
WeightOf(g, i) == IF i <= Len(g.w) THEN g.w[i] ELSE 0

\* weights used for parsing: initial ones and counts
ParseWeights(g, n) == [i \in 1..n |-> WeightOf(g, i) + CountOf(g, i)]
TotalWeight(g) == SumSeq(g.w) + g.P
Counts(g, n) == [i \in 1..n |-> CountOf(g, i)]

\* s was parsed as out
Counted(g, n, s, out) ==
  [g EXCEPT !.cnt = FoldLeft(LAMBDA c, id : IF id + 1 \in 1..n THEN [c EXCEPT ![id + 1] = @ + 1] ELSE c,
                             PadTo(g.cnt, n, 0), out),
            !.P = @ + Len(out),
            !.ch = @ + Len(s),
            !.ps = Append(@, out)]

\* k occurrences of entry i (0-based) were added explicitly
Bumped(g, i, k) ==
  [g EXCEPT !.cnt = [PadTo(g.cnt, i + 1, 0) EXCEPT ![i + 1] = @ + k], !.P = @ + k]

\* the parse p was made k times
Repeated(g, p, k) ==
  [FoldLeft(LAMBDA a, id : Bumped(a, id, k), g, p) EXCEPT !.ch = @ + k * Len(p),
                                                          !.rep = IF Len(p) > 1 THEN Append(@, <<p, k>>) ELSE @]

(*--------------------------- derived quantities -------------------------*)

\* entropy of the counts, P ln P - sum f ln f, in 1/u of Unit
Entropy(g, u) ==
  FoldLeft(LAMBDA a, f : IF f > 0 THEN a + f * ((Ln(g.P) - Ln(f)) \div u) ELSE a, 0, g.cnt)

EntropyDiv(P) == IF P <= 2000 THEN 10 ELSE IF P <= 20000 THEN 100 ELSE IF P <= 700000 THEN 1000 ELSE 20000

\* observed code length per symbol cl (in 1e-6) agrees with the counts
CodeLengthOK(g, cl) ==
  LET u == EntropyDiv(g.P)
      per == Entropy(g, u) \div g.ch
  IN \/ g.ch = 0 \/ g.P = 0
     \/ g.P \div g.ch > 5000000 \div u                           \* many more counts than symbols: fixed point is too coarse
     \/ IF cl = 2000000000 THEN per > 190000000 \div u            \* too large to be recorded
        ELSE /\ per <= 210000000 \div u
             /\ LET want == per * u                                \* 1e-5 per symbol
                    slack == IF u <= 1000 THEN 20 + (g.P * u * 3) \div g.ch + u ELSE 20 + (g.P \div g.ch + 2) * u * 3
                IN Abs(cl \div 10 - want) <= slack

\* the code length per symbol as it is recorded, 1e-6
ObservedCl(g) == IF g.ch = 0 \/ g.P = 0 THEN 0
                 ELSE LET u == EntropyDiv(g.P)
                          q == Entropy(g, u) \div g.ch
                      IN IF q > 190000000 \div u THEN 2000000000 ELSE q * u * 10

\* bounds [lo, hi] of the code length per symbol (1e-5 nats) of the counted entries of d
RateDiv(P) == IF P <= 1000 THEN 1 ELSE IF P <= 10000 THEN 10 ELSE IF P <= 100000 THEN 100 ELSE IF P <= 1000000 THEN 1000 ELSE 20000
RateBounds(g, d) ==
  LET u == RateDiv(g.P)
      len == MaxOf(1, FoldLeft(LAMBDA a, i : a + CountOf(g, i) * Len(d[i]), 0, UpTo(Len(d))))
      q == Entropy(g, u)
      r == (q \div len) * u + (IF len <= MaxInt \div u THEN ((q % len) * u) \div len ELSE 0)
      slack == 2 + ((g.P \div len) + 1) * (2 + u) + u
  IN [lo |-> r - slack, hi |-> r + slack]

\* a / b in 1e-9, for 0 <= a < b < 2e8 (from 2 on: 2)
RECURSIVE Digits(_, _, _, _)
Digits(r, b, k, acc) == IF k = 0 THEN acc ELSE Digits((r * 10) % b, b, k - 1, acc * 10 + (r * 10) \div b)
Ratio(a, b) == IF b <= 0 THEN 0 ELSE IF a >= b THEN 1000000000 * MinOf(2, a \div b) ELSE Digits(a, b, 9, 0)

\* -ln(p) with p in 1e-9, in 1/Unit; 0 if p >= 1
MinusLn(p) == IF p <= 0 THEN MaxInt ELSE IF p >= 1000000000 THEN 0 ELSE Ln(1000000000) - Ln(p)

\* threshold of counted entries: -ln(p) / mp, both probabilities in 1e-9, p >= 1e-6, 1 <= mp <= 2e8
Threshold(p, mp) ==
  LET L == MinusLn(p) * 1000
      q == L \div mp
      r == L % mp
  IN IF q > 200000000 THEN 2000000000 ELSE q * 10 + (IF mp > 200000000 THEN r \div (mp \div 10) ELSE (r * 10) \div mp)

\* the threshold in fixed point tells "more than" from "not more than"
Judged(P, T) == Abs(P - T) > 1 + T \div 2000
====

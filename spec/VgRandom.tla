---- MODULE VgRandom ----
(***************************************************************************)
(* Draws from a Dirichlet distribution (next_dirichlet), by which the      *)
(* rate of a pair of neighbours is estimated.  The distribution is not     *)
(* modelled, only what holds for every draw: it is a probability vector,   *)
(* and it is as near to the shares of its parameters as their weight says. *)
(* Components are in units of 1/1000000000.                                *)
(***************************************************************************)
EXTENDS VgNum

Whole == 1000000000
Parts == 10000

IsProbabilities(out) ==
  /\ \A i \in 1..Len(out) : out[i] >= 0 /\ out[i] <= Whole
  /\ Abs(FoldLeft(LAMBDA a, x : MinOf(a + x, Whole + 100000000), 0, out) - Whole) <= Len(out) + 1

\* share of parameter i, in 1/Parts
ShareOf(p, i) == (p[i] * Parts) \div SumSeq(p)

\* twenty standard deviations
Spread(p, i) == LET m == ShareOf(p, i) IN 20 * ISqrt((m * (Parts - m)) \div (SumSeq(p) + 1)) + 30

NearShares(p, out) == \A i \in 1..Len(p) : Abs(out[i] \div (Whole \div Parts) - ShareOf(p, i)) <= Spread(p, i)

IsDraw(p, out) == Len(out) = Len(p) /\ (p # <<>> => IsProbabilities(out) /\ NearShares(p, out))
====

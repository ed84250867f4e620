---- MODULE VgDict ----
(***************************************************************************)
(* The dictionary of v-grams.                                              *)
(*                                                                         *)
(* A dictionary is a sequence d of distinct non-empty symbol sequences;    *)
(* identifiers are 0-based as in the code: entry id is d[id + 1].          *)
(***************************************************************************)
EXTENDS VgSeq

NONE == -1
NegInf == -2000000000

(*------------------------- shape of a dictionary ------------------------*)

\* d is the canonical dictionary of the set S
Canonical(d, S) ==
  /\ Range1(d) = S
  /\ Len(d) = Cardinality(S)
  /\ \A i \in 1..(Len(d) - 1) : LexLess(d[i], d[i + 1])

CanonOf(S) == SetToSortSeq(S, LexLess)

\* identifier of the longest proper prefix of entry i (1-based) among the entries
ParentOf(d, i) ==
  LET P == IF Len(d[i]) = 1 THEN {} ELSE {j \in 1..Len(d) : IsProperPrefix(d[j], d[i])}
  IN IF P = {} THEN NONE ELSE (CHOOSE j \in P : \A k \in P : Len(d[k]) <= Len(d[j])) - 1

ParentsOf(d) == [i \in 1..Len(d) |-> ParentOf(d, i)]

Roots(d) == {i \in 1..Len(d) : ~ \E j \in 1..Len(d) : IsProperPrefix(d[j], d[i])}
Singles(d) == {d[i][1] : i \in {j \in 1..Len(d) : Len(d[j]) = 1}}
Multis(d) == {i \in 1..Len(d) : Len(d[i]) > 1}
ValidId(d, id) == id >= 0 /\ id < Len(d)

(*--------------------------------- search -------------------------------*)

\* entries (1-based) that start at position p of s
StartingAt(d, s, p) == {i \in 1..Len(d) : IsAt(d[i], s, p)}

\* longest entry that starts at position p and is not excluded
SearchAt(d, s, p, ex) ==
  FoldLeft(LAMBDA best, i :
             IF /\ IsAt(d[i], s, p)
                /\ (i - 1) \notin ex
                /\ (best = NONE \/ Len(d[best + 1]) < Len(d[i]))
             THEN i - 1 ELSE best,
           NONE, UpTo(Len(d)))

Search(d, s, ex) == SearchAt(d, s, 1, ex)

\* the dictionary after a search of s at p that may grow it
GrowAt(d, s, p) == IF \E i \in 1..Len(d) : IsAt(d[i], s, p) THEN d ELSE Append(d, <<s[p]>>)

\* the dictionary after all positions of s were searched
GrowAll(d, s) == FoldLeft(LAMBDA a, p : GrowAt(a, s, p), d, UpTo(Len(s)))

\* sizes of the dictionary when each position is processed
SizesAlong(d, s) ==
  FoldLeft(LAMBDA a, p : LET e == GrowAt(a[1], s, p) IN <<e, Append(a[2], Len(e))>>, <<d, <<>>>>, UpTo(Len(s)))[2]

(*----------------------------- greedy parsing ---------------------------*)

\* grows: no exclusions were given
GreedyRun(d, s, ex, grows) ==
  FoldLeft(LAMBDA a, p :
             IF p < a.next THEN a
             ELSE LET e  == IF grows THEN GrowAt(a.d, s, p) ELSE a.d
                      id == SearchAt(e, s, p, ex)
                  IN IF id = NONE THEN [a EXCEPT !.next = p + 1]
                     ELSE [next |-> p + Len(e[id + 1]), out |-> Append(a.out, id), d |-> e],
           [next |-> 1, out |-> <<>>, d |-> d], UpTo(Len(s)))

(*---------------------------- weighted parsing --------------------------*)

AllValid(d, out) == \A k \in 1..Len(out) : ValidId(d, out[k])
Spell(d, out) == FlattenSeq([k \in 1..Len(out) |-> d[out[k] + 1]])

\* out is a segmentation of s into entries of d
Covers(d, s, out) == AllValid(d, out) /\ Spell(d, out) = s

\* logarithms of weights + 1, one for every entry
LnWeights(d, w) == [i \in 1..Len(d) |-> IF i <= Len(w) /\ w[i] >= 0 THEN Ln(w[i] + 1) ELSE 0]

\* start positions of the tokens of a segmentation
Starts(d, out) == FoldLeft(LAMBDA a, id : Append(a, a[Len(a)] + Len(d[id + 1])), <<1>>, out)

\* logarithm of the probability of a segmentation; den[p] is the logarithm of
\* the denominator for a token that starts at p
ScoreOf(d, out, lw, den) ==
  LET st == Starts(d, out)
  IN FoldLeft(LAMBDA a, k : a + lw[out[k] + 1] - den[st[k]], 0, UpTo(Len(out)))

\* best scores of all prefixes: element q + 1 is for the prefix of length q;
\* av[p]: only the first av[p] entries may be used at position p
BestPrefixes(d, s, lw, den, av) ==
  LET ix == UpTo(Len(d))
      At(a, q) == FoldLeft(LAMBDA m, i :
                    IF EndsAt(d[i], s, q) /\ i <= av[q - Len(d[i]) + 1]
                    THEN LET b == a[q - Len(d[i]) + 1]
                         IN IF b = NegInf THEN m ELSE MaxOf(m, b + lw[i] - den[q - Len(d[i]) + 1])
                    ELSE m, NegInf, ix)
  IN FoldLeft(LAMBDA a, q : Append(a, At(a, q)), <<0>>, UpTo(Len(s)))

BestScore(d, s, lw, den, av) == LET b == BestPrefixes(d, s, lw, den, av) IN b[Len(s) + 1]
Everything(d, s) == [p \in 1..Len(s) |-> Len(d)]

\* slack for fixed point logarithms: four units for every token
Slack(s) == 6 * Len(s) + 6

ConstDen(s, x) == [p \in 1..Len(s) |-> Ln(x)]

LongSeq == 500      \* scores of longer sequences do not fit into TLC's integers

\* d0: dictionary before, d1: after.  If the dictionary grew, the parse may have used
\* the entries and the size of the moment at which each position was processed, or
\* those after (or before) all growth.
Optimal(d0, d1, s, out, w, tot) ==
  LET lw == LnWeights(d1, w)
      Is(den, av) == ScoreOf(d1, out, lw, den) >= BestScore(d1, s, lw, den, av) - Slack(s)
      All == Everything(d1, s)
      \* a part of an optimal segmentation is an optimal segmentation of its part of the sequence
      Part(k, m) == LET o == SubSeq(out, k, m)
                        e == Spell(d1, o)
                        den == ConstDen(e, MaxOf(1, tot + Len(d1)))
                    IN ScoreOf(d1, o, lw, den) >= BestScore(d1, e, lw, den, Everything(d1, e)) - Slack(e)
  IN IF Len(s) > LongSeq
     THEN \/ Len(d0) # Len(d1)
          \/ \A j \in 0..((Len(out) - 1) \div 10) : Part(10 * j + 1, MinOf(Len(out), 10 * j + 20))
     ELSE IF Len(d0) = Len(d1)
     THEN Is(ConstDen(s, MaxOf(1, tot + Len(d1))), All)
     ELSE \/ LET sz == SizesAlong(d0, s) IN Is([p \in 1..Len(s) |-> Ln(MaxOf(1, tot + sz[p]))], sz)
          \/ Is(ConstDen(s, MaxOf(1, tot + Len(d1))), All)
          \/ Is(ConstDen(s, MaxOf(1, tot + Len(d0))), All)

\* the most probable segmentation, if fixed point arithmetic tells it apart from
\* all others: [unique, out]
TheBest(d, s, lw, den) ==
  LET n == Len(s)
      F == BestPrefixes(d, s, lw, den, Everything(d, s))
      ix == UpTo(Len(d))
      \* best completions: element k is for the suffix that starts at n + 2 - k
      At(a, p) == FoldLeft(LAMBDA m, i :
                    IF IsAt(d[i], s, p)
                    THEN LET b == a[n + 2 - (p + Len(d[i]))]
                         IN IF b = NegInf THEN m ELSE MaxOf(m, b + lw[i] - den[p])
                    ELSE m, NegInf, ix)
      B == FoldLeft(LAMBDA a, k : Append(a, At(a, n + 1 - k)), <<0>>, UpTo(n))
      best == F[n + 1]
      Edges(p) == IF F[p] = NegInf THEN {} ELSE
                  {i \in 1..Len(d) :
                     /\ IsAt(d[i], s, p)
                     /\ B[n + 2 - (p + Len(d[i]))] # NegInf
                     /\ F[p] + lw[i] - den[p] + B[n + 2 - (p + Len(d[i]))] >= best - Slack(s)}
      E == FoldLeft(LAMBDA a, p :
             LET e == Edges(p)
             IN IF e = {} THEN a
                ELSE IF p # a.next \/ Cardinality(e) # 1 THEN [a EXCEPT !.unique = FALSE]
                ELSE LET i == CHOOSE x \in e : TRUE
                     IN [a EXCEPT !.next = p + Len(d[i]), !.out = Append(a.out, i - 1)],
             [unique |-> TRUE, next |-> 1, out |-> <<>>], UpTo(n))
  IN [unique |-> E.unique /\ best # NegInf, out |-> E.out]
====

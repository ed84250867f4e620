---- MODULE VgLearn ----
(***************************************************************************)
(* Learning: a builder counts accepted sequences with its current          *)
(* dictionary; when there is enough evidence it replaces that dictionary,  *)
(* by turns expanding it (candidates for new v-grams are added) and        *)
(* reducing it (the best ones are kept and published).                     *)
(*                                                                         *)
(* A builder B is a record                                                 *)
(*   size   requested size           asz   symbols known to the budget     *)
(*   pop    TRUE: the next step expands (the current dictionary is the     *)
(*          published one); FALSE: the next step reduces                   *)
(*   pf     probability of missing, 1e-9                                   *)
(*   cur    current generation with its dictionary number (field did)      *)
(*   res    published generation, meaningful while ~pop                    *)
(*   base   entries of the dictionary it was created with                  *)
(*   hist   accepted sequences        steps  number of learning steps      *)
(*   pasz   symbols known when the last reduction began                    *)
(*   best   bounds of the best code length per symbol of all steps         *)
(*   nt     possible numbers of steps since it last improved               *)
(***************************************************************************)
EXTENDS VgStat

Published(B) == IF B.pop THEN B.cur ELSE B.res

MaxPower == 20000000
InitialMissing == 100000000      \* 0.1
DefaultMinProb == 2000000        \* 0.002

\* "step" after g counted: TRUE / FALSE, or BOOLEAN if rounding cannot tell
StepDue(g, pf) ==
  LET T == Threshold(pf, g.mp)
  IN IF g.P > MaxPower THEN {TRUE}
     ELSE IF ~Judged(g.P, T) THEN BOOLEAN ELSE {g.P > T}

(*------------------------- probability of missing -----------------------*)

InitialBest == [lo |-> 554518, hi |-> 554518]    \* one byte per symbol

\* a step improves the code length per symbol or waits; what may happen: {<<steps without improvement, lowered>>}
Waits(B, r) ==
  (IF r.lo < B.best.hi THEN {<<0, FALSE>>} ELSE {})
  \cup (IF r.hi >= B.best.lo THEN {<<t + 1, t + 1 > 3>> : t \in B.nt} ELSE {})
BestAfter(B, r) == [lo |-> MinOf(B.best.lo, r.lo), hi |-> MinOf(B.best.hi, r.hi)]
Lowered(pf) == (pf \div 10) * 8

(*------------------------------- budget ---------------------------------*)

\* symbols the budget knows of after a step that made the dictionary d
KnownAfter(asz, d) == LET r == Cardinality(Roots(d)) IN IF r > asz + 1 THEN r - 1 ELSE asz

\* there is room for all symbols
Roomy(B, d) == B.size >= Cardinality(Singles(d)) /\ B.size >= B.asz

ExpandSlots(B, n) == IF 13 * n < 100 THEN B.size - B.asz ELSE (13 * n) \div 10
ReduceSlots(B, d) == B.size - B.asz + Cardinality(Roots(d))

\* entries of the dictionary that are v-grams but cannot be replaced are roots as well
SymbolsFirst(d) == \A i \in Multis(d) : \A k \in 1..Len(d[i]) : <<d[i][k]>> \in Range1(d)

(*------------------------------ expansion -------------------------------*)

\* how often entry a was followed by entry b inside one parse
PairCount(g, a, b) ==
  LET In(p) == Cardinality({k \in 1..(Len(p) - 1) : p[k] = a /\ p[k + 1] = b})
  IN FoldLeft(LAMBDA n, x : n + x[2] * In(x[1]), FoldLeft(LAMBDA n, p : n + In(p), 0, g.ps), g.rep)

AllPairs(g) == FoldLeft(LAMBDA n, x : n + x[2] * (Len(x[1]) - 1), FoldLeft(LAMBDA n, p : n + MaxOf(0, Len(p) - 1), 0, g.ps), g.rep)

\* counts of the ways to compose e of two neighbours in the parses
Compositions(g, d, e) ==
  {PairCount(g, ab[1] - 1, ab[2] - 1) :
     ab \in {x \in {<<Find(SubSeq(e, 1, k), d), Find(SubSeq(e, k + 1, Len(e)), d)>> : k \in 1..(Len(e) - 1)} :
               x[1] # 0 /\ x[2] # 0}} \ {0}

\* How much two neighbours belong together.  ab: how often a was followed by b, of all the pairs that begin with a
\* (start[a]) and that end with b (end[b]); n pairs in all.  The association is ln of the ratio of ab to what
\* independence predicts; the score of the pair is ab * (ab / start[a]) * association.  The code draws both from
\* their posterior distribution, so they are bounds: [lo, hi], in 1e-5 and (scores) in units of 1e-2.
MaxPairDict == 360
PairTable(g, n) ==
  LET Add(m, p, c) == FoldLeft(LAMBDA x, k : [x EXCEPT ![p[k] * n + p[k + 1] + 1] = @ + c], m, UpTo(Len(p) - 1))
      M == FoldLeft(LAMBDA m, x : Add(m, x[1], x[2]),
                    FoldLeft(LAMBDA m, p : Add(m, p, 1), [k \in 1..(n * n) |-> 0], g.ps), g.rep)
  IN [m |-> M,
      start |-> [a \in 1..n |-> FoldLeft(LAMBDA s, b : s + M[(a - 1) * n + b], 0, UpTo(n))],
      end |-> [b \in 1..n |-> FoldLeft(LAMBDA s, a : s + M[(a - 1) * n + b], 0, UpTo(n))],
      all |-> AllPairs(g)]
PairCodes(t) == {k \in 1..Len(t.m) : t.m[k] > 0}
\* bounds for the pair with code k
PairScore(t, n, k) ==
  LET ab == t.m[k]
      a == ((k - 1) \div n) + 1
      b == ((k - 1) % n) + 1
      L == Ln(ab + 1) + Ln(t.all + 4) - Ln(t.start[a] + 2) - Ln(t.end[b] + 2)
      M == 20000000 \div ISqrt(ab * 10000) + 4
      q == (ab * 1000) \div t.start[a]
      dq == (q * 100) \div ISqrt(ab * 10000) + 2
      \* ab * q * x, x in 1e-5
      Prod(y, x) == ((ab * y) \div 100) * (x \div 1000)
      lo == L - M
      hi == L + M
  IN IF ab < 3 \/ t.all > 100000 THEN [lo |-> -MaxInt, hi |-> MaxInt, slo |-> -MaxInt, shi |-> MaxInt]
     ELSE [lo |-> lo, hi |-> hi,
           slo |-> Prod(IF lo >= 0 THEN MaxOf(0, q - dq) ELSE MinOf(1000, q + dq), lo),
           shi |-> Prod(IF hi >= 0 THEN MinOf(1000, q + dq) ELSE MaxOf(0, q - dq), hi + 1000) + 1000]

\* neighbours that are no entries yet as <<text, bounds>>
PairsOf(g, d) ==
  LET n == Len(d)
      t == PairTable(g, n)
  IN {<<d[((k - 1) \div n) + 1] \o d[((k - 1) % n) + 1], PairScore(t, n, k)>> : k \in PairCodes(t)}

\* the texts X were added, at most slots of them: those that belong together most; result: what is wrong
Associated(g, d, X, slots) ==
  LET P == PairsOf(g, d)
      T == {p \in P : Find(p[1], d) = 0}
      Of(x) == {p[2] : p \in {q \in T : q[1] = x}}
      Texts == {p[1] : p \in T}
      Out == Texts \ X
      full == Cardinality(X) >= slots
      best == [x \in Texts |-> LET b == Of(x) IN [hi |-> CHOOSE v \in {c.hi : c \in b} : \A w \in {c.hi : c \in b} : v >= w,
                                                 lo |-> CHOOSE v \in {c.lo : c \in b} : \A w \in {c.lo : c \in b} : v <= w,
                                                 shi |-> CHOOSE v \in {c.shi : c \in b} : \A w \in {c.shi : c \in b} : v >= w,
                                                 slo |-> CHOOSE v \in {c.slo : c \in b} : \A w \in {c.slo : c \in b} : v <= w]]
  IN (IF \E x \in X \cap Texts : best[x].hi < 0 THEN {"added neighbours that avoid each other"} ELSE {})
     \cup (IF ~full /\ \E x \in Out : best[x].lo > 0 THEN {"did not add neighbours that belong together"} ELSE {})
     \cup (IF full /\ \E x \in Out : best[x].slo > 0 /\ \E y \in X \cap Texts : best[x].slo > best[y].shi
           THEN {"preferred weaker neighbours"} ELSE {})

(*------------------------------ reduction -------------------------------*)

\* segmentations of e when the entries in ex are excluded: at every position the
\* longest entry that is not excluded may be used, and all its prefixes
AltTokens(d, e, p, ex) ==
  LET id == SearchAt(d, e, p, ex)
  IN IF id = NONE THEN {} ELSE {i \in 1..Len(d) : IsPrefixOf(d[i], d[id + 1])}

RECURSIVE AltParses(_, _, _, _)
AltParses(d, e, p, ex) ==
  IF p > Len(e) THEN {<<>>}
  ELSE UNION {{<<i - 1>> \o r : r \in AltParses(d, e, p + Len(d[i]), ex)} : i \in AltTokens(d, e, p, ex)}

\* the most probable ones by counts
BestAlts(g, d, e, ex) ==
  LET A == AltParses(d, e, 1, ex)
      lw == LnWeights(d, g.cnt)
      den == ConstDen(e, MaxOf(1, g.P + Len(d)))
      sc == [a \in A |-> ScoreOf(d, a, lw, den)]
  IN {a \in A : \A b \in A : sc[a] >= sc[b] - Slack(e)}

\* the most probable one of a long entry: [none, unique, out]; unique: fixed point arithmetic tells it apart from all others
LongAlt(g, d, e, ex) ==
  LET n == Len(e)
      T == FoldLeft(LAMBDA a, p : Append(a, AltTokens(d, e, p, ex)), <<>>, UpTo(n))
      lw == LnWeights(d, g.cnt)
      x == Ln(MaxOf(1, g.P + Len(d)))
      Sum(b, i) == IF b = NegInf THEN NegInf ELSE b + lw[i] - x
      Most(S) == IF S = {} THEN NegInf ELSE CHOOSE m \in S : \A y \in S : m >= y
      F == FoldLeft(LAMBDA a, q : Append(a, Most({Sum(a[q - Len(d[i]) + 1], i) : i \in
                                                    UNION {{j \in T[p] : p + Len(d[j]) - 1 = q} : p \in 1..q}})),
                    <<0>>, UpTo(n))
      \* element k is for the suffix that starts at n + 2 - k
      S == FoldLeft(LAMBDA a, k : Append(a, Most({Sum(a[k - Len(d[i]) + 1], i) : i \in T[n + 1 - k]})), <<0>>, UpTo(n))
      Edges(p) == IF F[p] = NegInf THEN {}
                  ELSE {i \in T[p] : /\ S[n + 2 - (p + Len(d[i]))] # NegInf
                                     /\ F[p] + lw[i] - x + S[n + 2 - (p + Len(d[i]))] >= F[n + 1] - Slack(e)}
      E == FoldLeft(LAMBDA a, p :
             LET c == Edges(p)
             IN IF c = {} THEN a
                ELSE IF p # a.next \/ Cardinality(c) # 1 THEN [a EXCEPT !.unique = FALSE]
                ELSE LET i == CHOOSE y \in c : TRUE
                     IN [a EXCEPT !.next = p + Len(d[i]), !.out = Append(a.out, i - 1)],
             [unique |-> TRUE, next |-> 1, out |-> <<>>], UpTo(n))
  IN [none |-> F[n + 1] = NegInf, unique |-> E.unique, out |-> E.out]

\* gain of keeping an entry counted c times whose best replacement is alt, in 1e-3 nats:
\* c ln c - P ln P + P' ln P' - sum over alt of ((f+c) ln (f+c) - f ln f)
Gain(g, c, alt) ==
  LET k == Len(alt) - 1
      P2 == g.P + k * c
      f(j) == IF alt[j] + 1 <= Len(g.cnt) THEN g.cnt[alt[j] + 1] ELSE 0
      A == FoldLeft(LAMBDA a, j : a - Ln(f(j) + c), Ln(c) + k * Ln(P2), UpTo(Len(alt)))
      Rest == FoldLeft(LAMBDA a, j : a - (IF f(j) > 0 THEN f(j) * ((Ln(f(j) + c) - Ln(f(j))) \div 10) ELSE 0),
                       g.P * ((Ln(P2) - Ln(g.P)) \div 10), UpTo(Len(alt)))
  IN c * (A \div 100) + Rest \div 10

GainSlack(g, c, alt) == 20 + 4 * c + (g.P * 2 * (Len(alt) + 1)) \div 10

ZeroIds(g, d) == {i - 1 : i \in {j \in 1..Len(d) : CountOf(g, j) = 0 /\ ParentOf(d, j) # NONE}}

\* bounds of the gain of entry i (1-based): [lo, hi]; symbols and irreplaceable entries have MaxInt
GainBounds(g, d, i, zero) ==
  IF Len(d[i]) = 1 THEN [lo |-> MaxInt, hi |-> MaxInt]
  ELSE IF Len(d[i]) > 200 \/ g.P > 100000 THEN [lo |-> -MaxInt, hi |-> MaxInt]
  ELSE LET r == LongAlt(g, d, d[i], zero \cup {i - 1})
           A == IF Len(d[i]) <= 7 THEN BestAlts(g, d, d[i], zero \cup {i - 1})
                ELSE IF r.none THEN {} ELSE {r.out}
           c == CountOf(g, i)
           V == {<<Gain(g, c, a), GainSlack(g, c, a)>> : a \in A}
       IN IF A = {} THEN [lo |-> MaxInt, hi |-> MaxInt]
          ELSE IF c = 0 THEN [lo |-> 0, hi |-> 0]
          ELSE IF Len(d[i]) > 7 /\ ~r.unique THEN [lo |-> -MaxInt, hi |-> MaxInt]
          ELSE [lo |-> CHOOSE x \in {v[1] - v[2] : v \in V} : \A y \in {v[1] - v[2] : v \in V} : x <= y,
                hi |-> CHOOSE x \in {v[1] + v[2] : v \in V} : \A y \in {v[1] + v[2] : v \in V} : x >= y]
====

---- MODULE VgSeq ----
(***************************************************************************)
(* Sequences of symbols: lexicographic order, prefixes, occurrences.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, VgNum

\* e occurs in s at position p
IsAt(e, s, p) ==
  /\ Len(e) <= Len(s) - p + 1
  /\ \A k \in 1..Len(e) : e[k] = s[p + k - 1]

\* e ends in s at position q
EndsAt(e, s, q) ==
  /\ e # <<>>
  /\ Len(e) <= q
  /\ e[Len(e)] = s[q]
  /\ \A k \in 1..Len(e) : e[k] = s[q - Len(e) + k]

IsPrefixOf(e, s) == IsAt(e, s, 1)
IsProperPrefix(e, s) == Len(e) < Len(s) /\ IsAt(e, s, 1)

OccursIn(e, s) == \E p \in 1..(Len(s) - Len(e) + 1) : IsAt(e, s, p)

FirstDiff(a, b) ==      \* first position where both have a symbol and these differ, 0 if none
  LET m == MinOf(Len(a), Len(b))
      D == {i \in 1..m : a[i] # b[i]}
  IN IF D = {} THEN 0 ELSE CHOOSE i \in D : \A j \in D : i <= j

LexLess(a, b) ==
  LET i == FirstDiff(a, b)
  IN IF i = 0 THEN Len(a) < Len(b) ELSE a[i] < b[i]

Range1(s) == {s[i] : i \in 1..Len(s)}
NoDuplicates(s) == Cardinality(Range1(s)) = Len(s)

\* position of x in s, 0 if there is none
Find(x, s) ==
  LET F == {i \in 1..Len(s) : s[i] = x}
  IN IF F = {} THEN 0 ELSE CHOOSE i \in F : \A j \in F : i <= j

\* the sequence s, filled with x up to the length n
PadTo(s, n, x) == IF Len(s) >= n THEN s ELSE s \o [i \in 1..(n - Len(s)) |-> x]

\* the bytes of a number, and of a sequence as it is printed
RECURSIVE Decimal(_)
Decimal(n) ==
  LET d == IF n < 0 THEN (10 - (n % 10)) % 10 ELSE n % 10        \* n % 10 is never negative
      q == IF n < 0 THEN (n + d) \div 10 ELSE n \div 10
  IN (IF q # 0 THEN Decimal(q) ELSE IF n < 0 THEN <<45>> ELSE <<>>) \o <<48 + d>>
Printed(s) == <<40>> \o FlattenSeq([i \in 1..Len(s) |-> (IF i = 1 THEN <<>> ELSE <<32>>) \o Decimal(s[i])]) \o <<41>>

IsIntSeq(s) == \A i \in 1..Len(s) : s[i] \in Int
UpTo(n) == [i \in 1..n |-> i]
====

---- MODULE VgCoder ----
(***************************************************************************)
(* Coders of symbols (SeqCoder, Encoder).  A coder is the sequence c of    *)
(* the distinct values seen; the code of c[i] is i - 1.                    *)
(***************************************************************************)
EXTENDS VgSeq

Learn(c, s) == FoldLeft(LAMBDA a, x : IF Find(x, a) = 0 THEN Append(a, x) ELSE a, c, s)

\* codes of s when all its values are in c
Codes(c, s) == [i \in 1..Len(s) |-> Find(s[i], c) - 1]

Encode(c, s) == LET c2 == Learn(c, s) IN [c |-> c2, out |-> Codes(c2, s)]

Known(c, s) == SelectSeq(s, LAMBDA x : Find(x, c) # 0)
EncodeKnown(c, s) == Codes(c, Known(c, s))

Decodable(c, s) == \A i \in 1..Len(s) : s[i] >= 0 /\ s[i] < Len(c)
Decode(c, s) == [i \in 1..Len(s) |-> c[s[i] + 1]]

\* keys and values listed by a code map
IsMapOf(c, ks, vs) ==
  /\ Len(ks) = Len(c) /\ Len(vs) = Len(ks)
  /\ \A i \in 1..Len(ks) : vs[i] >= 0 /\ vs[i] < Len(c) /\ c[vs[i] + 1] = ks[i]
  /\ NoDuplicates(ks)

\* the coder that a code map describes, when it is dense; <<>> otherwise
MapDense(ks, vs) == Len(ks) = Len(vs) /\ Range1(vs) = 0..(Len(ks) - 1)
OfMap(ks, vs) == [i \in 1..Len(ks) |-> ks[Find(i - 1, vs)]]
====

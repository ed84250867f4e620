---- MODULE VgImpl ----
(***************************************************************************)
(* The data structure and the algorithms of the dictionary as the code     *)
(* has them: entries sorted once, appended symbols behind them and in a    *)
(* map, parents found with a stack of prefixes, search by binary search    *)
(* and a walk over parents, parsing by dynamic programming.                *)
(* An implementation state m is [seqs, par, n (sorted entries), app].      *)
(***************************************************************************)
EXTENDS VgDict

EmptyMap == [x \in {} |-> 0]

\* parents by a stack of (entry, index)
StackParents(seqs) ==
  FoldLeft(LAMBDA a, i :
             LET keep == SelectSeq(UpTo(Len(a.stack)), LAMBDA k : IsPrefixOf(seqs[a.stack[k]], seqs[i]))
                 \* entries are popped from the top until one is a prefix
                 top == IF keep = <<>> THEN 0 ELSE keep[Len(keep)]
             IN [stack |-> Append(SubSeq(a.stack, 1, top), i),
                 par |-> Append(a.par, IF top = 0 THEN NONE ELSE a.stack[top] - 1)],
           [stack |-> <<>>, par |-> <<>>], UpTo(Len(seqs))).par

ImplNew(S) == LET d == CanonOf(S) IN [seqs |-> d, par |-> StackParents(d), n |-> Len(d), app |-> EmptyMap]

\* first of the sorted entries which is not less than s, 0-based
RECURSIVE LowerIn(_, _, _, _)
LowerIn(m, s, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi) \div 2
       IN IF LexLess(m.seqs[mid + 1], s) THEN LowerIn(m, s, mid + 1, hi) ELSE LowerIn(m, s, lo, mid)
LowerBound(m, s) == LowerIn(m, s, 0, m.n)

RECURSIVE Walk(_, _, _, _)
Walk(m, s, ex, i) ==
  IF i < 0 THEN NONE
  ELSE IF IsPrefixOf(m.seqs[i + 1], s) /\ i \notin ex THEN i
  ELSE Walk(m, s, ex, m.par[i + 1])

\* [id, m]: what a search finds and the state after it
ImplSearch(m, s, ex, grows) ==
  LET lb == LowerBound(m, s)
      exact == lb < Len(m.seqs) /\ m.seqs[lb + 1] = s /\ lb \notin ex
      found == IF exact THEN lb ELSE Walk(m, s, ex, lb - 1)
  IN IF found # NONE THEN [id |-> found, m |-> m]
     ELSE IF s[1] \in DOMAIN m.app
     THEN [id |-> IF m.app[s[1]] \in ex THEN NONE ELSE m.app[s[1]], m |-> m]
     ELSE IF ~grows THEN [id |-> NONE, m |-> m]
     ELSE LET k == Len(m.seqs)
          IN [id |-> k,
              m |-> [seqs |-> Append(m.seqs, <<s[1]>>),
                     par |-> [i \in 1..(k + 1) |-> IF i = k + 1 THEN NONE
                                                   ELSE IF i <= m.n /\ m.par[i] = NONE /\ m.seqs[i][1] = s[1] THEN k
                                                   ELSE m.par[i]],
                     n |-> m.n,
                     app |-> (s[1] :> k) @@ m.app]]

RECURSIVE ImplGreedy(_, _, _, _)
ImplGreedy(m, s, ex, grows) ==
  IF s = <<>> THEN [out |-> <<>>, m |-> m]
  ELSE LET f == ImplSearch(m, s, ex, grows)
           r == ImplGreedy(f.m, IF f.id = NONE THEN Tail(s) ELSE SubSeq(s, Len(f.m.seqs[f.id + 1]) + 1, Len(s)), ex, grows)
       IN [out |-> (IF f.id = NONE THEN <<>> ELSE <<f.id>>) \o r.out, m |-> r.m]

RECURSIVE Ancestors(_, _)
Ancestors(m, i) == IF i = NONE THEN <<>> ELSE <<i>> \o Ancestors(m, m.par[i + 1])

\* dynamic programming forward: at every position the found entry and its parents are tried, the first best stays
RECURSIVE Forward(_, _, _, _, _, _)
Forward(m, s, w, tot, p, a) ==          \* a: [score, last] for prefixes 0..Len(s), NegInf: not reached
  IF p > Len(s) THEN [a |-> a, m |-> m]
  ELSE LET f == ImplSearch(m, SubSeq(s, p, Len(s)), {}, TRUE)
           try(b, i) ==
             LET l == Len(f.m.seqs[i + 1])
                 x == a[p].score + (IF i < Len(w) THEN Ln(w[i + 1] + 1) ELSE 0) - Ln(MaxOf(1, tot + Len(f.m.seqs)))
             IN IF a[p].score # NegInf /\ b[p + l].score < x THEN [b EXCEPT ![p + l] = [score |-> x, last |-> i]] ELSE b
       IN Forward(f.m, s, w, tot, p + 1, FoldLeft(try, a, Ancestors(f.m, f.id)))

RECURSIVE Back(_, _, _)
Back(m, a, q) == IF q = 0 THEN <<>> ELSE Back(m, a, q - Len(m.seqs[a[q + 1].last + 1])) \o <<a[q + 1].last>>

ImplWeigh(m, s, w, tot) ==
  LET r == Forward(m, s, w, tot, 1, [q \in 1..(Len(s) + 1) |-> [score |-> IF q = 1 THEN 0 ELSE NegInf, last |-> 0]])
  IN [out |-> Back(r.m, r.a, Len(s)), m |-> r.m]
====

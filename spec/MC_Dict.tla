---- MODULE MC_Dict ----
(***************************************************************************)
(* All small dictionaries: the algorithms of VgImpl refine VgDict.         *)
(***************************************************************************)
EXTENDS VgImpl, TLC, Json

CONSTANTS Sym, MaxLen, MaxEntries, ProbeLen, Extra, Emit    \* Extra: symbols that no entry has

Words0(A, n) == UNION {[1..k -> A] : k \in 1..n}
Entries == Words0(Sym, MaxLen)
Probes == Words0(Sym \cup Extra, ProbeLen)

VARIABLES m, base

Init == \E S \in {X \in SUBSET Entries : Cardinality(X) <= MaxEntries} : m = ImplNew(S) /\ base = CanonOf(S)

Find1(x) == m' = ImplSearch(m, <<x>>, {}, TRUE).m
Next == (\E x \in Sym \cup Extra : Find1(x)) /\ UNCHANGED base

\* scripts only
Stay == FALSE /\ UNCHANGED <<m, base>>

Spec == Init /\ [][Next]_<<m, base>>

d == m.seqs
ExSets == {{}} \cup {{i} : i \in 0..(Len(d) - 1)} \cup {{i, j} : i, j \in 0..(Len(d) - 1)} \cup {0..(Len(d) - 1)}

\* C04
Parents == m.par = ParentsOf(d)
\* C05
Appended == /\ SubSeq(d, 1, Len(base)) = base
            /\ \A i \in (Len(base) + 1)..Len(d) : Len(d[i]) = 1 /\ ~ \E j \in 1..(i - 1) : IsPrefixOf(d[j], d[i])
            /\ NoDuplicates(d)
\* C03
Searches ==
  \A s \in Probes :
    /\ \A ex \in ExSets : LET r == ImplSearch(m, s, ex, FALSE) IN r.id = Search(d, s, ex) /\ r.m = m
    /\ LET r == ImplSearch(m, s, {}, TRUE)
           e == GrowAt(d, s, 1)
       IN r.m.seqs = e /\ r.id = Search(e, s, {}) /\ r.m.par = ParentsOf(e)
\* C01, C03
Greedy ==
  \A s \in Probes :
    /\ LET r == ImplGreedy(m, s, {}, TRUE)
           g == GreedyRun(d, s, {}, TRUE)
       IN r.out = g.out /\ r.m.seqs = g.d /\ Covers(g.d, s, g.out)
    /\ \A ex \in ExSets \ {{}} : ImplGreedy(m, s, ex, FALSE).out = GreedyRun(d, s, ex, FALSE).out
\* C01, C02: some weights
Weights == {<<>>, [i \in 1..Len(d) |-> i], [i \in 1..Len(d) |-> IF Len(d[i]) > 1 THEN 0 ELSE 5],
            [i \in 1..Len(d) |-> IF Len(d[i]) > 1 THEN 9 ELSE 0]}
Weighs ==
  \A s \in Probes, w \in Weights :
    LET r == ImplWeigh(m, s, w, SumSeq(w))
    IN /\ r.m.seqs = GrowAll(d, s)
       /\ Covers(r.m.seqs, s, r.out)
       /\ Optimal(d, r.m.seqs, s, r.out, w, SumSeq(w))

(* scripts: every search with every exclusion, then everything that may grow the dictionary *)
Sq(s) == <<Len(s)>> \o s
Sqs(l) == <<Len(l)>> \o FlattenSeq([i \in 1..Len(l) |-> Sq(l[i])])
P == SetToSortSeq(Probes, LexLess)
Script ==
  <<<<"d_new", "d", 0>> \o Sqs(Reverse(d))>>
  \o FlattenSeq([i \in 1..Len(P) |-> FlattenSeq(SetToSeq({<<<<"d_search", "d">> \o Sq(P[i]) \o Sq(SetToSeq(ex)),
                                                            <<"d_greedy", "d">> \o Sq(P[i]) \o Sq(SetToSeq(ex)) \o <<0>>>> : ex \in ExSets}))])
  \o <<<<"d_copy", "e", "d">>>>
  \o [i \in 1..Len(P) |-> <<"d_weigh", "d">> \o Sq(P[i]) \o Sq([k \in 1..Len(d) |-> (k * 7) % 5]) \o <<SumSeq([k \in 1..Len(d) |-> (k * 7) % 5]), 0>>]
  \o [i \in 1..Len(P) |-> <<"d_greedy", "e">> \o Sq(P[Len(P) + 1 - i]) \o <<"-", 0>>]
  \o [i \in 1..Len(P) |-> <<"d_search", "d">> \o Sq(P[i]) \o <<"-">>]
Emitted == ~Emit \/ m.n # Len(m.seqs) \/ PrintT("SCRIPT|" \o ToJson(Script))
====

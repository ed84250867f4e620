---- MODULE MC_Stat ----
(***************************************************************************)
(* A dictionary with statistics: parses, explicit updates and searches in  *)
(* any order, whatever frequencies it was created with.                    *)
(***************************************************************************)
EXTENDS VgActs, Json

CONSTANTS MaxOps, Emit

Cfgs == {
  [in |-> <<<<1, 2>>, <<1>>, <<2>>>>, init |-> <<2, 0, 1>>, mp |-> 200000000, mpt |-> "0.2"],
  [in |-> <<<<1, 1>>, <<1, 1, 2>>, <<1>>>>, init |-> <<>>, mp |-> 50000000, mpt |-> "0.05"],
  [in |-> <<<<2, 1>>, <<1, 2>>>>, init |-> <<1, 4>>, mp |-> 500000000, mpt |-> "0.5"]}
Data == {<<1, 2>>, <<2, 1, 2>>, <<1, 1, 2>>, <<3>>, <<>>}

VARIABLES st, cfg, ops, last

Init ==
  \E c \in Cfgs :
    /\ cfg = c
    /\ LET al == CanonOf(Range1(c.in))
           ev == [o |-> "s_new", h |-> "s", kind |-> 1, in |-> c.in, mp |-> c.mp, g |-> 1, dl |-> Dl(1, al), argsame |-> TRUE,
                  fr |-> [i \in 1..(Len(al) + 1) |-> 0]] @@ (IF c.init = <<>> THEN Empty ELSE [init |-> c.init])
           r == Run(Start, <<ev>>)
       IN st = r.st /\ last = r.bad
    /\ ops = <<<<"s_new", "s", 1, c.mpt>> \o Sqs(c.in) \o (IF c.init = <<>> THEN <<"-">> ELSE Sq(c.init))>>

S == st.ob["s"]
G == S.gen
D1 == st.D[S.did]
Do(ev, op) == LET r == Run(st, <<ev>>) IN st' = r.st /\ last' = r.bad /\ ops' = Append(ops, op) /\ UNCHANGED cfg

Parse(s) ==
  LET d2 == GrowAll(D1, s)
  IN \E out \in WeighOuts(D1, d2, s, ParseWeights(G, Len(d2)), TotalWeight(G)) :
       LET g2 == Counted(G, Len(d2), s, out)
       IN Do([o |-> "s_parse", h |-> "s", seq |-> s, pre |-> <<>>, out |-> out, ret |-> Len(out), cl |-> ObservedCl(g2),
              fr |-> Append(Counts(g2, Len(d2)), 0), dl |-> DlIf(st, S.did, d2)],
             <<"s_parse", "s">> \o Sq(s) \o <<0>>)
Bump(i, k) ==
  Do([o |-> "s_upd", h |-> "s", i |-> i, k |-> k, cl |-> ObservedCl(Bumped(G, i, k)), dl |-> <<>>,
      fr |-> Append(Counts(Bumped(G, i, k), Len(D1)), 0)], <<"s_upd", "s", i, k>>)
Look(s) ==
  LET d2 == GrowAt(D1, s, 1)
  IN Do([o |-> "s_search", h |-> "s", seq |-> s, id |-> Search(d2, s, {}), dl |-> DlIf(st, S.did, d2),
         fr |-> Append(Counts(G, Len(d2)), 0)], <<"s_search", "s">> \o Sq(s) \o <<"-">>)

Next ==
  /\ Len(ops) < MaxOps
  /\ \/ \E s \in Data : Parse(s)
     \/ \E i \in 0..(Len(D1) - 1), k \in {1, 3} : Bump(i, k)
     \/ \E s \in {<<3>>, <<4, 1>>, <<1, 2, 3>>} : Look(s)

Spec == Init /\ [][Next]_<<st, cfg, ops, last>>

Accepted == last = {}
\* C06
Exact == /\ SumSeq(G.cnt) = G.P
         /\ G.ch >= FoldLeft(LAMBDA a, p : a + Len(Spell(D1, p)), 0, G.ps)
         /\ \A i \in 1..Len(D1) : CountOf(G, i) >= FoldLeft(LAMBDA a, p : a + Cardinality({k \in 1..Len(p) : p[k] = i - 1}), 0, G.ps)
InitFollows == \A i \in 1..Len(cfg.in) :
                 cfg.init # <<>> => WeightOf(G, Find(cfg.in[i], D1)) = cfg.init[i]
\* C02: the most probable segmentation of the prefix-wise search is the best of all (brute force)
Best == \A s \in Data :
          LET d2 == GrowAll(D1, s)
              lw == LnWeights(d2, ParseWeights(G, Len(d2)))
              den == ConstDen(s, MaxOf(1, TotalWeight(G) + Len(d2)))
              A == Segs(d2, s, 1)
              b == BestScore(d2, s, lw, den, Everything(d2, s))
              t == TheBest(d2, s, lw, den)
          IN /\ \A a \in A : ScoreOf(d2, a, lw, den) <= b
             /\ \E a \in A : ScoreOf(d2, a, lw, den) = b
             /\ t.unique => /\ t.out \in A /\ ScoreOf(d2, t.out, lw, den) = b
                            /\ \A a \in A : a = t.out \/ ScoreOf(d2, a, lw, den) < b
\* C02 once more, in whole numbers: what was returned by a parse that made no new symbols known beats every other
\* segmentation, product by product (the specification itself compares logarithms)
RECURSIVE Power(_, _)
Power(x, k) == IF k = 0 THEN 1 ELSE x * Power(x, k - 1)
Product(w, a) == FoldLeft(LAMBDA x, id : x * (w[id + 1] + 1), 1, a)
BestInWholeNumbers ==
  [][LET g == st.ob["s"].gen
         d == st.D[st.ob["s"].did]
         g2 == st'.ob["s"].gen
     IN (Len(g2.ps) > Len(g.ps) /\ st'.D[st'.ob["s"].did] = d) =>
          LET out == g2.ps[Len(g2.ps)]
              w == ParseWeights(g, Len(d))
              T == MaxOf(1, TotalWeight(g) + Len(d))
          IN \A a \in Segs(d, Spell(d, out), 1) : Product(w, out) * Power(T, Len(a)) >= Product(w, a) * Power(T, Len(out))
    ]_<<st, cfg, ops, last>>
\* the dictionary only grows
Grows == [][IsPrefix(st.D[st.ob["s"].did], st'.D[st'.ob["s"].did])]_<<st, cfg, ops, last>>

Done == Len(ops) >= MaxOps
Emitted == ~Emit \/ ~Done \/ PrintT("SCRIPT|" \o ToJson(ops \o <<<<"s_enough", "s", "0.1">>, <<"s_enough", "s", "0.9">>>>))
View == IF Emit THEN <<ops, st, last>> ELSE <<st, cfg, last, Len(ops)>>
====

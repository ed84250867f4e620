---- MODULE MC_Builder ----
(***************************************************************************)
(* One builder accepting small data.  The local rules that every learning  *)
(* step of a recorded trace is checked against imply the global guarantees *)
(* stated here as invariants; the behaviours double as test scripts.       *)
(***************************************************************************)
EXTENDS VgActs, Json, IOUtils

CONSTANTS MaxAcc, MaxSteps, MaxNew, Emit

\* configurations: [kind, size, in, init, alphabet, mp (1e-9), mpText, data]
Cfgs == {
  [kind |-> 3, size |-> 3, in |-> <<<<0>>, <<1>>>>, init |-> <<0, 0>>, alphabet |-> <<<<0>>, <<1>>>>, mp |-> 900000000, mpt |-> "0.9",
   data |-> {<<0, 1>>, <<1, 1, 0>>, <<0>>}],
  [kind |-> 3, size |-> 4, in |-> <<<<0>>, <<0, 1>>, <<1>>>>, init |-> <<3, 1, 2>>, alphabet |-> <<<<0>>, <<1>>>>, mp |-> 600000000, mpt |-> "0.6",
   data |-> {<<0, 1, 0, 1>>, <<2, 0>>, <<1, 1>>}],
  [kind |-> 3, size |-> 5, in |-> <<<<0>>>>, init |-> <<0>>, alphabet |-> <<<<0>>>>, mp |-> 900000000, mpt |-> "0.9",
   data |-> {<<0, 1, 2>>, <<2, 1>>, <<>>}],
  [kind |-> 3, size |-> 2, in |-> <<<<0>>, <<0, 1>>, <<1>>, <<1, 0>>>>, init |-> <<0, 1, 0, 1>>, alphabet |-> <<<<0>>, <<1>>>>, mp |-> 900000000, mpt |-> "0.9",
   data |-> {<<0, 1, 1, 0>>, <<1, 0>>}]}

VARIABLES st, cfg, ops, last

Init ==
  \E c \in Cfgs :
    /\ cfg = c
    /\ LET ev == NewBEv(Start, "b", c.kind, c.size, c.in, c.init, c.alphabet, c.mp)
           r == Run(Start, <<ev>>)
       IN st = r.st /\ last = r.bad
    /\ ops = <<<<"b_new", "b", c.kind, c.size>> \o Sqs(c.in) \o Sq(c.init) \o Sqs(c.alphabet) \o <<c.mpt>>>>

Accept(s) ==
  /\ Len(ops) <= MaxAcc
  /\ GetB(st, "b").steps < MaxSteps
  /\ \E evs \in BAccept(st, "b", s, MaxNew) :
       LET r == Run(st, evs) IN st' = r.st /\ last' = r.bad
  /\ ops' = Append(ops, <<"b_acc", "b">> \o Sq(s))
  /\ UNCHANGED cfg

Next == \E s \in cfg.data : Accept(s)

Spec == Init /\ [][Next]_<<st, cfg, ops, last>>

(*------------------------------- guarantees -----------------------------*)

B == GetB(st, "b")
Hist == B.hist
Cur == CurD(st, B)
Pub == PubD(st, B)
Met == UNION {Range1(Hist[k]) : k \in 1..Len(Hist)} \cup UNION {Range1(cfg.in[k]) : k \in 1..Len(cfg.in)}

\* every event the specification produces is one it accepts
Accepted == last = {}
\* C07 (all configurations have room for the symbols)
NoSymbolLost == Met \subseteq Singles(Cur)
\* C08
OnlyFromData == FromData(B, Cur) /\ FromData(B, Pub)
\* C09
WithinSize == B.steps < 2 \/ Cardinality(Multis(Pub)) <= MaxOf(0, B.size - B.pasz) + 1
\* C04, C05
WellShaped == NoDuplicates(Cur) /\ WellFormed(Cur) /\ NoDuplicates(Pub)
\* C10
Alternate == B.pop = (B.steps % 2 = 0)
MinProb == B.cur.mp > 0 /\ B.cur.mp <= cfg.mp
\* C11, C06
Counting == /\ SumSeq(B.cur.cnt) = B.cur.P
            /\ Len(B.cur.w) <= Len(Cur) /\ Len(B.cur.cnt) <= Len(Cur)
            /\ B.cur.P = FoldLeft(LAMBDA a, p : a + Len(p), 0, B.cur.ps)
\* the published dictionary of an expanding builder is the one that counts
Shared == B.pop => Published(B).did = B.cur.did

\* C10: the minimum probability never grows, the published dictionary changes only in reductions
Monotone == [][GetB(st', "b").cur.mp <= GetB(st, "b").cur.mp]_<<st, cfg, ops, last>>
\* an expansion leaves the published dictionary, up to appended symbols, as it was
PublishOnlyReducing ==
  [][LET b == GetB(st, "b")
         c == GetB(st', "b")
     IN (c.steps = b.steps \/ b.pop) => Published(c).did = Published(b).did]_<<st, cfg, ops, last>>

\* due steps can always be taken: the rules do not contradict each other
Possible == \A s \in cfg.data : BAccept(st, "b", s, MaxNew) # {}

Done == Len(ops) > MaxAcc \/ B.steps >= MaxSteps
Emitted == ~Emit \/ ~Done \/ PrintT("SCRIPT|" \o ToJson(Append(ops, <<"b_obs", "b">>)))
View == IF Emit THEN <<ops, st, last>> ELSE <<st, cfg, last>>
====

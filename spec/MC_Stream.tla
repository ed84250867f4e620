---- MODULE MC_Stream ----
(***************************************************************************)
(* An integer pipeline restored from a file, its dictionary in the hands   *)
(* of somebody else, and a second pipeline loaded from a file it saved.    *)
(***************************************************************************)
EXTENDS VgActs, Json

CONSTANTS MaxOps, MaxAcc, MaxNew, Emit

Rec(size, mp, coder, al, fr, ft) ==
  [size |-> size, mp |-> mp, coder |-> coder, al |-> al, fr |-> fr, tx |-> <<>>, tk |-> <<>>, ft |-> ft, wt |-> <<>>]

Cfgs == {
  [f |-> Rec(4, 900000000, <<7, 5>>, <<<<0>>, <<1>>>>, <<0, 0>>, <<>>), mpt |-> "0.9",
   data |-> {<<7, 5>>, <<5, 5, 7>>, <<9>>}],
  [f |-> Rec(5, 600000000, <<7, 5>>, <<<<1>>, <<0, 1>>, <<0>>>>, <<2, 5, 3>>, <<>>), mpt |-> "0.6",
   data |-> {<<7, 5, 7>>, <<9, 7>>, <<>>}]}

VARIABLES st, cfg, ops, last, accs

Do(evs, op) == LET r == Run(st, evs) IN st' = r.st /\ last' = r.bad /\ ops' = ops \o op /\ UNCHANGED cfg

Init ==
  \E c \in Cfgs :
    /\ cfg = c
    /\ LET r1 == Run(Start, <<WriteEv("m", c.f)>>)
           r2 == Run(r1.st, <<LoadEv(r1.st, "v", "m", FALSE)>>)
       IN st = r2.st /\ last = r1.bad \cup r2.bad
    /\ ops = <<WriteOp("m", c.f, c.mpt), <<"v_load", "v", "m">>>>
    /\ accs = 0

Objs == DOMAIN st.ob \cap {"v", "w"}

Accept(h, s) == /\ accs < MaxAcc
                /\ \E evs \in VAccepts(st, h, s, MaxNew) : Do(evs, <<<<"v_acc", h>> \o Sq(s)>>)
                /\ accs' = accs + 1
Parse(h, s) == \E evs \in VParses(st, h, s) : Do(evs, <<<<"v_parse", h>> \o Sq(s)>>) /\ UNCHANGED accs
Update(h) == Do(<<VUpdEv(st, h)>>, <<<<"v_upd", h>>>>) /\ UNCHANGED accs
Hold == /\ "d" \notin DOMAIN st.ob
        /\ Do(<<[o |-> "v_hold", h |-> "v", dh |-> "d", g |-> st.ob["v"].did, dl |-> <<>>]>>, <<<<"v_hold", "v", "d">>>>)
        /\ UNCHANGED accs
Touch(x) == /\ "d" \in DOMAIN st.ob
            /\ x < Len(st.ob["v"].c)      \* the caller knows codes only from the pipeline
            /\ Do(<<DSearchEv(st, "d", <<x>>)>>, <<<<"d_search", "d">> \o Sq(<<x>>) \o <<"-">>>>)
            /\ UNCHANGED accs
Clone == /\ "w" \notin DOMAIN st.ob
         /\ LET r1 == Run(st, <<SaveEv(st, "v", "f")>>)
                r2 == Run(r1.st, <<ReadEv(r1.st, "f")>>)
                r3 == Run(r2.st, <<LoadEv(r2.st, "w", "f", FALSE)>>)
            IN st' = r3.st /\ last' = r1.bad \cup r2.bad \cup r3.bad
         /\ ops' = ops \o <<<<"v_save", "v", "f", "-">>, <<"f_read", "f">>, <<"v_load", "w", "f">>>>
         /\ UNCHANGED <<cfg, accs>>

Next == /\ Len(ops) < MaxOps
        /\ \/ \E h \in Objs, s \in cfg.data : Accept(h, s) \/ Parse(h, s)
           \/ \E h \in Objs : Update(h)
           \/ Hold
           \/ \E x \in {0, 1, 2} : Touch(x)
           \/ Clone

vars == <<st, cfg, ops, last, accs>>
Spec == Init /\ [][Next]_vars

(*------------------------------- guarantees -----------------------------*)

V(h) == st.ob[h]
Accepted == last = {}
\* C15
OneDictionary == \A h \in Objs : /\ Len(Reports(st, V(h))) = Len(SnapD(st, V(h)))
                                 /\ NoDuplicates(SnapD(st, V(h)))
                                 /\ \A i \in 1..Len(SnapD(st, V(h))) :
                                      Decodable(V(h).c, SnapD(st, V(h))[i])
\* C19: the frequencies of the file are those of its entries, however they are ordered, until there are others
AsStated == (\A k \in 1..Len(ops) : ops[k] # <<"v_upd", "v">>) =>
              \A i \in 1..Len(cfg.f.al) : Reports(st, V("v"))[Find(cfg.f.al[i], SnapD(st, V("v")))] = cfg.f.fr[i]
\* C12
DistinctCodes == \A h \in Objs : NoDuplicates(V(h).c)
\* C19: the other one, saved now, and loaded again is the same model
RoundTrip ==
  \A h \in Objs :
    LET f == SavedV(st, V(h), <<>>, <<>>, <<>>)
        l == LoadedV(st, f, FALSE)
        d == SnapD(st, V(h))
        e == SnapD(l.st, l.v)
    IN /\ Range1(d) = Range1(e) /\ Len(d) = Len(e)
       /\ \A i \in 1..Len(e) : Reports(l.st, l.v)[i] = Reports(st, V(h))[Find(e[i], d)]
       /\ l.v.c = V(h).c /\ l.v.size = V(h).size /\ l.v.mp = V(h).mp
       /\ EquivFile(SavedV(l.st, l.v, <<>>, <<>>, <<>>), f)
\* C14: whatever was accepted can be parsed
Parsable == \A h \in Objs, s \in cfg.data : VParses(st, h, s) # {}
\* C23: pipelines do not share dictionaries
Separate == Cardinality(Objs) = 2 =>
              {V("v").did, V("v").B.cur.did, V("v").B.res.did} \cap {V("w").did, V("w").B.cur.did, V("w").B.res.did} = {}

\* C14: parsing teaches the coder nothing; C15: between updates identifiers keep their entries and frequencies
Stable ==
  [][\A h \in Objs :
       LET a == st.ob[h]
           b == st'.ob[h]
           refreshed == Len(ops') > Len(ops) /\ ops'[Len(ops')] = <<"v_upd", h>>
       IN /\ IsPrefix(a.c, b.c)
          /\ a.c # b.c => ops'[Len(ops')][1] = "v_acc" /\ ops'[Len(ops')][2] = h
          /\ refreshed => /\ b.did = Published(b.B).did /\ b.mp = Published(b.B).mp
                          /\ b.fr = Counts(Published(b.B), Len(st'.D[b.did]))
          /\ refreshed \/ (a.did = b.did /\ a.fr = b.fr /\ IsPrefix(st.D[a.did], st'.D[b.did]))]_vars

Done == Len(ops) >= MaxOps
Emitted == ~Emit \/ ~Done \/ PrintT("SCRIPT|" \o ToJson(ops \o FlattenSeq(SetToSeq({<<<<"v_obs", h>>>> : h \in Objs}))))
View == IF Emit THEN <<ops, st, last>> ELSE <<st, cfg, last, accs, Len(ops)>>
====

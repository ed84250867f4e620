---- MODULE MC_Fit ----
(***************************************************************************)
(* Fitting: complete, interrupted at any check, repeated; transforming in  *)
(* between, saving and loading at any moment.                              *)
(***************************************************************************)
EXTENDS VgActs, Json

CONSTANTS MaxOps, MaxNew, Emit

Rec(size, mp, coder, al, fr, ft) ==
  [size |-> size, mp |-> mp, coder |-> coder, al |-> al, fr |-> fr, tx |-> <<>>, tk |-> <<>>, ft |-> ft, wt |-> <<>>]

\* texts to fit (by number)
Texts0 == << <<<<7, 5>>, <<5>>>>, <<<<5, 5, 7>>>>, <<>>, <<<<9, 7>>, <<>>, <<7, 5>>>> >>

\* fresh models by size and iterations; loaded ones by file
Cfgs == {[fresh |-> TRUE, size |-> 6, iters |-> n] : n \in {0, 1, 2}} \cup
        {[fresh |-> FALSE, f |-> Rec(5, 600000000, <<7, 5>>, <<<<1>>, <<0, 1>>, <<0>>>>, <<2, 5, 3>>, <<<<a, b>>>>), mpt |-> "0.6"] :
            a \in BOOLEAN, b \in {FALSE}} \cup
        {[fresh |-> FALSE, f |-> Rec(5, 600000000, <<7, 5>>, <<<<1>>, <<0, 1>>, <<0>>>>, <<2, 5, 3>>, <<<<TRUE, TRUE>>>>), mpt |-> "0.6"]}

VARIABLES st, cfg, ops, last, run    \* run: <<>> or <<coder of the running fit>>

Init ==
  \E c \in Cfgs :
    /\ cfg = c
    /\ run = <<>>
    /\ IF c.fresh
       THEN LET r == Run(Start, <<NewIEv(Start, "i", c.size, c.iters)>>)
            IN st = r.st /\ last = r.bad /\ ops = <<<<"i_new", "i", c.size, c.iters>>>>
       ELSE LET r1 == Run(Start, <<WriteEv("m", c.f)>>)
                r2 == Run(r1.st, <<LoadEv(r1.st, "i", "m", TRUE)>>)
            IN st = r2.st /\ last = r1.bad \cup r2.bad /\ ops = <<WriteOp("m", c.f, c.mpt), <<"i_load", "i", "m">>>>

Objs == DOMAIN st.ob \cap {"i", "j"}
Busy == \E h \in Objs : st.ob[h].job # <<>>
Runner == CHOOSE h \in Objs : st.ob[h].job # <<>>

Do(evs, op) == LET r == Run(st, evs) IN st' = r.st /\ last' = r.bad /\ ops' = ops \o op /\ UNCHANGED cfg

\* only objects that are not loaded from a file can be interrupted by the driver
Stoppable(h) == h = "i" /\ cfg.fresh

Begin(h, seqs, stop) ==
  /\ ~Busy
  /\ Do(<<Fit0Ev(h, seqs, stop)>>, <<<<"i_fit", h, 7, stop>> \o Sqs(seqs)>>)
  /\ run' = <<st.ob[h].c>>

Learn1 ==
  /\ Busy
  /\ LET h == Runner
         v == st.ob[h]
         st1 == Put(st, h, JobSnap(st, v))
     IN /\ FitMore(v)
        /\ \E k \in 1..v.job[1].m :
             LET e == Encode(run[1], v.job[1].seqs[k])
             IN /\ \E evs \in AccEvs(st1, h, e.out, MaxNew) : Do(evs, <<>>)
                /\ run' = <<e.c>>

Finish ==
  /\ Busy
  /\ LET h == Runner
         v == st.ob[h]
     IN /\ ~FitMore(v)
        /\ Do(<<FitEndEv(st, h, run[1])>>, <<>>)
        /\ run' = <<>>

Transform1(h, seqs, stop) ==
  /\ ~Busy
  /\ \E evs \in ITransforms(st, h, seqs, stop) : Do(evs, <<<<"i_tr", h, stop>> \o Sqs(seqs)>>)
  /\ UNCHANGED run

Clone ==
  /\ ~Busy
  /\ "j" \notin DOMAIN st.ob
  /\ LET r1 == Run(st, <<SaveEv(st, "i", "f")>>)
         r2 == Run(r1.st, <<ReadEv(r1.st, "f")>>)
         r3 == Run(r2.st, <<LoadEv(r2.st, "j", "f", TRUE)>>)
     IN st' = r3.st /\ last' = r1.bad \cup r2.bad \cup r3.bad
  /\ ops' = ops \o <<<<"v_save", "i", "f", "-">>, <<"f_read", "f">>, <<"i_load", "j", "f">>>>
  /\ UNCHANGED <<cfg, run>>

Stops(h) == IF Stoppable(h) THEN {-1, 1, 2, 3} ELSE {-1}

Next ==
  \/ Learn1
  \/ Finish
  \/ /\ Len(ops) < MaxOps
     /\ \/ \E h \in Objs : \E k \in 1..Len(Texts0), stop \in Stops(h) :
             Begin(h, Texts0[k], stop) \/ Transform1(h, Texts0[k], stop)
        \/ Clone

vars == <<st, cfg, ops, last, run>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Learn1 \/ Finish)

(*------------------------------- guarantees -----------------------------*)

V(h) == st.ob[h]
Idle == ~Busy
Accepted == last = {}
\* C22, C16: only a fitted model has computed frequencies; they have one value for every entry
Fitted == \A h \in Objs : V(h).fit[1].fc => V(h).fit[1].fitted
OneDictionary == Idle => \A h \in Objs : /\ Len(Reports(st, V(h))) = Len(SnapD(st, V(h)))
                                         /\ \A i \in 1..Len(SnapD(st, V(h))) : Decodable(V(h).c, SnapD(st, V(h))[i])
\* C19
RoundTrip ==
  Idle => \A h \in Objs :
    LET f == SavedV(st, V(h), <<>>, <<>>, <<>>)
        l == LoadedV(st, f, TRUE)
    IN /\ l.v.fit[1].fitted = V(h).fit[1].fitted /\ l.v.fit[1].fc = V(h).fit[1].fc
       /\ EquivFile(SavedV(l.st, l.v, <<>>, <<>>, <<>>), f)
\* C16: a fit can always be finished, and then the model is fitted unless it was interrupted
CanFinish == Busy => (FitMore(V(Runner)) \/ Run(st, <<FitEndEv(st, Runner, run[1])>>).bad = {})
\* C16: fitted with computed frequencies is final
Final == [][\A h \in Objs : (h \in DOMAIN st'.ob /\ st.ob[h].fit[1].fc) =>
              /\ st'.ob[h].fit = st.ob[h].fit /\ st'.ob[h].fr = st.ob[h].fr /\ st'.ob[h].c = st.ob[h].c
              /\ IsPrefix(SnapD(st, st.ob[h]), SnapD(st', st'.ob[h]))]_vars
\* C22: what was interrupted is not finished: no frequencies, and not fitted if it was still learning
Interrupted == [][\A h \in Objs : (h \in DOMAIN st'.ob /\ st.ob[h].job # <<>> /\ st'.ob[h].job = <<>>) =>
                    LET j == st.ob[h].job[1]
                        f == st.ob[h].fit[1]
                        b == st'.ob[h].fit[1]
                        idle == f.fitted /\ f.fc
                    IN /\ (~idle /\ j.stop \in 1..(j.n + j.m)) => b.fc = f.fc
                       /\ (~idle /\ j.stop \in 1..j.n) => b.fitted = f.fitted
                       /\ (~idle /\ j.stop \notin 1..(j.n + j.m)) => b.fitted /\ b.fc]_vars
\* C16, C22: every fit comes to an end
Ends == []<>(run = <<>>)

Done == Len(ops) >= MaxOps /\ Idle
Emitted == ~Emit \/ ~Done \/ PrintT("SCRIPT|" \o ToJson(ops \o FlattenSeq(SetToSeq({<<<<"v_obs", h>>>> : h \in Objs}))))
View == IF Emit THEN <<ops, st, last, run>> ELSE <<st, cfg, last, run, Len(ops)>>
====

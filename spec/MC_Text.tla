---- MODULE MC_Text ----
(***************************************************************************)
(* Text pipelines: streams (x) and fitted models (y), new or restored from *)
(* files with texts, or made of a visible stream and a visible tokenizer.  *)
(***************************************************************************)
EXTENDS VgActs, Json

CONSTANTS MaxOps, MaxAcc, MaxNew, Emit

a == 97
b == 98
A == 65

Rec(size, mp, coder, al, fr, tx, ft, wt) ==
  [size |-> size, mp |-> mp, coder |-> coder, al |-> al, fr |-> fr, tx |-> <<tx>>, tk |-> <<>>, ft |-> ft, wt |-> wt]

Chars == {<<a, b, A>>, <<b, 46, b, a>>, <<57>>, <<56, 57>>, <<>>}
WordTexts == {<<a, b, 32, A>>, <<A, 32, 32, a, b>>, <<57>>, <<56>>, <<>>}

Cfgs == <<
  \* 1: characters, few evidence needed
  [kind |-> "x", texts |-> Chars, mpt |-> "0.9",
   f |-> Rec(4, 900000000, <<3, 0>>, <<<<0>>, <<1>>>>, <<0, 0>>, <<<<a>>, <<b>>>>, <<>>, <<FALSE>>)],
  \* 2: words, with a v-gram
  [kind |-> "x", texts |-> WordTexts, mpt |-> "0.6",
   f |-> Rec(5, 600000000, <<2, 5>>, <<<<0>>, <<0, 1>>, <<1>>>>, <<2, 5, 3>>, <<<<a, b>>, <<a, b, A>>, <<A>>>>, <<>>, <<TRUE>>)],
  \* 3: new
  [kind |-> "x", texts |-> Chars, new |-> FALSE],
  [kind |-> "x", texts |-> WordTexts, new |-> TRUE],
  \* 5: made of a stream and a tokenizer that knows more than the stream
  [kind |-> "wrap", texts |-> Chars, mpt |-> "0.6", mt |-> <<<<a>>, <<b>>, <<57>>>>, mc |-> <<7, 5, 1>>,
   f |-> Rec(5, 600000000, <<7, 5>>, <<<<1>>, <<0, 1>>, <<0>>>>, <<2, 5, 3>>, <<<<b>>, <<a, b>>, <<a>>>>, <<>>, <<>>)],
  \* 6, 7: fitted models
  [kind |-> "y", texts |-> Chars, mpt |-> "0.6",
   f |-> Rec(5, 600000000, <<3, 0>>, <<<<0>>, <<0, 1>>, <<1>>>>, <<2, 5, 3>>, <<<<a>>, <<a, b>>, <<b>>>>, <<<<FALSE, FALSE>>>>, <<>>)],
  [kind |-> "y", texts |-> Chars, mpt |-> "0.6",
   f |-> Rec(5, 600000000, <<3, 0>>, <<<<0>>, <<0, 1>>, <<1>>>>, <<2, 5, 3>>, <<<<a>>, <<a, b>>, <<b>>>>, <<<<TRUE, TRUE>>>>, <<>>)],
  [kind |-> "ynew", texts |-> Chars, iters |-> 1] >>

Batches == << <<<<a, b, A>>, <<b>>>>, <<>>, <<<<a, a>>, <<57>>, <<>>>> >>

VARIABLES st, cfg, ops, last, accs, run     \* run: <<>> or <<coder of the running fit>>

C == Cfgs[cfg]

Init ==
  \E i \in 1..Len(Cfgs) :
    /\ cfg = i
    /\ accs = 0
    /\ run = <<>>
    /\ LET c == Cfgs[i]
           r1 == Run(Start, <<WriteEv("m", c.f)>>)
       IN CASE c.kind = "x" /\ i \in {3, 4} ->
                 LET r == Run(Start, <<[o |-> "x_new", h |-> "x", size |-> 6, inner |-> FALSE, words |-> c.new, refused |-> FALSE]>>)
                 IN st = r.st /\ last = r.bad /\ ops = <<<<"x_new", "x", 6, 0, IF c.new THEN 1 ELSE 0>>>>
            [] c.kind = "ynew" ->
                 LET r == Run(Start, <<[o |-> "y_new", h |-> "x", size |-> 6, iters |-> c.iters, kind |-> "char"]>>)
                 IN st = r.st /\ last = r.bad /\ ops = <<<<"y_new", "x", 6, c.iters, "char">>>>
            [] c.kind \in {"x", "y"} ->
                 LET r2 == Run(r1.st, <<XLoadEv(r1.st, "x", "m", c.kind)>>)
                 IN st = r2.st /\ last = r1.bad \cup r2.bad
                    /\ ops = <<WriteTextOp("m", c.f, c.mpt), <<c.kind \o "_load", "x", "m">>>>
            [] OTHER ->
                 LET r2 == Run(r1.st, <<LoadEv(r1.st, "v", "m", FALSE)>>)
                     r3 == Run(r2.st, <<NewTokEv("t", "char", c.mt, c.mc)>>)
                     r4 == Run(r3.st, <<[o |-> "x_wrap", h |-> "x", vh |-> "v", th |-> "t", inner |-> FALSE, words |-> FALSE,
                                         refused |-> FALSE]>>)
                 IN st = r4.st /\ last = r1.bad \cup r2.bad \cup r3.bad \cup r4.bad
                    /\ ops = <<WriteTextOp("m", c.f, c.mpt), <<"v_load", "v", "m">>, NewTokOp("t", "char", c.mt, c.mc),
                               <<"x_wrap", "x", "v", "t", 0, 0>>>>

Objs == DOMAIN st.ob \cap {"x", "w"}
Kind == st.ob["x"].k
S(h) == StreamOf(st, h)
T(h) == TokAt(st, h)
Busy == \E h \in Objs : S(h).job # <<>>
Runner == CHOOSE h \in Objs : S(h).job # <<>>

Do(evs, op) == LET r == Run(st, evs) IN st' = r.st /\ last' = r.bad /\ ops' = ops \o op /\ UNCHANGED cfg

Accept(h, s) == /\ Kind = "x"
                /\ accs < MaxAcc
                /\ \E evs \in XAccepts(st, h, s, MaxNew) : Do(evs, <<<<"x_acc", h, s>>>>)
                /\ accs' = accs + 1
                /\ UNCHANGED run
Parse(h, s) == /\ Kind = "x"
               /\ \E evs \in XParses(st, h, s) : Do(evs, <<<<"x_parse", h, s>>>>)
               /\ UNCHANGED <<accs, run>>
Update(h) == Kind = "x" /\ Do(<<XUpdEv(st, h)>>, <<<<"x_upd", h>>>>) /\ UNCHANGED <<accs, run>>
TransformAll1(h, k) == /\ Kind = "y"
                       /\ \E evs \in YTransforms(st, h, Batches[k]) : Do(evs, <<<<"y_tr", h, Len(Batches[k])>> \o Batches[k]>>)
                       /\ UNCHANGED <<accs, run>>
Begin(h, k) == /\ Kind = "y"
               /\ accs < MaxAcc
               /\ LET r == Run(st, <<YFit0Ev(h, Batches[k])>>)
                  IN st' = r.st /\ last' = r.bad /\ UNCHANGED cfg
               /\ ops' = ops \o <<<<"y_fit", h, 5, Len(Batches[k])>> \o Batches[k]>>
               /\ run' = <<S(h).c>>
               /\ accs' = accs + 1
Learn1 == /\ Busy
          /\ LET h == Runner
                 v == S(h)
                 st1 == Put(st, st.ob[h].vh, JobSnap(st, v))
             IN /\ FitMore(v)
                /\ \E k \in 1..v.job[1].m :
                     LET e == Encode(run[1], v.job[1].seqs[k])
                     IN /\ \E evs \in AccEvs(st1, h, e.out, MaxNew) : Do(evs, <<>>)
                        /\ run' = <<e.c>>
          /\ UNCHANGED accs
Finish == /\ Busy
          /\ ~FitMore(S(Runner))
          /\ Do(<<YFitEndEv(st, Runner, run[1])>>, <<>>)
          /\ run' = <<>>
          /\ UNCHANGED accs
Clone == /\ "w" \notin DOMAIN st.ob
         /\ LET r1 == Run(st, <<XSaveEv(st, "x", "f")>>)
                r2 == Run(r1.st, <<ReadEv(r1.st, "f")>>)
                r3 == Run(r2.st, <<XLoadEv(r2.st, "w", "f", Kind)>>)
            IN st' = r3.st /\ last' = r1.bad \cup r2.bad \cup r3.bad
         /\ ops' = ops \o <<<<Kind \o "_save", "x", "f">>, <<"f_read", "f">>, <<Kind \o "_load", "w", "f">>>>
         /\ UNCHANGED <<cfg, accs, run>>
\* the parts of a wrapped pipeline stay usable on their own
InnerParse == /\ "v" \in DOMAIN st.ob
              /\ \E s \in {<<7, 5, 1>>, <<5, 7, 5>>} : \E evs \in VParses(st, "v", s) : Do(evs, <<<<"v_parse", "v">> \o Sq(s)>>)
              /\ UNCHANGED <<accs, run>>
InnerAccept == /\ "v" \in DOMAIN st.ob
               /\ accs < MaxAcc
               /\ \E s \in {<<1, 7, 5>>} : \E evs \in VAccepts(st, "v", s, MaxNew) : Do(evs, <<<<"v_acc", "v">> \o Sq(s)>>)
               /\ accs' = accs + 1
               /\ UNCHANGED run

Next == \/ Learn1
        \/ Finish
        \/ /\ ~Busy
           /\ Len(ops) < MaxOps
           /\ \/ \E h \in Objs, s \in C.texts : Accept(h, s) \/ Parse(h, s)
              \/ \E h \in Objs : Update(h)
              \/ \E h \in Objs, k \in 1..Len(Batches) : TransformAll1(h, k) \/ Begin(h, k)
              \/ Clone
              \/ InnerParse
              \/ InnerAccept

vars == <<st, cfg, ops, last, accs, run>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Learn1 \/ Finish)

(*------------------------------- guarantees -----------------------------*)

Idle == ~Busy
Accepted == last = {}
\* C18: the alphabet of texts is the decoded alphabet, position by position; C15: one length
OneAlphabet ==
  Idle => \A h \in Objs :
    LET d == SnapD(st, S(h))
        tx == TextsOf(st, h, S(h))
    IN /\ Len(Reports(st, S(h))) = Len(d)
       /\ \A i \in 1..Len(d) : /\ Decodable(S(h).c, d[i])
                               /\ \A k \in 1..Len(d[i]) : Find(Decode(S(h).c, d[i])[k], T(h).code) # 0
                               /\ tx[i] # <<>>
\* C13
TokensApart == \A h \in Objs : NoDuplicates(T(h).code) /\ NoDuplicates(T(h).tok)
\* C14, C18: a parse spells the known part, and every allowed parse is made of texts of the alphabet
Spelled ==
  Idle => \A h \in Objs : \A s \in C.texts :
    LET ts == TokensOf(T(h), s)
        known == SelectSeq(ts, LAMBDA x : Find(x, T(h).tok) # 0 /\ Find(CodeOf(T(h), x), S(h).c) # 0)
        outs == TextOuts(st, h, s)
    IN outs # {} /\ \A o \in outs : FlattenSeq(o) = FlattenSeq(known)
\* C19: loading what would be saved now gives texts, frequencies and parses of this very model
RoundTrip ==
  Idle => \A h \in Objs :
    LET f == SavedV(st, S(h), TextField(T(h), S(h).c, SnapD(st, S(h))), TokenField(T(h), S(h).c), IF Kind = "x" THEN <<st.ob[h].words>> ELSE <<>>)
        r1 == Run(st, <<WriteEv("q", f)>>)
        e == XLoadEv(r1.st, "q", "q", Kind)
        r2 == Run(r1.st, <<e>>)
        tx == TextsOf(st, h, S(h))
    IN /\ r2.bad = {}
       /\ Range1(e.alpha) = Range1(tx) /\ Len(e.alpha) = Len(tx)
       /\ EquivFile(f, SavedV(r2.st, StreamOf(r2.st, "q"), <<>>, <<>>, f.wt))
       /\ \A s \in C.texts :
            \/ SelectSeq(S(h).memo, LAMBDA x : x[1] = EncodeKnown(S(h).c, TextOfX(st, h, s).out)) # <<>>
            \/ TextOuts(r2.st, "q", s) = TextOuts(st, h, s)
Stable ==
  [][\A h \in Objs :
       LET u == StreamOf(st, h)
           w == StreamOf(st', h)
           t1 == TokAt(st, h)
           t2 == TokAt(st', h)
       IN /\ IsPrefix(u.c, w.c)
          /\ IsPrefix(t1.tok, t2.tok) /\ IsPrefix(t1.code, t2.code)]_vars

Done == Len(ops) >= MaxOps /\ Idle
Obs == {<<<<Kind \o "_obs", h>>>> : h \in Objs}
Emitted == ~Emit \/ ~Done \/ PrintT("SCRIPT|" \o ToJson(ops \o FlattenSeq(SetToSeq(Obs))))
View == IF Emit THEN <<ops, st, last, run>> ELSE <<st, cfg, last, accs, run, Len(ops)>>
====

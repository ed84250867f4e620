---- MODULE VgActs ----
(***************************************************************************)
(* The system as a closed state machine.  An action is a call; what the    *)
(* specification lets the call do is a set of event sequences, the same    *)
(* events that the driver records from the real code, so that the state is *)
(* advanced by the very operators that validate recorded traces.           *)
(* Observed dictionary numbers equal the indices of dictionaries here.     *)
(***************************************************************************)
EXTENDS VgMonitor

Sq(s) == <<Len(s)>> \o s
Sqs(l) == <<Len(l)>> \o FlattenSeq([i \in 1..Len(l) |-> Sq(l[i])])

(*------------------------------- stepping -------------------------------*)

\* every dictionary is observed under its own index
Rebound(st) == [st EXCEPT !.bd = UpTo(Len(st.D)), !.ls = st.D]

Run(st, evs) ==
  FoldLeft(LAMBDA a, ev : LET r == Step(Rebound(a.st), ev) IN R(Rebound(r.st), a.bad \cup r.bad), R(st, {}), evs)

Dl(did, al) == <<[g |-> did, al |-> al, par |-> ParentsOf(al)]>>
DlIf(st, did, al) == IF st.D[did] = al THEN <<>> ELSE Dl(did, al)

(*-------------------------------- parsing -------------------------------*)

RECURSIVE Segs(_, _, _)
Segs(d, s, p) == IF p > Len(s) THEN {<<>>}
                 ELSE UNION {{<<i - 1>> \o r : r \in Segs(d, s, p + Len(d[i]))} : i \in StartingAt(d, s, p)}

\* segmentations that a weighted parse may return; d2 is d grown by s
WeighOuts(d, d2, s, w, tot) == {o \in Segs(d2, s, 1) : Optimal(d, d2, s, o, w, tot)}

(*-------------------------------- learning ------------------------------*)

Pick(S) == CHOOSE x \in S : TRUE

\* candidates of an expansion: texts of neighbours which are no entries yet
PairTexts(g, d) ==
  {t \in UNION {{d[g.ps[i][k] + 1] \o d[g.ps[i][k + 1] + 1] : k \in 1..(Len(g.ps[i]) - 1)} : i \in 1..Len(g.ps)} : Find(t, d) = 0}

UpdEv(h, B, new, fr, mp, pf) ==
  [o |-> "h_upd", h |-> h, pop |-> B.pop, al |-> new, fr |-> fr, mp |-> mp, pf |-> pf]

\* learning steps that are allowed in state st for the builder of handle h; at most maxNew new v-grams
Upds(st, h, maxNew) ==
  LET B == GetB(st, h)
      d == CurD(st, B)
      n == Len(d)
      cnts == Counts(B.cur, n)
      pfs == {IF w[2] THEN Lowered(B.pf) ELSE B.pf : w \in Waits(B, RateBounds(B.cur, d))}
      FrOf(new) == [i \in 1..Len(new) |-> LET k == Find(new[i], d) IN IF k # 0 THEN cnts[k]
                                          ELSE LET C == Compositions(B.cur, d, new[i]) IN IF C = {} THEN 0 ELSE Pick(C)]
      exps == {LET new == CanonOf(Range1(d) \cup S)
                   fr == FrOf(new)
                   mp == MinSeq([i \in 1..Len(new) |-> IF Find(new[i], d) = 0 THEN Ratio(fr[i], AllPairs(B.cur)) ELSE B.cur.mp], B.cur.mp)
               IN UpdEv(h, B, new, fr, mp, pf)
               : pf \in pfs, S \in {X \in SUBSET PairTexts(B.cur, d) : Cardinality(X) <= maxNew}}
      reds == {LET new == CanonOf({d[i] : i \in (1..n) \ X})
                   fr == FrOf(new)
                   sum == SumSeq(fr)
                   mp == MinSeq([i \in 1..Len(new) |->
                                   LET k == Find(new[i], d)
                                   IN IF ParentOf(d, k) # NONE THEN Ratio(cnts[k] + 1, sum + n) ELSE 1000000000],
                                MinOf(Ratio(1, n), B.cur.mp))
               IN UpdEv(h, B, new, fr, mp, pf)
               : pf \in pfs, X \in SUBSET Multis(d)}
  IN {e \in (IF B.pop THEN exps ELSE reds) : HookUpd(st, e).bad = {}}

\* what counting the coded sequence es may do: sequences of events
AccEvs(st, h, es, maxNew) ==
  LET B == GetB(st, h)
      d == CurD(st, B)
      d2 == GrowAll(d, es)
      After(out) == [o |-> "h_acc", h |-> h, seq |-> es, out |-> out, al |-> d2]
      Ups(acc) == LET st1 == HookAcc(st, acc).st
                      due == GetB(st1, h).due
                  IN (IF TRUE \in due THEN {<<u>> : u \in Upds(st1, h, maxNew)} ELSE {})
                     \cup (IF FALSE \in due THEN {<<>>} ELSE {})
  IN UNION {{<<After(out)>> \o u : u \in Ups(After(out))} :
              out \in WeighOuts(d, d2, es, ParseWeights(B.cur, Len(d2)), TotalWeight(B.cur))}

(*-------------------------------- builders ------------------------------*)

ObsBFields(st, B) ==
  LET d == PubD(st, B)
  IN [g |-> Published(B).did, fr |-> Counts(Published(B), Len(d)), frn |-> Len(d), alpha |-> CanonOf(Range1(d)),
      mp |-> Published(B).mp, cl |-> ObservedCl(Published(B))]

\* kinds: 0 empty, 1 from a dictionary, 2 from symbols, 3 restored
NewBEv(st, h, kind, size, in, init, alphabet, mp) ==
  LET al == CanonOf(Range1(in))
  IN [o |-> "b_new", h |-> h, kind |-> kind, size |-> size, in |-> in, init |-> init, alphabet |-> alphabet, mp0 |-> mp,
      g |-> Len(st.D) + 1, dl |-> Dl(Len(st.D) + 1, al), fr |-> [i \in 1..Len(al) |-> 0], frn |-> Len(al),
      alpha |-> al, mp |-> IF kind = 3 THEN mp ELSE DefaultMinProb, cl |-> 0, argsame |-> TRUE]

\* the call of accept: inner events, then the event of the call
BAccept(st, h, s, maxNew) ==
  {LET st1 == Run(st, evs).st
       B == GetB(st, h)
   IN evs \o <<[o |-> "b_acc", h |-> h, seq |-> s, argsame |-> TRUE, g |-> Published(GetB(st1, h)).did, dl |-> <<>>]>>
   : evs \in AccEvs(st, h, s, maxNew)}

(*---------------------------- integer streams ---------------------------*)

ObsVFields(st, v) ==
  LET d == SnapD(st, v)
  IN [g |-> v.did, alpha |-> [i \in 1..Len(d) |-> Decode(v.c, d[i])], fr |-> Reports(st, v),
      ck |-> v.c, cv |-> [i \in 1..Len(v.c) |-> i - 1]]

NewVEv(st, h, size) ==
  [o |-> "v_new", h |-> h, size |-> size, g |-> Len(st.D) + 1, dl |-> Dl(Len(st.D) + 1, <<>>),
   alpha |-> <<>>, fr |-> <<>>, ck |-> <<>>, cv |-> <<>>]

VAccepts(st, h, s, maxNew) ==
  {evs \o <<[o |-> "v_acc", h |-> h, seq |-> s]>> : evs \in AccEvs(st, h, Encode(st.ob[h].c, s).out, maxNew)}

VParses(st, h, s) ==
  LET v == st.ob[h]
      es == EncodeKnown(v.c, s)
      d == SnapD(st, v)
      d2 == GrowAll(d, es)
      m == SelectSeq(v.memo, LAMBDA x : x[1] = es /\ x[3] = Len(d2))
      outs == IF m # <<>> /\ d = d2 THEN {m[1][2]} ELSE WeighOuts(d, d2, es, v.fr, SumSeq(v.fr))
  IN {<<[o |-> "v_parse", h |-> h, seq |-> s, out |-> out, g |-> v.did, dl |-> DlIf(st, v.did, d2)]>> : out \in outs}

VUpdEv(st, h) == [o |-> "v_upd", h |-> h, dl |-> <<>>] @@ ObsVFields(st, Refreshed(st, st.ob[h]))
VObsEv(st, h) == [o |-> "v_obs", h |-> h, dl |-> <<>>] @@ ObsVFields(st, st.ob[h])

\* a dictionary held by handle dh is searched without exclusions
DSearchEv(st, dh, s) ==
  LET did == st.ob[dh].did
      d2 == GrowAt(st.D[did], s, 1)
  IN [o |-> "d_search", h |-> dh, seq |-> s, id |-> Search(d2, s, {}), argsame |-> TRUE, dl |-> DlIf(st, did, d2)]

(*---------------------------------- files -------------------------------*)

WriteEv(f, rec) == [o |-> "f_write", h |-> f, j |-> rec]
ReadEv(st, f) == [o |-> "f_read", h |-> f, j |-> st.fl[f]]
SaveEv(st, h, f) == [o |-> "v_save", h |-> h, file |-> f, tok |-> "-"]
LoadEv(st, h, f, isFit) ==
  LET l == LoadedV(st, st.fl[f], isFit)
  IN [o |-> IF isFit THEN "i_load" ELSE "v_load", h |-> h, file |-> f,
      dl |-> Dl(l.v.did, l.st.D[l.v.did])] @@ ObsVFields(l.st, l.v)

\* the line that makes the driver write the file
WriteOp(f, rec, mpText) ==
  <<"FILE", f, rec.size, mpText>> \o Sq(rec.coder) \o Sqs(rec.al) \o Sq(rec.fr)
  \o (IF rec.ft = <<>> THEN <<0, 0, 0>> ELSE <<1, IF rec.ft[1][1] THEN 1 ELSE 0, IF rec.ft[1][2] THEN 1 ELSE 0>>)

(*---------------------------------- fitting -----------------------------*)

NewIEv(st, h, size, iters) ==
  [o |-> "i_new", h |-> h, size |-> size, iters |-> iters, g |-> Len(st.D) + 1, dl |-> Dl(Len(st.D) + 1, <<>>),
   alpha |-> <<>>, fr |-> <<>>, ck |-> <<>>, cv |-> <<>>]

Fit0Ev(h, seqs, stop) == [o |-> "i_fit0", h |-> h, seqs |-> seqs, stop |-> stop]

\* coder while fitting: the coder of the object and what was accepted in this fit, in order
\* (the accepted sequences are recorded coded, so the coder of the fit is kept by the caller)
\* end of the fit; c is the coder after the accepted sequences
FitEndEv(st, h, c) ==
  LET v == JobSnap(st, st.ob[h])
      j == v.job[1]
      f == v.fit[1]
      nothing == f.fitted /\ f.fc
      cutLearn == ~nothing /\ j.stop >= 1 /\ j.stop <= j.n
      cutCount == ~nothing /\ ~cutLearn /\ j.stop > j.n /\ j.stop <= j.n + j.m
      m == IF nothing \/ cutLearn THEN 0 ELSE IF cutCount THEN j.stop - j.n ELSE j.m
      c2 == FoldLeft(LAMBDA a, i : Learn(a, j.seqs[i]), c, UpTo(m))
      v1 == IF ~nothing /\ ~cutLearn /\ ~f.fitted /\ f.iters > 0 /\ j.m = 0 THEN Refreshed(st, v) ELSE v
      d == SnapD(st, v1)
      enc == [i \in 1..m |-> Codes(c2, j.seqs[i])]
      d2 == FoldLeft(LAMBDA a, s : GrowAll(a, s), d, enc)
      w == Counts(Published(v1.B), Len(PubD(st, v1.B)))
      tot == SumSeq(w)
      grown(i) == FoldLeft(LAMBDA a, k : GrowAll(a, enc[k]), d, UpTo(i))
      count == FoldLeft(LAMBDA a, i :
                 LET out == Pick(WeighOuts(grown(i - 1), grown(i), enc[i], w, tot))
                 IN FoldLeft(LAMBDA b, id : [b EXCEPT ![id + 1] = @ + 1], a, out),
               [i \in 1..Len(d2) |-> 0], UpTo(m))
      fr == IF nothing \/ cutLearn THEN Reports(st, v1) ELSE count
  IN [o |-> "i_fit", h |-> h, stop |-> j.stop, self |-> ~(cutLearn \/ cutCount), none |-> cutLearn \/ cutCount,
      argsame |-> TRUE, g |-> v1.did, dl |-> DlIf(st, v1.did, d2),
      alpha |-> [i \in 1..Len(d2) |-> Decode(c2, d2[i])], fr |-> fr, ck |-> c2, cv |-> [i \in 1..Len(c2) |-> i - 1]]

\* may the fit take another sequence
FitMore(v) ==
  LET j == v.job[1] IN j.c < j.n /\ ~(j.stop >= 1 /\ j.c >= j.stop)

RECURSIVE Transforms(_, _, _, _)
\* results of transforming seqs from the i-th on, with all growth: set of [outs, d]
Transforms(v, d, seqs, i) ==
  IF i > Len(seqs) THEN {[outs |-> <<>>, d |-> d]}
  ELSE LET es == EncodeKnown(v.c, seqs[i])
           d2 == GrowAll(d, es)
           m == SelectSeq(v.memo, LAMBDA x : x[1] = es /\ x[3] = Len(d2))
           outs == IF m # <<>> /\ d = d2 THEN {m[1][2]} ELSE WeighOuts(d, d2, es, v.fr, SumSeq(v.fr))
       IN UNION {{[outs |-> <<o>> \o r.outs, d |-> r.d] :
                    r \in Transforms(Memoized(v, d2, es, o), d2, seqs, i + 1)} : o \in outs}

ITransforms(st, h, seqs, stop) ==
  LET v == st.ob[h]
      n == TransformCount(Len(seqs), stop)
  IN {<<[o |-> "i_tr", h |-> h, stop |-> stop, seqs |-> seqs, out |-> r.outs, g |-> v.did, dl |-> DlIf(st, v.did, r.d)]>> :
        r \in Transforms(v, SnapD(st, v), SubSeq(seqs, 1, n), 1)}

(*-------------------------------- tokenizers ----------------------------*)

NewTokEv(h, k, mt, mc) == [o |-> "t_new", h |-> h, kind |-> k, mt |-> mt, mc |-> mc]
NewTokOp(h, k, mt, mc) == <<"t_new", h, k, Len(mt)>> \o FlattenSeq([i \in 1..Len(mt) |-> <<mt[i], mc[i]>>])

(*------------------------------ text pipelines --------------------------*)
(* h: handle of the text pipeline                                          *)

TextOfX(st, h, s) == Transform(TokAt(st, h), TokensOf(TokAt(st, h), s))
StreamOf(st, h) == st.ob[st.ob[h].vh]
TextsOf(st, h, v) == Texts(TokAt(st, h), v.c, SnapD(st, v))
DlNew(st, did) == Dl(did, st.D[did])

\* restored tokenizer, stream and text pipeline
XLoadEv(st, h, f, kind) ==
  LET l == LoadedV(st, st.fl[f], kind = "y")
      words == kind = "x" /\ st.fl[f].wt # <<>> /\ st.fl[f].wt[1]
      t == TokOf(st.fl[f], l.v.c, IF words THEN "word" ELSE "char")
  IN [o |-> kind \o "_load", h |-> h, file |-> f, dl |-> <<>>,
      alpha |-> Texts(t, l.v.c, SnapD(l.st, l.v)), fr |-> Reports(l.st, l.v)]

XAccepts(st, h, s, maxNew) ==
  {evs \o <<[o |-> "x_acc", h |-> h, s |-> s]>> :
     evs \in AccEvs(st, h, Encode(StreamOf(st, h).c, TextOfX(st, h, s).out).out, maxNew)}

\* texts that a parse of s may give, with the dictionary afterwards
TextOuts(st, h, s) ==
  LET v == StreamOf(st, h)
      t == TextOfX(st, h, s)
      es == EncodeKnown(v.c, t.out)
      d == SnapD(st, v)
      d2 == GrowAll(d, es)
      T == Texts(t.t, v.c, d2)
      m == SelectSeq(v.memo, LAMBDA x : x[1] = es /\ x[3] = Len(d2))
      outs == IF m # <<>> /\ d = d2 THEN {m[1][2]} ELSE WeighOuts(d, d2, es, v.fr, SumSeq(v.fr))
  IN {[i \in 1..Len(o) |-> T[o[i] + 1]] : o \in outs}

XParses(st, h, s) ==
  LET v == StreamOf(st, h)
      d2 == GrowAll(SnapD(st, v), EncodeKnown(v.c, TextOfX(st, h, s).out))
  IN {<<[o |-> "x_parse", h |-> h, s |-> s, out |-> o, dl |-> DlIf(st, v.did, d2)]>> : o \in TextOuts(st, h, s)}

XUpdEv(st, h) == LET v == Refreshed(st, StreamOf(st, h))
                 IN [o |-> "x_upd", h |-> h, alpha |-> TextsOf(st, h, v), fr |-> Reports(st, v)]
XObsEv(st, h) == LET v == StreamOf(st, h)
                 IN [o |-> st.ob[h].k \o "_obs", h |-> h, alpha |-> TextsOf(st, h, v), fr |-> Reports(st, v)]
XSaveEv(st, h, f) == [o |-> st.ob[h].k \o "_save", h |-> h, file |-> f]

\* what the driver writes for a file with texts; without, the texts are absent
WriteTextOp(f, rec, mpText) ==
  WriteOp(f, rec, mpText) \o <<IF rec.wt = <<>> THEN -1 ELSE IF rec.wt[1] THEN 1 ELSE 0>> \o rec.tx[1]

(* fitted text models *)
YFit0Ev(h, ss) == [o |-> "y_fit0", h |-> h, s |-> ss]
YFitEndEv(st, h, c) ==
  LET vh == st.ob[h].vh
      e == FitEndEv(st, vh, c)
      d2 == IF e.dl = <<>> THEN SnapD(st, JobSnap(st, st.ob[vh])) ELSE e.dl[1].al
      did == e.g
  IN [o |-> "y_fit", h |-> h, self |-> TRUE, dl |-> e.dl,
      alpha |-> Texts(TokAt(st, h), e.ck, d2), fr |-> e.fr]

Joined(ws) == FoldLeft(LAMBDA a, i : IF i = 1 THEN ws[1] ELSE a \o <<Space>> \o ws[i], <<>>, UpTo(Len(ws)))

\* transforms of the texts ss, one after the other, each by one of the parses that are allowed
RECURSIVE YOuts(_, _, _, _)
YOuts(st, h, ss, i) ==
  IF i > Len(ss) THEN {<<>>}
  ELSE UNION {LET r == Step(Rebound(st), [o |-> "y_tr", h |-> h, s |-> <<ss[i]>>, out |-> <<Joined(o)>>])
              IN {<<Joined(o)>> \o q : q \in YOuts(Rebound(r.st), h, ss, i + 1)}
              : o \in TextOuts(st, h, ss[i])}
YTransforms(st, h, ss) ==
  LET v == StreamOf(st, h)
      tt == TransformTexts(TokAt(st, h), ss)
      d2 == FoldLeft(LAMBDA d, x : GrowAll(d, EncodeKnown(v.c, x)), SnapD(st, v), tt.out)
  IN {<<[o |-> "y_tr", h |-> h, s |-> ss, out |-> o, dl |-> DlIf(st, v.did, d2)]>> : o \in YOuts(st, h, ss, 1)}
====

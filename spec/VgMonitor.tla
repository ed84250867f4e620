---- MODULE VgMonitor ----
(***************************************************************************)
(* Every call on the real code, recorded by the driver, as a step of the   *)
(* specification.  Step(st, ev) gives the next abstract state and the set  *)
(* of disagreements <<properties, what>> between the recorded call and the *)
(* steps the specification allows.  After a disagreement the state follows *)
(* what was observed, so that the rest of the trace is still checked.      *)
(*                                                                         *)
(* st.D   dictionaries (shared by the objects that refer to them)          *)
(* st.bd  observed dictionary number -> index in st.D (0: none)            *)
(* st.ls  content last observed for an observed dictionary number          *)
(* st.ob  objects by handle            st.fl  files by name                *)
(* st.hk  learning steps are observed                                      *)
(***************************************************************************)
EXTENDS VgLearn, VgCoder, VgTok, VgFile, VgRandom, TLC

Empty == [x \in {} |-> 0]
Start == [D |-> <<>>, bd |-> <<>>, ls |-> <<>>, ob |-> Empty, fl |-> Empty, hk |-> TRUE]

Has(ev, f) == f \in DOMAIN ev
Chk(ok, props, what) == IF ok THEN {} ELSE {<<props, what>>}
R(st, bad) == [st |-> st, bad |-> bad]

IsObj(st, h, kinds) == h \in DOMAIN st.ob /\ st.ob[h].k \in kinds
Put(st, h, o) == [st EXCEPT !.ob = (h :> o) @@ @]

(*----------------------------- dictionaries -----------------------------*)

DidOf(st, g) == IF g >= 1 /\ g <= Len(st.bd) THEN st.bd[g] ELSE 0
Bind(st, g, did) == IF g < 1 THEN st ELSE [st EXCEPT !.bd = [PadTo(@, g, 0) EXCEPT ![g] = did],
                                                     !.ls = PadTo(@, g, <<>>)]
AddD(st, d) == [st EXCEPT !.D = Append(@, d)]
SetD(st, did, d) == IF did = 0 THEN st ELSE [st EXCEPT !.D[did] = d]

Listed(ev, g) == IF ~Has(ev, "dl") THEN 0
                 ELSE LET F == {i \in 1..Len(ev.dl) : ev.dl[i].g = g} IN IF F = {} THEN 0 ELSE CHOOSE i \in F : TRUE
\* content of the observed dictionary g after the event
Seen(st, ev, g) == LET i == Listed(ev, g)
                   IN IF i # 0 THEN ev.dl[i].al ELSE IF g >= 1 /\ g <= Len(st.ls) THEN st.ls[g] ELSE <<>>

\* d2 is d after use with s: symbols of s at which nothing started were appended
IsSubseqOf(a, b) == FoldLeft(LAMBDA k, x : IF k < Len(a) /\ a[k + 1] = x THEN k + 1 ELSE k, 0, b) = Len(a)
Grew(d, d2, s) ==
  \/ d2 = d
  \/ /\ Len(d2) > Len(d)
     /\ SubSeq(d2, 1, Len(d)) = d
     /\ LET e == GrowAll(d, s)
        IN IsSubseqOf(SubSeq(d2, Len(d) + 1, Len(d2)), SubSeq(e, Len(d) + 1, Len(e)))

WellFormed(d) == \A i \in 1..Len(d) : d[i] # <<>>

OpTags(o) ==
  CASE o \in {"d_new", "d_copy"} -> "C04 C05 C23"
    [] o \in {"d_search", "d_greedy", "d_weigh", "d_obs"} -> "C03 C04 C05 C23"
    [] o \in {"s_new", "s_parse", "s_upd", "s_search", "s_enough"} -> "C04 C05 C06 C23"
    [] o \in {"b_new", "b_acc", "b_bulk", "b_obs", "b_hold", "b_alpha"} -> "C05 C07 C08 C10 C11 C15 C21 C23"
    [] OTHER -> "C05 C14 C15 C17 C18 C19 C21 C22 C23"

\* dictionaries reported with an event must have the content the state expects
Dicts(st, ev) ==
  LET One(a, x) ==
        LET did == DidOf(a.st, x.g)
            st1 == IF did = 0 THEN Bind(AddD(a.st, x.al), x.g, Len(a.st.D) + 1) ELSE a.st
            want == IF did = 0 THEN x.al ELSE st1.D[did]
            ok == want = x.al
            \* without hooks growth by symbols cannot be predicted
            lenient == ~st.hk /\ Len(x.al) >= Len(want) /\ SubSeq(x.al, 1, Len(want)) = want
                       /\ \A i \in (Len(want) + 1)..Len(x.al) : Len(x.al[i]) = 1
        IN [st |-> [SetD(st1, st1.bd[x.g], x.al) EXCEPT !.ls[x.g] = x.al],
            bad |-> a.bad \cup Chk(ok \/ lenient, OpTags(ev.o), "dictionary")
                          \cup Chk(NoDuplicates(x.al) /\ WellFormed(x.al), "C04 C05 C11", "repeated entries")
                          \cup Chk(x.par = ParentsOf(x.al), "C03 C04 C05", "parents")
                          \cup Chk(~Has(x, "incons"), "C04 C05", "get and alphabet differ")]
      r == IF Has(ev, "dl") THEN FoldLeft(One, R(st, {}), ev.dl) ELSE R(st, {})
      \* growth that was expected but not reported
      Missing == {g \in 1..Len(r.st.bd) : /\ r.st.bd[g] # 0 /\ Listed(ev, g) = 0
                                          /\ Len(r.st.D[r.st.bd[g]]) # Len(r.st.ls[g])}
  IN IF Missing = {} \/ ~st.hk THEN r
     ELSE R([r.st EXCEPT !.D = [i \in 1..Len(@) |->
                IF \E g \in Missing : r.st.bd[g] = i THEN r.st.ls[CHOOSE g \in Missing : r.st.bd[g] = i] ELSE @[i]]],
            r.bad \cup {<<OpTags(ev.o), "dictionary did not grow">>})

(*------------------------------- d_ events ------------------------------*)

Suffix(out, pre) == SubSeq(out, Len(pre) + 1, Len(out))
Extends(out, pre) == Len(out) >= Len(pre) /\ SubSeq(out, 1, Len(pre)) = pre

ExSet(ev) == IF Has(ev, "ex") THEN Range1(ev.ex) ELSE {}

ArgSame(ev) == Chk(~Has(ev, "argsame") \/ ev.argsame, "C23 C01 C03 C06 C21", "an argument was changed")

StepD(st, ev) ==
  CASE ev.o = "d_new" ->
       LET al == Seen(st, ev, ev.g)
           st1 == Bind(AddD(st, al), ev.g, Len(st.D) + 1)
       IN R(Put(st1, ev.h, [k |-> "d", did |-> Len(st1.D)]),
            Chk(Canonical(al, Range1(ev.in)), "C04", "not the canonical dictionary") \cup ArgSame(ev))
    [] ev.o = "d_copy" ->
       LET al == Seen(st, ev, ev.g)
           st1 == Bind(AddD(st, al), ev.g, Len(st.D) + 1)
       IN R(Put(st1, ev.h, [k |-> "d", did |-> Len(st1.D)]),
            Chk(al = st.D[st.ob[ev.src].did], "C04 C05 C23", "copy differs"))
    [] ev.o = "d_obs" -> R(st, {})
    [] ev.o = "d_search" ->
       LET did == st.ob[ev.h].did
           d == st.D[did]
           d2 == IF Has(ev, "ex") THEN d ELSE GrowAt(d, ev.seq, 1)
           id == Search(d2, ev.seq, ExSet(ev))
       IN R(SetD(st, did, d2),
            Chk(ev.id = id, IF d2 = d THEN "C03 C05" ELSE "C03 C05", "wrong entry found") \cup ArgSame(ev))
    [] ev.o = "d_greedy" ->
       LET did == st.ob[ev.h].did
           d == st.D[did]
           free == ~Has(ev, "ex")
           r == GreedyRun(d, ev.seq, ExSet(ev), free)
           out == Suffix(ev.out, ev.pre)
       IN R(SetD(st, did, r.d),
            Chk(Extends(ev.out, ev.pre) /\ ev.ret = Len(ev.out), "C01 C03", "output or result of greedy parse") \cup
            Chk(out = r.out, "C03 C05", "greedy parse is not repeated search") \cup
            Chk(~free \/ Covers(r.d, ev.seq, out), "C01", "greedy parse does not spell the sequence") \cup ArgSame(ev))
    [] ev.o = "d_weigh" ->
       LET did == st.ob[ev.h].did
           d == st.D[did]
           g == CHOOSE x \in 1..Len(st.bd) : st.bd[x] = did
           d2 == Seen(st, ev, g)
           out == Suffix(ev.out, ev.pre)
           cov == Covers(d2, ev.seq, out)
       IN R(SetD(st, did, d2),
            Chk(Grew(d, d2, ev.seq), "C05", "growth by a weighted parse") \cup
            Chk(Extends(ev.out, ev.pre) /\ ev.ret = Len(ev.out), "C01", "output or result of weighted parse") \cup
            Chk(cov, "C01 C02", "weighted parse does not spell the sequence") \cup
            Chk(~cov \/ Optimal(d, d2, ev.seq, out, ev.fr, ev.tot), "C02", "not the most probable parse") \cup ArgSame(ev))

(*------------------------------- s_ events ------------------------------*)

AlignedTo(d, in, fr) ==
  IF d = in THEN [i \in 1..Len(d) |-> IF i <= Len(fr) THEN fr[i] ELSE 0]
  ELSE [i \in 1..Len(d) |-> LET k == Find(d[i], in) IN IF k # 0 /\ k <= Len(fr) THEN fr[k] ELSE 0]

StepS(st, ev) ==
  IF ev.o = "s_new" THEN
       LET al == Seen(st, ev, ev.g)
           st1 == Bind(AddD(st, al), ev.g, Len(st.D) + 1)
           w == IF Has(ev, "init") THEN AlignedTo(al, ev.in, ev.init) ELSE <<>>
           gen == NewGen(w, ev.mp)
       IN R(Put(st1, ev.h, [k |-> "s", did |-> Len(st1.D), gen |-> gen]),
            Chk(Canonical(al, Range1(ev.in)), "C04", "not the canonical dictionary") \cup
            Chk(ev.fr = [i \in 1..(Len(al) + 1) |-> 0], "C06", "frequencies of a new dictionary") \cup ArgSame(ev))
  ELSE LET o == st.ob[ev.h]
           d == st.D[o.did]
           g == CHOOSE x \in 1..Len(st.bd) : st.bd[x] = o.did
           d2 == Seen(st, ev, g)
           Fr(gen) == Chk(ev.fr = Append(Counts(gen, Len(d2)), 0), "C06", "frequencies")
           Cl(gen) == Chk(CodeLengthOK(gen, ev.cl), "C06", "code length")
       IN CASE ev.o = "s_parse" ->
                 LET out == Suffix(ev.out, ev.pre)
                     cov == Covers(d2, ev.seq, out)
                     gen == Counted(o.gen, Len(d2), ev.seq, out)
                 IN R(Put(SetD(st, o.did, d2), ev.h, [o EXCEPT !.gen = gen]),
                      Chk(Grew(d, d2, ev.seq), "C05", "growth by a parse") \cup
                      Chk(Extends(ev.out, ev.pre) /\ ev.ret = Len(ev.out), "C01 C06", "output or result of parse") \cup
                      Chk(cov, "C01 C02 C06", "parse does not spell the sequence") \cup
                      Chk(~cov \/ Optimal(d, d2, ev.seq, out, ParseWeights(o.gen, Len(d2)), TotalWeight(o.gen)),
                          "C02 C06", "not the most probable parse") \cup
                      Fr(gen) \cup Cl(gen))
            [] ev.o = "s_upd" ->
                 LET gen == Bumped(o.gen, ev.i, ev.k)
                 IN R(Put(st, ev.h, [o EXCEPT !.gen = gen]), Fr(gen) \cup Cl(gen))
            [] ev.o = "s_search" ->
                 LET e2 == IF Has(ev, "ex") THEN d ELSE GrowAt(d, ev.seq, 1)
                 IN R(SetD(st, o.did, e2),
                      Chk(ev.id = Search(e2, ev.seq, ExSet(ev)), "C03", "wrong entry found") \cup Fr(o.gen))
            [] ev.o = "s_enough" ->
                 LET T == Threshold(ev.p, o.gen.mp)
                 IN R(st, Chk((~Judged(o.gen.P, T) /\ ev.p < 1000000000) \/ ev.res = (o.gen.P > T), "C06 C10", "sufficiency of evidence"))

(*--------------------------- builders and learning ----------------------*)

\* object that holds the builder of handle h
Holder(st, h) == IF h \in DOMAIN st.ob /\ st.ob[h].k \in {"x", "y"} THEN st.ob[h].vh ELSE h
HasB(st, h) == LET v == Holder(st, h) IN IsObj(st, v, {"b", "v"})
GetB(st, h) == st.ob[Holder(st, h)].B
PutB(st, h, B) == LET v == Holder(st, h) IN [st EXCEPT !.ob[v].B = B]

NewB(size, asz, did, w, mp, base) ==
  LET g == NewGen(w, mp) @@ [did |-> did]
  IN [size |-> size, asz |-> asz, pop |-> TRUE, pf |-> InitialMissing, cur |-> g, res |-> g,
      base |-> base, hist |-> <<>>, steps |-> 0, pasz |-> asz, due |-> {}, upd |-> FALSE, pend |-> <<>>, closed |-> TRUE,
      best |-> InitialBest, nt |-> {0}, rst |-> Len(w) > 0]

\* a restored builder learns under the rules of any other
AlsoRestored(B, bad) == IF B.rst THEN {<<b[1] \o " C21", b[2]>> : b \in bad} ELSE bad

CurD(st, B) == st.D[B.cur.did]
PubD(st, B) == st.D[Published(B).did]

\* the last accept was followed by a learning step iff one was due
Settle(B) == Chk(B.due = {} \/ B.upd \in B.due, "C10 C21 C16", IF B.upd THEN "learning step without evidence"
                                                      ELSE "no learning step in spite of evidence")
Settled(B) == [B EXCEPT !.due = {}, !.upd = FALSE]

\* h_acc: the builder counted a sequence
HookAcc(st, ev) ==
  LET B == GetB(st, ev.h)
      d == CurD(st, B)
      d2 == IF Has(ev, "al") THEN ev.al ELSE d
      cov == Covers(d2, ev.seq, ev.out)
      gen == Counted(B.cur, Len(d2), ev.seq, ev.out)
      B2 == [Settled(B) EXCEPT !.cur = gen, !.hist = Append(@, ev.seq), !.pend = Append(@, ev.seq),
                               !.due = StepDue(gen, B.pf)]
  IN R(PutB(SetD(st, B.cur.did, d2), ev.h, B2),
       AlsoRestored(B, Settle(B) \cup
       Chk(Grew(d, d2, ev.seq), "C05 C07 C11 C15 C21 C23", "growth while learning") \cup
       Chk(cov, "C01 C02 C06 C08", "parse while learning does not spell the sequence") \cup
       Chk(~cov \/ Optimal(d, d2, ev.seq, ev.out, ParseWeights(B.cur, Len(d2)), TotalWeight(B.cur)),
           "C02 C06 C11 C21", "not the most probable parse while learning")))

MinSeq(s, x) == FoldLeft(MinOf, x, s)

\* h_upd: the builder replaced its current dictionary
HookUpd(st, ev) ==
  LET B == GetB(st, ev.h)
      cur == B.cur
      d == CurD(st, B)
      new == ev.al
      n == Len(d)
      exp == B.pop
      cnts == Counts(cur, n)
      oldIx == SelectSeq(UpTo(Len(new)), LAMBDA i : Find(new[i], d) # 0)
      newIx == SelectSeq(UpTo(Len(new)), LAMBDA i : Find(new[i], d) = 0)
      room == Roomy(B, d)
      frOK == Len(ev.fr) = Len(new)
      rate == RateBounds(cur, d)
      \* what the observed probability of missing allows
      lower == IF ev.pf = B.pf THEN {FALSE} ELSE IF Abs(ev.pf - Lowered(B.pf)) <= 20 THEN {TRUE} ELSE {}
      waits == {w[1] : w \in {x \in Waits(B, rate) : x[2] \in lower}}
      Fr(i) == IF i <= Len(ev.fr) THEN ev.fr[i] ELSE -1
      common ==
        Chk(ev.pop = exp, "C10", "steps do not alternate") \cup
        Chk(Canonical(new, Range1(new)) /\ WellFormed(new), "C04 C11", "a new generation is not canonical") \cup
        Chk(waits # {}, "C10", "probability of missing") \cup
        Chk(ev.mp > 0 /\ ev.mp <= cur.mp + 1, "C10", "minimum probability grew") \cup
        Chk(frOK /\ \A k \in 1..Len(oldIx) : Fr(oldIx[k]) = cnts[Find(new[oldIx[k]], d)], "C11 C06",
            "frequencies carried to the new generation")
      comps == [k \in 1..Len(newIx) |-> Compositions(cur, d, new[newIx[k]])]
      pairs == AllPairs(cur)
      expMp == MinSeq([k \in 1..Len(newIx) |-> Ratio(Fr(newIx[k]), pairs)], cur.mp)
      expand ==
        Chk(ExpandSlots(B, n) < 0 \/ ~room \/ Len(oldIx) = n, "C07 C11", "expansion lost an entry") \cup
        Chk(\A k \in 1..Len(comps) : comps[k] # {}, "C08", "a candidate does not come from the data") \cup
        Chk(\A k \in 1..Len(comps) : comps[k] = {} \/ Fr(newIx[k]) \in comps[k], "C11", "frequency of a candidate") \cup
        Chk(ExpandSlots(B, n) < 0 \/ Len(newIx) <= ExpandSlots(B, n), "C09", "too many candidates") \cup
        Chk(Abs(ev.mp - expMp) <= 3, "C10", "minimum probability of candidates") \cup
        (IF n = 0 \/ n > MaxPairDict \/ ~room \/ ExpandSlots(B, n) < 0 THEN {}
         ELSE {<<"C26", w>> : w \in Associated(cur, d, {new[newIx[k]] : k \in 1..Len(newIx)}, ExpandSlots(B, n))})
      zero == ZeroIds(cur, d)
      sf == SymbolsFirst(d)
      keptSum == FoldLeft(LAMBDA a, k : a + cnts[Find(new[oldIx[k]], d)], 0, UpTo(Len(oldIx)))
      redMp == MinSeq([k \in 1..Len(oldIx) |->
                        LET i == Find(new[oldIx[k]], d)
                        IN IF ParentOf(d, i) # NONE THEN Ratio(cnts[i] + 1, keptSum + n) ELSE 1000000000],
                      MinOf(Ratio(1, n), cur.mp))
      kept == {i \in 1..n : Find(d[i], new) # 0}
      slots == ReduceSlots(B, d)
      gb == [i \in 1..n |-> GainBounds(cur, d, i, zero)]
      cands == {i \in 1..n : (i - 1) \notin zero}
      sure == {i \in cands : gb[i].lo > 0}
      reduce ==
        Chk(newIx = <<>>, "C08 C25", "reduction invented an entry") \cup
        Chk(~room \/ ~sf \/ Singles(new) = Singles(d), "C07 C25", "reduction lost a symbol") \cup
        Chk(~room \/ slots < 0 \/ Len(new) <= slots, "C09", "more v-grams than the size leaves room for") \cup
        Chk(\A i \in kept : (i - 1) \notin zero, "C25", "kept an entry that was never counted") \cup
        Chk(Abs(ev.mp - redMp) <= 3, "C10", "minimum probability of the reduced dictionary") \cup
        Chk(~room \/
            (/\ \A i \in kept : gb[i].hi > 0
             /\ \A i \in sure \ kept : Len(new) >= slots /\ \A j \in kept : gb[j].hi >= gb[i].lo),
            "C25", "not the most useful v-grams were kept")
      st1 == AddD(st, new)
      gen == NewGen(ev.fr, MaxOf(1, ev.mp)) @@ [did |-> Len(st1.D)]
      B2 == [B EXCEPT !.cur = gen, !.res = IF exp THEN cur ELSE gen, !.pop = ~exp, !.pf = ev.pf, !.best = BestAfter(B, rate),
                      !.nt = IF waits = {} THEN 0..8 ELSE {MinOf(x, 8) : x \in waits},
                      !.asz = KnownAfter(@, new), !.pasz = IF exp THEN @ ELSE B.asz, !.steps = @ + 1, !.upd = TRUE]
  IN R(PutB(st1, ev.h, B2),
       AlsoRestored(B, common \cup Chk(B.due # {} /\ ~B.upd, "C10", "learning step outside of accepting") \cup
                       (IF exp THEN expand ELSE reduce)))

\* entries longer than a symbol occur in the data or were there from the beginning
FromData(B, d) == \A i \in 1..Len(d) :
                    \/ Len(d[i]) <= 1
                    \/ d[i] \in B.base
                    \/ \E k \in 1..Len(B.hist) : OccursIn(d[i], B.hist[k])

\* bind the observed dictionary g to the published dictionary of B
BindPub(st, ev, B) == IF DidOf(st, ev.g) = 0 THEN Bind(st, ev.g, Published(B).did) ELSE st
PubBad(st, ev, B) ==
  LET did == DidOf(st, ev.g)
  IN Chk(did = 0 \/ did = Published(B).did \/ st.D[did] = PubD(st, B), "C05 C10 C11 C15 C21 C23", "published dictionary")

\* without hooks the published state is taken as observed
Adopt(st, ev, B) ==
  LET al == Seen(st, ev, ev.g)
      did == DidOf(st, ev.g)
      st1 == IF did = 0 THEN Bind(AddD(st, al), ev.g, Len(st.D) + 1) ELSE SetD(st, did, al)
      gen == [B.cur EXCEPT !.did = DidOf(st1, ev.g), !.cnt = IF Has(ev, "fr") THEN ev.fr ELSE @,
                           !.mp = IF Has(ev, "mp") /\ ev.mp > 0 THEN ev.mp ELSE @]
  IN [st |-> st1, B |-> [B EXCEPT !.pop = TRUE, !.cur = gen, !.res = gen]]

ObsB(st0, ev, h) ==
  LET B0 == GetB(st0, h)
      ad == IF st0.hk \/ ev.o = "b_new" THEN [st |-> st0, B |-> B0] ELSE Adopt(st0, ev, B0)
      B == ad.B
      st1 == BindPub(ad.st, ev, B)
      d == PubD(st1, B)
      pub == Published(B)
      multi == Cardinality(Multis(d))
  IN R(PutB(st1, h, B),
       PubBad(ad.st, ev, B) \cup
       Chk(ev.fr = Counts(pub, Len(d)), "C11 C15 C06 C21", "frequencies of the published dictionary") \cup
       Chk(Len(ev.fr) = Len(d) /\ ev.frn = Len(ev.fr), "C11", "number of frequencies") \cup
       Chk(Canonical(ev.alpha, Range1(d)), "C11 C10 C21 C23", "alpha differs from the published dictionary") \cup
       Chk(Abs(ev.mp - pub.mp) <= 2, "C10 C21", "minimum probability") \cup
       Chk(~st1.hk \/ CodeLengthOK(pub, ev.cl), "C06", "code length of the published dictionary") \cup
       Chk(st1.hk \/ FromData(B, d), "C08", "a v-gram does not occur in the data"))

StepB(st, ev) ==
  CASE ev.o = "b_new" ->
       LET al == Seen(st, ev, ev.g)
           st1 == Bind(AddD(st, al), ev.g, Len(st.D) + 1)
           did == Len(st1.D)
           S == Range1(ev.in)
           asz == CASE ev.kind = 0 -> 0
                    [] ev.kind = 3 -> Cardinality({i \in 1..Len(ev.alphabet) : Len(ev.alphabet[i]) = 1})
                    [] OTHER -> Len(ev.in)
           B == NewB(IF ev.size > 0 THEN ev.size ELSE Len(ev.in), asz, did,
                     IF ev.kind = 3 THEN PadTo(ev.init, Len(al), 0) ELSE <<>>,
                     IF ev.kind = 3 THEN ev.mp0 ELSE DefaultMinProb, S)
           r == ObsB(Put(st1, ev.h, [k |-> "b", B |-> B]), ev, ev.h)
       IN R(r.st, r.bad \cup ArgSame(ev) \cup
            Chk(Canonical(al, S), "C04 C11 C21", "not the dictionary the builder was created with"))
    [] ev.o = "b_acc" ->
       LET B == GetB(st, ev.h)
           B2 == [Settled(B) EXCEPT !.pend = <<>>, !.hist = IF st.hk THEN @ ELSE Append(@, ev.seq)]
           st1 == PutB(st, ev.h, B2)
       IN IF ~st.hk
          THEN LET a == Adopt(st1, ev, B2) IN R(PutB(a.st, ev.h, a.B), ArgSame(ev))
          ELSE R(BindPub(st1, ev, B2),
                 Settle(B) \cup PubBad(st1, ev, B2) \cup ArgSame(ev) \cup
                 Chk(B.pend = <<ev.seq>>, "C01 C08 C10", "accepting did not count the sequence once"))
    [] ev.o = "b_bulk" ->
       \* a sequence with only one parse was accepted n times
       LET B == GetB(st, ev.h)
           d == CurD(st, B)
           ids == [k \in 1..Len(ev.seq) |-> Find(<<ev.seq[k]>>, d) - 1]
           plain == /\ \A k \in 1..Len(ids) : ids[k] >= 0
                    /\ \A i \in Multis(d) : ~OccursIn(d[i], ev.seq)
           gen == Repeated(B.cur, ids, ev.times)
           B2 == [Settled(B) EXCEPT !.cur = gen, !.hist = Append(@, ev.seq)]
           st1 == PutB(st, ev.h, B2)
       IN IF ~st.hk
          THEN LET a == Adopt(st1, ev, B2) IN R(PutB(a.st, ev.h, a.B), {})
          ELSE IF ~plain \/ StepDue(gen, B.pf) # {FALSE} THEN R(st, {<<"ALL", "script: bulk where it is not simple">>})
          ELSE R(BindPub(st1, ev, B2),
                 Settle(B) \cup PubBad(st1, ev, B2) \cup
                 Chk(ev.acc = ev.times /\ ev.out = ids, "C01 C06 C10", "accepting did not count the sequence once") \cup
                 Chk(ev.steps = 0, "C10", "learning step without evidence"))
    [] ev.o = "b_obs" -> ObsB(st, ev, ev.h)
    [] ev.o = "b_hold" ->
       LET B == GetB(st, ev.h)
           st1 == BindPub(st, ev, B)
       IN IF st.hk
          THEN R(Put(st1, ev.dh, [k |-> "d", did |-> DidOf(st1, ev.g)]), PubBad(st, ev, B))
          ELSE LET a == Adopt(st, ev, B) IN R(Put(a.st, ev.dh, [k |-> "d", did |-> DidOf(a.st, ev.g)]), {})
    [] ev.o = "b_alpha" ->
       LET B == GetB(st, ev.h)
           al == Seen(st, ev, ev.g)
           st1 == Bind(AddD(st, al), ev.g, Len(st.D) + 1)
       IN R(Put(st1, ev.dh, [k |-> "d", did |-> Len(st1.D)]),
            Chk(~st.hk \/ Range1(al) = Range1(PubD(st, B)), "C11 C23", "alpha differs from the published dictionary"))

(*--------------------------- coders and tokenizers ----------------------*)

StepK(st, ev) ==
  CASE ev.o \in {"k_new", "e_new"} -> R(Put(st, ev.h, [k |-> "k", c |-> <<>>]), {})
    [] ev.o = "k_enc" ->
       LET r == Encode(st.ob[ev.h].c, ev.seq)
       IN R(Put(st, ev.h, [k |-> "k", c |-> r.c]), Chk(ev.out = r.out, "C12", "codes"))
    [] ev.o = "e_enc" ->
       LET r == Encode(st.ob[ev.h].c, ev.seq)
       IN R(Put(st, ev.h, [k |-> "k", c |-> r.c]),
            Chk(ev.out = ev.pre \o r.out /\ ev.size = Len(r.c), "C12", "codes of the generic encoder"))
    [] ev.o = "k_im" -> R(st, Chk(ev.out = EncodeKnown(st.ob[ev.h].c, ev.seq), "C12", "immutable codes"))
    [] ev.o = "k_dec" -> R(st, Chk(ev.out = Decode(st.ob[ev.h].c, ev.seq), "C12", "decoding"))
    [] ev.o = "k_map" -> R(st, Chk(IsMapOf(st.ob[ev.h].c, ev.ck, ev.cv), "C12", "code map"))

StepT(st, ev) ==
  IF ev.o = "t_new" THEN R(Put(st, ev.h, [k |-> "t", t |-> NewTok(ev.kind, ev.mt, ev.mc)]), {})
  ELSE
  LET t == st.ob[ev.h].t
  IN CASE ev.o = "t_tr" ->
          LET ts == TokensOf(t, ev.s)
          IN R(Put(st, ev.h, [k |-> "t", t |-> AfterCodes(t, ts, ev.out)]),
               Chk(CodesOK(t, ts, ev.out), "C13", "codes of tokens"))
       [] ev.o = "t_trv" ->
          LET ts == [i \in 1..Len(ev.s) |-> TokensOf(t, ev.s[i])]
              shape == Len(ev.out) = Len(ev.s) /\ \A i \in 1..Len(ts) : Len(ts[i]) = Len(ev.out[i])
          IN R(Put(st, ev.h, [k |-> "t", t |-> AfterCodes(t, FlattenSeq(ts), FlattenSeq(ev.out))]),
               Chk(shape /\ CodesOK(t, FlattenSeq(ts), FlattenSeq(ev.out)), "C13", "codes of tokens"))
       [] ev.o = "t_dec" -> R(st, Chk(ev.out = DecodeText(t, ev.seq), "C13", "decoding"))
       [] ev.o = "t_decv" -> R(st, Chk(ev.out = [i \in 1..Len(ev.seq) |-> DecodeText(t, ev.seq[i])], "C13", "decoding"))
       [] ev.o = "t_norm" -> R(st, Chk(ev.out = Normalize(t.kind, ev.s), "C13", "normalization"))
       [] ev.o = "t_tok" -> R(st, Chk(ev.out = Tokens(t.kind, ev.s), "C13", "splitting into tokens"))

(*------------------------- integer streams and fits ---------------------*)
(* A stream is [k |-> "v", B, c (coder), did, fr, mp (the published        *)
(* snapshot), size, fit (<<>> or <<[iters, fitted, fc]>>), memo, job,      *)
(* stale (TRUE: without hooks, nothing is known of the snapshot until it   *)
(* is observed)].                                                          *)

SnapD(st, v) == st.D[v.did]

NewV(size, B, c, did, fr, mp, fit) ==
  [k |-> "v", size |-> size, B |-> B, c |-> c, did |-> did, fr |-> fr, mp |-> mp, fit |-> fit,
   memo |-> <<>>, job |-> <<>>, stale |-> FALSE]

\* without hooks what was learned is not known
Untold(st, v) == ~st.hk /\ v.B.hist # <<>>
Stale(st, v) == ~st.hk /\ v.stale

\* the snapshot is taken from the builder
Refreshed(st, v) ==
  LET p == Published(v.B)
  IN IF Untold(st, v) THEN [v EXCEPT !.stale = TRUE, !.memo = <<>>] ELSE
     [v EXCEPT !.did = p.did, !.fr = Counts(p, Len(st.D[p.did])), !.mp = p.mp, !.memo = <<>>]

Reports(st, v) == PadTo(v.fr, Len(SnapD(st, v)), 0)

ObsV(st, ev, h) ==
  LET v0 == st.ob[h]
      adopt == ~st.hk
      al == Seen(st, ev, ev.g)
      st1 == IF adopt /\ v0.stale
             THEN (IF DidOf(st, ev.g) = 0 THEN Bind(AddD(st, al), ev.g, Len(st.D) + 1) ELSE SetD(st, DidOf(st, ev.g), al))
             ELSE IF DidOf(st, ev.g) = 0 THEN Bind(st, ev.g, v0.did) ELSE st
      v == IF adopt /\ v0.stale
           THEN [v0 EXCEPT !.did = DidOf(st1, ev.g), !.fr = ev.fr, !.stale = FALSE,
                           !.c = IF MapDense(ev.ck, ev.cv) THEN OfMap(ev.ck, ev.cv) ELSE @]
           ELSE v0
      d == SnapD(st1, v)
      did == DidOf(st1, ev.g)
  IN R(Put(st1, h, v),
       Chk(did = v.did \/ st1.D[did] = d, "C05 C07 C08 C10 C15 C16 C19 C21 C22 C23", "dictionary of the pipeline") \cup
       Chk(\A i \in 1..Len(d) : Decodable(v.c, d[i]), "C12 C15", "an entry has no symbols") \cup
       Chk(\/ ~ \A i \in 1..Len(d) : Decodable(v.c, d[i])
           \/ ev.alpha = [i \in 1..Len(d) |-> Decode(v.c, d[i])], "C12 C15 C17 C19", "alphabet") \cup
       Chk(Len(ev.fr) = Len(ev.alpha), "C15 C11 C16 C17 C22", "alphabet and frequencies differ in length") \cup
       Chk(ev.fr = Reports(st1, v), "C11 C15 C16 C17 C19 C22", "frequencies") \cup
       Chk(IsMapOf(v.c, ev.ck, ev.cv), "C12 C14 C15 C17", "symbol codes") \cup
       Chk(\/ adopt \/ v.B.steps < 2 \/ v.B.size < Len(v.c) + 1
           \/ v.did # Published(v.B).did \/ Cardinality(Singles(d)) > v.B.pasz + 1
           \/ Len(d) <= v.size + 1, "C09", "dictionary is larger than the requested size"))

\* parse of coded symbols es by the snapshot; d2: dictionary afterwards
ParseBad(st, v, d2, es, out, props) ==
  LET d == SnapD(st, v)
      cov == Covers(d2, es, out)
      m == SelectSeq(v.memo, LAMBDA x : x[1] = es /\ x[3] = Len(d2))
  IN Chk(Grew(d, d2, es), "C05 C14 C15 C17", "growth by a parse") \cup
     Chk(cov, "C01 C02 C14 " \o props, "parse does not spell the known symbols") \cup
     Chk(~cov \/ Optimal(d, d2, es, out, v.fr, SumSeq(v.fr)), "C02 C15 C16 C19 " \o props, "not the most probable parse") \cup
     Chk(m = <<>> \/ Len(d) # Len(d2) \/ m[1][2] = out, "C17 C24 " \o props, "the same sequence is parsed differently")

Memoized(v, d2, es, out) == IF Len(v.memo) > 40 THEN v ELSE [v EXCEPT !.memo = Append(@, <<es, out, Len(d2)>>)]

\* learning of a pipeline accepted exactly these coded sequences since the last call
PendBad(st, v, want, props) == Chk(~st.hk \/ v.B.pend = want, props, "accepted sequences") \cup Settle(v.B)
Unpend(B) == [Settled(B) EXCEPT !.pend = <<>>]

VAccept(st, h, seq, props) ==
  LET v == st.ob[h]
      e == Encode(v.c, seq)
      B2 == IF st.hk THEN Unpend(v.B) ELSE [v.B EXCEPT !.hist = Append(@, e.out)]
  IN R(Put(st, h, [v EXCEPT !.c = e.c, !.B = B2]), PendBad(st, v, <<e.out>>, props))

Unchanged(d, d2, es) == d2

VParse(st, ev, h, seq, out, g, props) ==
  LET v == st.ob[h]
      es == EncodeKnown(v.c, seq)
      d2 == Seen(st, ev, g)
      st1 == IF DidOf(st, g) = 0 THEN Bind(st, g, v.did) ELSE st
  IN IF Stale(st, v) THEN R(st, {}) ELSE
     R(Put(SetD(st1, v.did, d2), h, Memoized(v, d2, es, out)), ParseBad(st, v, d2, es, out, props))

(* fitting: the accepts arrive as hook events while job = <<[seqs, n, stop, c]>> *)
\* an iteration that was completed refreshed the snapshot
JobSnap(st, v) ==
  IF v.job = <<>> THEN v
  ELSE LET j == v.job[1]
       IN IF j.c > 0 /\ j.m > 0 /\ j.c % j.m = 0 /\ j.c # j.stop /\ j.snap < j.c
          THEN [Refreshed(st, v) EXCEPT !.job = <<[j EXCEPT !.snap = j.c]>>] ELSE v

FitStart(st, h, seqs, stop) ==
  LET v == st.ob[h]
      learn == ~v.fit[1].fitted
      n == IF learn THEN v.fit[1].iters * Len(seqs) ELSE 0
  IN Put(st, h, [v EXCEPT !.job = <<[seqs |-> seqs, m |-> Len(seqs), n |-> n, stop |-> stop, c |-> 0, snap |-> 0,
                                     first |-> Len(v.B.hist) + 1]>>])

\* exact frequencies of the sequences es (coded) for the dictionary d (already grown)
Recount(d, w, tot, es) ==
  FoldLeft(LAMBDA a, s :
             LET b == TheBest(d, s, LnWeights(d, w), ConstDen(s, MaxOf(1, tot + Len(d))))
             IN IF b.unique
                THEN [a EXCEPT !.cnt = FoldLeft(LAMBDA c, id : [c EXCEPT ![id + 1] = @ + 1], a.cnt, b.out)]
                ELSE [a EXCEPT !.exact = FALSE],
           [cnt |-> [i \in 1..Len(d) |-> 0], exact |-> TRUE], es)

\* end of a fit whose final coder is c; fr: observed frequencies; result: TRUE if the model was returned
FitEnd(st0, h, c, fr, result, none) ==
  LET v00 == st0.ob[h]
      v0 == JobSnap(st0, v00)
      j == v0.job[1]
      f == v0.fit[1]
      nothing == f.fitted /\ f.fc
      untold == ~st0.hk /\ ~nothing /\ (j.n > 0 \/ v00.B.hist # <<>>)
      cutLearn == ~nothing /\ j.stop >= 1 /\ j.stop <= j.n
      count == IF nothing THEN 0 ELSE IF cutLearn THEN j.stop ELSE j.n
      cutCount == ~nothing /\ ~cutLearn /\ j.stop > j.n /\ j.stop <= j.n + j.m
      m == IF cutCount THEN j.stop - j.n ELSE j.m
      accepted == SubSeq(v0.B.hist, j.first, Len(v0.B.hist))
      coderOK == IsPrefix(v0.c, c) /\ NoDuplicates(c)
                 /\ Range1(c) \subseteq (Range1(v0.c) \cup UNION {Range1(j.seqs[i]) : i \in 1..Len(j.seqs)})
      \* without iterations over no sequences the snapshot is still refreshed
      v1 == IF ~nothing /\ ~cutLearn /\ ~f.fitted /\ f.iters > 0 /\ j.m = 0 THEN Refreshed(st0, v0) ELSE v0
      d0 == SnapD(st0, v1)
      enc == [i \in 1..m |-> Codes(c, j.seqs[i])]
      recount == ~nothing /\ ~cutLearn
      d2 == IF recount THEN FoldLeft(LAMBDA a, s : GrowAll(a, s), d0, enc) ELSE d0
      w == Counts(Published(v1.B), Len(st0.D[Published(v1.B).did]))
      rc == Recount(d2, w, SumSeq(w), enc)
      obs == PadTo(fr, Len(d2), 0)
      bad ==
        Settle(v0.B) \cup
        Chk(~st0.hk \/ Len(accepted) = count, "C16 C22", "number of sequences learned from") \cup
        Chk(untold \/ coderOK, "C12 C16", "symbol codes after fitting") \cup
        Chk(~st0.hk \/ ~coderOK \/ \A i \in 1..Len(accepted) :
               Decodable(c, accepted[i]) /\ Decode(c, accepted[i]) \in Range1(j.seqs),
            "C16 C08", "learned from something else than the given sequences") \cup
        Chk(none = (cutLearn \/ cutCount) /\ result = ~(cutLearn \/ cutCount), "C16 C22", "result of fitting") \cup
        (IF ~recount \/ untold THEN {}
         ELSE Chk(Len(fr) >= Len(d2) /\ \A i \in 1..Len(d2) : obs[i] >= rc.cnt[i], "C16 C22 C11 C15", "recomputed frequencies") \cup
              Chk(~rc.exact \/ obs = rc.cnt, "C16 C22 C11 C15", "recomputed frequencies are not exact") \cup
              Chk(FoldLeft(LAMBDA a, i : a + obs[i] * Len(d2[i]), 0, UpTo(Len(d2)))
                    = FoldLeft(LAMBDA a, s : a + Len(s), 0, enc), "C16 C22", "frequencies do not add up to the texts"))
      v2 == IF untold
            THEN [v0 EXCEPT !.job = <<>>, !.stale = TRUE, !.memo = <<>>, !.B.hist = Append(@, <<>>),
                            !.fit = <<[f EXCEPT !.fitted = @ \/ recount, !.fc = @ \/ (recount /\ ~cutCount)]>>]
            ELSE
            [v1 EXCEPT !.c = c, !.job = <<>>, !.B = Unpend(@),
                       !.fit = <<[f EXCEPT !.fitted = @ \/ recount, !.fc = @ \/ (recount /\ ~cutCount)]>>,
                       !.fr = IF recount THEN fr ELSE @,
                       !.memo = IF nothing THEN @ ELSE <<>>]
  IN R(IF untold THEN Put(st0, h, v2) ELSE Put(SetD(st0, v2.did, d2), h, v2), bad)

\* what a transform of seqs that is stopped at the k-th check returns
TransformCount(n, stop) == IF stop >= 1 /\ stop <= n THEN stop ELSE n

RECURSIVE TransformAll(_, _, _, _, _, _)
TransformAll(st, h, seqs, outs, i, d2) ==       \* d2: dictionary after all of them
  IF i > Len(outs) THEN R(st, {})
  ELSE LET v == st.ob[h]
           es == EncodeKnown(v.c, seqs[i])
           d == SnapD(st, v)
           e == IF Len(d) = Len(d2) THEN d2 ELSE LET x == GrowAll(d, es) IN IF Len(x) <= Len(d2) THEN SubSeq(d2, 1, Len(x)) ELSE d2
           b == ParseBad(st, v, e, es, outs[i], "C17")
           r == TransformAll(Put(SetD(st, v.did, e), h, Memoized(v, e, es, outs[i])), h, seqs, outs, i + 1, d2)
       IN R(r.st, b \cup r.bad)

\* numbers separated by single spaces, or -1: <<numbers>> if s is such a text, otherwise <<>>
NumText(s) ==
  IF s = <<45, 49>> THEN <<<<>>>>
  ELSE LET W == Words(s)
           num(w) == FoldLeft(LAMBDA a, b : a * 10 + (b - 48), 0, w)
           ok == /\ W # <<>>
                 /\ \A i \in 1..Len(W) : /\ Len(W[i]) <= 8 /\ \A k \in 1..Len(W[i]) : IsDigit(W[i][k])
                                         /\ (W[i][1] # 48 \/ Len(W[i]) = 1)
                 /\ Len(s) = FoldLeft(LAMBDA a, w : a + Len(w), Len(W) - 1, W)
                 /\ s[1] # Space /\ s[Len(s)] # Space
       IN IF ok THEN <<[i \in 1..Len(W) |-> num(W[i])]>> ELSE <<>>

LoadedV(st, f, isFit) ==       \* R with the new object in field v
  LET c == Learn(<<>>, f.coder)
      d == CanonOf(Range1(f.al))
      fr == FreqsFor(f, d)
      st1 == AddD(AddD(st, d), d)      \* the pipeline and its builder have dictionaries of their own
      B == NewB(f.size, Cardinality({i \in 1..Len(f.al) : Len(f.al[i]) = 1}), Len(st1.D), fr, MaxOf(1, f.mp), Range1(f.al))
  IN [st |-> st1,
      v |-> NewV(f.size, B, c, Len(st1.D) - 1, fr, f.mp,
                 IF isFit THEN <<[iters |-> 0, fitted |-> f.ft # <<>> /\ f.ft[1][1], fc |-> f.ft # <<>> /\ f.ft[1][2]]>> ELSE <<>>)]

SavedV(st, v, tx, tk, wt) ==
  FileOf(v.size, v.mp, v.c, SnapD(st, v), Reports(st, v), tx, tk,
         IF v.fit = <<>> THEN <<>> ELSE <<<<v.fit[1].fitted, v.fit[1].fc>>>>, wt)
  @@ [stale |-> Stale(st, v) \/ Untold(st, v), untold |-> Untold(st, v)]

Texts(t, c, d) == [i \in 1..Len(d) |-> IF Decodable(c, d[i]) THEN DecodeText(t, Decode(c, d[i])) ELSE <<>>]

TextField(t, c, d) == IF d = <<>> THEN <<>> ELSE <<Texts(t, c, d)>>
TokenField(t, c) == <<[i \in 1..Len(c) |-> DecodeOne(t, c[i])]>>

StepV(st, ev) ==
  CASE ev.o \in {"v_new", "i_new"} ->
       LET al == Seen(st, ev, ev.g)
           st1 == Bind(AddD(st, <<>>), ev.g, Len(st.D) + 1)
           B == NewB(ev.size - 1, 0, Len(st1.D), <<>>, DefaultMinProb, {})
           v == NewV(ev.size, B, <<>>, Len(st1.D), <<>>, DefaultMinProb,
                     IF ev.o = "i_new" THEN <<[iters |-> ev.iters, fitted |-> FALSE, fc |-> FALSE]>> ELSE <<>>)
       IN ObsV(Put(st1, ev.h, v), ev, ev.h)
    [] ev.o = "v_acc" -> VAccept(st, ev.h, ev.seq, "C08 C10 C12 C14 C15 C21")
    [] ev.o = "v_parse" -> VParse(st, ev, ev.h, ev.seq, ev.out, ev.g, "C14 C15 C19")
    [] ev.o = "v_upd" ->
       ObsV(Put(st, ev.h, Refreshed(st, st.ob[ev.h])), ev, ev.h)
    [] ev.o = "v_obs" -> ObsV(st, ev, ev.h)
    [] ev.o = "v_hold" ->
       LET v == st.ob[ev.h]
           st1 == IF DidOf(st, ev.g) # 0 THEN st
                  ELSE IF Stale(st, v) THEN Bind(AddD(st, Seen(st, ev, ev.g)), ev.g, Len(st.D) + 1)
                  ELSE Bind(st, ev.g, v.did)
       IN R(Put(st1, ev.dh, [k |-> "d", did |-> DidOf(st1, ev.g)]), {})
    [] ev.o = "v_save" ->
       LET v == st.ob[ev.h]
           tx == IF ev.tok = "-" THEN <<>> ELSE TextField(st.ob[ev.tok].t, v.c, SnapD(st, v))
           tk == IF ev.tok = "-" THEN <<>> ELSE TokenField(st.ob[ev.tok].t, v.c)
       IN R([st EXCEPT !.fl = (ev.file :> SavedV(st, v, tx, tk, <<>>)) @@ @], {})
    [] ev.o \in {"v_load", "i_load", "i_make"} ->
       LET f == st.fl[ev.file]
           l == LoadedV(st, f, ev.o # "v_load")
           o == ObsV(Put(l.st, ev.h, l.v), ev, ev.h)
       IN R(o.st, o.bad \cup ArgSame(ev))
    [] ev.o = "i_fit0" -> R(FitStart(st, ev.h, ev.seqs, ev.stop), {})
    [] ev.o = "i_fit" ->
       LET dense == MapDense(ev.ck, ev.cv)
           c == IF dense THEN OfMap(ev.ck, ev.cv) ELSE st.ob[ev.h].c
           r == FitEnd(st, ev.h, c, ev.fr, ev.self, ev.none)
           o == ObsV(r.st, ev, ev.h)
       IN R(o.st, r.bad \cup o.bad \cup Chk(dense, "C12 C16", "symbol codes are not dense") \cup ArgSame(ev))
    [] ev.o = "i_tr" ->
       LET m == TransformCount(Len(ev.seqs), ev.stop)
           g == ev.g
           st1 == IF DidOf(st, g) = 0 THEN Bind(st, g, st.ob[ev.h].did) ELSE st
           r == IF Stale(st, st.ob[ev.h]) THEN R(st, {})
                ELSE TransformAll(st1, ev.h, ev.seqs, SubSeq(ev.out, 1, MinOf(m, Len(ev.out))), 1, Seen(st, ev, g))
       IN R(r.st, r.bad \cup Chk(Len(ev.out) = m, "C17 C22", "number of results"))
    [] ev.o = "i_trs" ->
       LET n == Len(ev.seqs)
           m1 == TransformCount(n, ev.stop)
           m == IF ev.stop > n /\ ev.stop <= 2 * n THEN ev.stop - n ELSE m1
           nums == [i \in 1..Len(ev.out) |-> NumText(ev.out[i])]
           ok == \A i \in 1..Len(nums) : nums[i] # <<>>
           g == ev.g
           st1 == IF DidOf(st, g) = 0 THEN Bind(st, g, st.ob[ev.h].did) ELSE st
           r == IF Stale(st, st.ob[ev.h]) THEN R(st, {})
                ELSE IF ok THEN TransformAll(st1, ev.h, ev.seqs,
                                        [i \in 1..MinOf(m, Len(nums)) |-> nums[i][1]], 1, Seen(st, ev, g))
                ELSE R(st1, {})
       IN R(r.st, r.bad \cup Chk(Len(ev.out) = m, "C17 C22", "number of results") \cup
                          Chk(ok, "C17", "text of a result"))

(*------------------------------ text pipelines --------------------------*)
(* [k |-> "x" or "y", vh, th: handles of the stream and of the tokenizer,  *)
(*  words].                                                                *)

TokAt(st, h) == st.ob[st.ob[h].th].t
PutTok(st, h, t) == Put(st, st.ob[h].th, [k |-> "t", t |-> t])

ObsX(st, ev) ==
  LET x == st.ob[ev.h]
      v0 == st.ob[x.vh]
      v == v0
      d == SnapD(st, v)
      props == "C18 C15 C19 C11"
  IN IF Stale(st, v) \/ Untold(st, v)
     THEN R(st, Chk(Len(ev.alpha) = Len(ev.fr), props, "alphabet and frequencies differ in length"))
     ELSE R(st, Chk(ev.alpha = Texts(TokAt(st, ev.h), v.c, d), props, "alphabet of texts") \cup
                Chk(ev.fr = Reports(st, v), props \o " C16", "frequencies of texts"))

\* known part of a text, as symbols of the stream
KnownPart(v, codes) == Known(v.c, codes)

\* the texts outs are those of identifiers that a parse may give
TextParse(st, h, codes, outs, props) ==
  LET x == st.ob[h]
      v == st.ob[x.vh]
      t == TokAt(st, h)
      d == SnapD(st, v)
      es == EncodeKnown(v.c, codes)
      d2 == GrowAll(d, es)
      T == Texts(t, v.c, d2)
      cand == [i \in 1..Len(outs) |-> {k \in 1..Len(T) : T[k] = outs[i]}]
      unique == \A i \in 1..Len(outs) : Cardinality(cand[i]) = 1
      ids == [i \in 1..Len(outs) |-> (CHOOSE k \in cand[i] : TRUE) - 1]
      spelled == FlattenSeq(outs) = DecodeText(t, Known(v.c, codes))
      known == \A i \in 1..Len(outs) : cand[i] # {}
  IN IF Stale(st, v) THEN R(st, {})
     ELSE IF Untold(st, v) THEN R(st, Chk(spelled, "C01 C14 C18", "parse does not spell the known part of the text"))
     ELSE R(Put(SetD(st, v.did, d2), x.vh, IF unique THEN Memoized(v, d2, es, ids) ELSE v),
            Chk(spelled, "C01 C14 C18 " \o props, "parse does not spell the known part of the text") \cup
            Chk(known, "C01 C18 " \o props, "parse gives something that is not a v-gram") \cup
            (IF unique /\ spelled THEN ParseBad(st, v, d2, es, ids, "C18 " \o props) ELSE {}))

NewX(st, h, kind, words, vh, th) == Put(st, h, [k |-> kind, vh |-> vh, th |-> th, words |-> words])

NewParts(st, h, size, fit, tok) ==
  LET st1 == AddD(st, <<>>)
      B == NewB(size - 1, 0, Len(st1.D), <<>>, DefaultMinProb, {})
      v == NewV(size, B, <<>>, Len(st1.D), <<>>, DefaultMinProb, fit)
  IN Put(Put(st1, h \o ".v", v), h \o ".t", [k |-> "t", t |-> tok])

\* several texts transformed by the tokenizer of h
TransformTexts(t, ss) ==
  FoldLeft(LAMBDA a, s : LET r == Transform(a.t, TokensOf(a.t, s)) IN [t |-> r.t, out |-> Append(a.out, r.out)],
           [t |-> t, out |-> <<>>], ss)

SkipSpaces(s) == SelectSeq(s, LAMBDA b : b # Space)

\* coder of a fitted text model, told by the texts of the symbols in its alphabet
CoderFromTexts(t, d, alpha) ==
  LET S == {i \in 1..MinOf(Len(d), Len(alpha)) : Len(d[i]) = 1 /\ Find(alpha[i], t.tok) # 0}
      n == Cardinality(S)
  IN IF n > 0 /\ {d[i][1] : i \in S} = 0..(n - 1)
     THEN [k \in 1..n |-> CodeOf(t, alpha[CHOOSE i \in S : d[i][1] = k - 1])]
     ELSE <<>>

StepX(st, ev) ==
  CASE ev.o \in {"x_new", "x_wrap"} ->
       LET refuse == ev.inner /\ ev.words
           b == Chk(ev.refused = refuse, "C18", "arguments that exclude each other")
       IN IF ev.refused THEN R(st, b)
          ELSE IF ev.o = "x_wrap" THEN R(NewX(st, ev.h, "x", ev.words, ev.vh, ev.th), b)
          ELSE R(NewX(NewParts(st, ev.h, ev.size, <<>>, NewTok(IF ev.words THEN "word" ELSE "char", <<>>, <<>>)),
                      ev.h, "x", ev.words, ev.h \o ".v", ev.h \o ".t"), b)
    [] ev.o = "x_acc" ->
       LET t == TokAt(st, ev.h)
           r == Transform(t, TokensOf(t, ev.s))
           a == VAccept(PutTok(st, ev.h, r.t), st.ob[ev.h].vh, r.out, "C08 C10 C12 C13 C14 C18 C19 C21")
       IN a
    [] ev.o = "x_parse" ->
       LET t == TokAt(st, ev.h)
           r == Transform(t, TokensOf(t, ev.s))
       IN TextParse(PutTok(st, ev.h, r.t), ev.h, r.out, ev.out, "C19")
    [] ev.o = "x_upd" ->
       LET vh == st.ob[ev.h].vh
       IN ObsX(Put(st, vh, Refreshed(st, st.ob[vh])), ev)
    [] ev.o \in {"x_obs", "y_obs"} -> ObsX(st, ev)
    [] ev.o \in {"x_save", "y_save"} ->
       LET x == st.ob[ev.h]
           v == st.ob[x.vh]
       IN R([st EXCEPT !.fl = (ev.file :> SavedV(st, v, TextField(TokAt(st, ev.h), v.c, SnapD(st, v)),
                                                 TokenField(TokAt(st, ev.h), v.c),
                                                 IF x.k = "x" THEN <<x.words>> ELSE <<>>)) @@ @], {})
    [] ev.o \in {"x_load", "y_load"} ->
       LET f == st.fl[ev.file]
           isX == ev.o = "x_load"
           l == LoadedV(st, f, ~isX)
           words == isX /\ f.wt # <<>> /\ f.wt[1]
           t == TokOf(f, l.v.c, IF words THEN "word" ELSE "char")
           st1 == Put(Put(l.st, ev.h \o ".v", l.v), ev.h \o ".t", [k |-> "t", t |-> t])
       IN ObsX(NewX(st1, ev.h, IF isX THEN "x" ELSE "y", words, ev.h \o ".v", ev.h \o ".t"), ev)
    [] ev.o = "y_new" ->
       R(NewX(NewParts(st, ev.h, ev.size, <<[iters |-> ev.iters, fitted |-> FALSE, fc |-> FALSE]>>, NewTok(ev.kind, <<>>, <<>>)),
              ev.h, "y", FALSE, ev.h \o ".v", ev.h \o ".t"), {})
    [] ev.o = "y_wrap" -> R(NewX(st, ev.h, "y", FALSE, ev.vh, ev.th), {})
    [] ev.o = "y_fit0" ->
       LET r == TransformTexts(TokAt(st, ev.h), ev.s)
       IN R(FitStart(PutTok(st, ev.h, r.t), st.ob[ev.h].vh, r.out, -1), {})
    [] ev.o = "y_fit" ->
       LET vh == st.ob[ev.h].vh
           v == JobSnap(st, st.ob[vh])
           t == TokAt(st, ev.h)
           \* the fitted dictionary before new symbols are appended by counting
           c == IF v.fit[1].fitted /\ v.fit[1].fc THEN v.c
                ELSE LET e == CoderFromTexts(t, SnapD(st, v), ev.alpha)
                         fresh == FoldLeft(LAMBDA a, s : Learn(a, s), e, v.job[1].seqs)
                     IN IF Len(e) >= Len(v.c) THEN fresh ELSE FoldLeft(LAMBDA a, s : Learn(a, s), v.c, v.job[1].seqs)
           r == FitEnd(st, vh, c, ev.fr, TRUE, FALSE)
           o == ObsX(r.st, ev)
       IN R(o.st, r.bad \cup o.bad \cup Chk(ev.self, "C18 C16", "result of fitting"))
    [] ev.o = "y_tr" ->
       LET tt == TransformTexts(TokAt(st, ev.h), ev.s)
           st1 == PutTok(st, ev.h, tt.t)
           v == st.ob[st.ob[ev.h].vh]
           n == MinOf(Len(ev.out), Len(tt.out))
           spaced == tt.t.kind = "comma"
           RECURSIVE Go(_, _)
           Go(s, i) ==
             IF i > n THEN R(s, {})
             ELSE LET r == IF spaced
                           THEN R(s, Chk(v.stale \/ SkipSpaces(ev.out[i]) = SkipSpaces(DecodeText(tt.t, Known(v.c, tt.out[i]))),
                                         "C18 C17 C14 C01", "transform does not spell the known part of the text"))
                           ELSE TextParse(s, ev.h, tt.out[i], Words(ev.out[i]), "C17 C19")
                      q == Go(r.st, i + 1)
                  IN R(q.st, r.bad \cup q.bad)
           r == Go(st1, 1)
           single == \A i \in 1..n : \/ ev.out[i] = <<>>
                                     \/ /\ ev.out[i][1] # Space /\ ev.out[i][Len(ev.out[i])] # Space
                                        /\ \A k \in 1..(Len(ev.out[i]) - 1) : ~(ev.out[i][k] = Space /\ ev.out[i][k + 1] = Space)
       IN R(r.st, r.bad \cup Chk(Len(ev.out) = Len(ev.s), "C17 C18", "number of results") \cup
                          Chk(spaced \/ single, "C17 C18", "v-grams are not separated by single spaces"))

(*---------------------------------- files -------------------------------*)

StepF(st, ev) ==
  LET f == IF Has(ev, "j") THEN ev.j ELSE Empty
  IN CASE ev.o = "f_write" -> R([st EXCEPT !.fl = (ev.h :> f) @@ @], {})
       [] ev.o = "f_read" ->
          IF ~Has(ev, "j") \/ ev.h \notin DOMAIN st.fl
          THEN R(st, {<<"C19 C20", "the saved file cannot be read">>})
          ELSE LET w == st.fl[ev.h]
                   untold == Has(w, "untold") /\ w.untold
                   stale == Has(w, "stale") /\ w.stale
               IN R([st EXCEPT !.fl = (ev.h :> f) @@ @],
                    Chk(f.size = w.size /\ (untold \/ Abs(f.mp - w.mp) <= 2), "C19 C20 C21", "saved size or minimum probability") \cup
                    Chk(stale \/ (f.coder = w.coder), "C12 C19 C20", "saved symbols") \cup
                    Chk(stale \/ (f.al = w.al /\ f.fr = w.fr), "C19 C20 C15", "saved alphabet or frequencies") \cup
                    Chk(stale \/ (f.tx = w.tx), "C18 C19 C20", "saved texts") \cup
                    Chk(stale \/ (f.tk = w.tk), "C14 C18 C19", "saved tokens") \cup
                    Chk(f.ft = w.ft, "C19 C20 C22", "saved state of fitting") \cup
                    Chk(f.wt = w.wt, "C18 C19", "saved kind of tokens"))

(*---------------------------------- twins -------------------------------*)

StepTwin(st, ev) ==
  R(st, Chk(ev.al1 = ev.al2 /\ ev.par1 = ev.par2, "C24", "twins have different dictionaries") \cup
        Chk(ev.fr1 = ev.fr2, "C24", "twins have different frequencies") \cup
        Chk(ev.out1 = ev.out2, "C24", "twins parse differently") \cup
        Chk(ev.mp1 = ev.mp2, "C24", "twins have different minimum probabilities"))

(*------------------------------ random draws ----------------------------*)

StepQ(st, ev) ==
  R(st, Chk(ev.argsame /\ IsDraw(ev.p, ev.out), "C27", "not a draw around the shares of the parameters") \cup
        Chk(ev.out2 = ev.out, "C24 C27", "draws with the same parameters differ"))

(*-------------------------------- printing ------------------------------*)

StepP(st, ev) == R(st, Chk(ev.out = Printed(ev.seq) /\ ev.out2 = ev.out, "ALL", "printed sequence"))

(*----------------------------------- steps ------------------------------*)

DOps == {"d_new", "d_copy", "d_search", "d_greedy", "d_weigh", "d_obs"}
SOps == {"s_new", "s_parse", "s_upd", "s_search", "s_enough"}
BOps == {"b_new", "b_acc", "b_bulk", "b_obs", "b_hold", "b_alpha"}
KOps == {"k_new", "k_enc", "k_im", "k_dec", "k_map", "e_new", "e_enc"}
TOps == {"t_new", "t_tr", "t_trv", "t_dec", "t_decv", "t_norm", "t_tok"}
VOps == {"v_new", "i_new", "v_acc", "v_parse", "v_upd", "v_obs", "v_hold", "v_save", "v_load", "i_load", "i_make",
         "i_fit0", "i_fit", "i_tr", "i_trs"}
XOps == {"x_new", "x_wrap", "x_acc", "x_parse", "x_upd", "x_obs", "x_save", "x_load",
         "y_new", "y_wrap", "y_fit0", "y_fit", "y_tr", "y_obs", "y_save", "y_load"}

Act(st, ev) ==
  CASE ev.o = "case" -> R([Start EXCEPT !.hk = ev.hooks], {})
    [] ev.o = "exc" -> R(st, {<<"ALL", ev.what \o " in " \o ev.op>>})
    [] ev.o = "h_acc" ->
       IF ~HasB(st, ev.h) THEN R(st, {})
       ELSE LET vh == Holder(st, ev.h)
                st1 == IF st.ob[vh].k = "v" THEN Put(st, vh, JobSnap(st, st.ob[vh])) ELSE st
                r == HookAcc(st1, ev)
            IN IF st.ob[vh].k = "v" /\ st.ob[vh].job # <<>>
               THEN R([r.st EXCEPT !.ob[vh].job[1].c = @ + 1], r.bad) ELSE r
    [] ev.o = "h_upd" -> IF HasB(st, ev.h) THEN HookUpd(st, ev) ELSE R(st, {})
    [] ev.o \in DOps -> StepD(st, ev)
    [] ev.o \in SOps -> StepS(st, ev)
    [] ev.o \in BOps -> StepB(st, ev)
    [] ev.o \in KOps -> StepK(st, ev)
    [] ev.o \in TOps -> StepT(st, ev)
    [] ev.o \in VOps -> StepV(st, ev)
    [] ev.o \in XOps -> StepX(st, ev)
    [] ev.o \in {"f_write", "f_read"} -> StepF(st, ev)
    [] ev.o = "twin" -> StepTwin(st, ev)
    [] ev.o = "q_dir" -> StepQ(st, ev)
    [] ev.o = "p_seq" -> StepP(st, ev)
    [] OTHER -> R(st, {})

Inner == {"h_acc", "h_upd", "i_fit0", "y_fit0", "exc", "case"}      \* recorded inside a call

\* another object of the same kind is alive: a disagreement may be its doing
InCompany(st, ev) ==
  /\ Has(ev, "h") /\ ev.h \in DOMAIN st.ob /\ st.ob[ev.h].k \in {"b", "k", "t", "v", "x", "y"}
  /\ \E h \in DOMAIN st.ob \ {ev.h} : st.ob[h].k = st.ob[ev.h].k

Step(st, ev) == LET a == Act(st, ev)
                    d == Dicts(a.st, ev)
                    bad == IF ev.o \in Inner THEN a.bad ELSE a.bad \cup d.bad
                IN R(IF ev.o \in Inner THEN a.st ELSE d.st,
                     IF bad # {} /\ InCompany(st, ev) THEN {<<b[1] \o " C23", b[2]>> : b \in bad} ELSE bad)
====

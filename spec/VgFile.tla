---- MODULE VgFile ----
(***************************************************************************)
(* Saved models.  A file is a record                                       *)
(*   size, mp (1e-9), coder (values in the order of codes), al, fr         *)
(* and, as sequences that are empty when the field is absent,              *)
(*   tx (<<texts of the entries>>), tk (<<tokens of the values in coder>>),*)
(*   ft (<<fitted, freqs_computed>>),                                      *)
(*   wt (<<words_are_tokens>>)                                             *)
(***************************************************************************)
EXTENDS VgCoder, VgTok, VgDict

FileOf(size, mp, coder, al, fr, tx, tk, ft, wt) ==
  [size |-> size, mp |-> mp, coder |-> coder, al |-> al, fr |-> fr, tx |-> tx, tk |-> tk, ft |-> ft, wt |-> wt]

\* frequencies of file f in the order of the canonical dictionary d of its entries
FreqsFor(f, d) == [i \in 1..Len(d) |-> LET k == Find(d[i], f.al) IN IF k # 0 /\ k <= Len(f.fr) THEN f.fr[k] ELSE 0]

SameFile(a, b) ==
  /\ a.size = b.size /\ Abs(a.mp - b.mp) <= 2 /\ a.coder = b.coder
  /\ a.al = b.al /\ a.fr = b.fr /\ a.tx = b.tx /\ a.tk = b.tk /\ a.ft = b.ft /\ a.wt = b.wt

\* the same model, whatever the order of entries
EquivFile(a, b) ==
  /\ a.size = b.size /\ Abs(a.mp - b.mp) <= 2 /\ a.coder = b.coder
  /\ Len(a.al) = Len(b.al) /\ Range1(a.al) = Range1(b.al)
  /\ FreqsFor(a, b.al) = FreqsFor(b, b.al)
  /\ a.ft = b.ft /\ a.wt = b.wt

\* tokenizer restored from a file whose coder is c
TokOf(f, c, kind) ==
  LET S == IF f.tx = <<>> THEN <<>>
           ELSE SelectSeq(UpTo(Len(f.al)), LAMBDA i : Len(f.al[i]) = 1 /\ Decodable(c, f.al[i]))
      shown == [j \in 1..Len(S) |-> Decode(c, f.al[S[j]])[1]]
      K == IF f.tk = <<>> THEN <<>>
           ELSE SelectSeq(UpTo(MinOf(Len(f.tk[1]), Len(f.coder))),
                          LAMBDA i : f.tk[1][i] # <<>> /\ Find(f.coder[i], shown) = 0)
  IN NewTok(kind, [j \in 1..Len(S) |-> f.tx[1][S[j]]] \o [j \in 1..Len(K) |-> f.tk[1][K[j]]],
            shown \o [j \in 1..Len(K) |-> f.coder[K[j]]])
====

---- MODULE MC_Code ----
(***************************************************************************)
(* Coders of symbols and tokenizers: every history of calls over a few     *)
(* values and texts.                                                       *)
(***************************************************************************)
EXTENDS VgActs, Json

CONSTANTS MaxOps, MaxText, Emit

Strings(S, n) == UNION {[1..k -> S] : k \in 0..n}

\* tokenizers: kind, texts, tokens known from the beginning and their codes
Codings == <<
   [what |-> "coder", seqs |-> Strings({-3, 0, 7}, 2) \cup {<<7, 0, 7>>}],
   [what |-> "encoder", kind |-> 0, seqs |-> {<<5>>, <<5, 2>>, <<2, 5, 5>>, <<>>}],
   [what |-> "encoder", kind |-> 1, seqs |-> {<<<<97>>>>, <<<<98, 97>>, <<97>>>>, <<<<>>, <<97>>>>, <<>>}]>>
Toks ==
  {[what |-> "tok", kind |-> k, mt |-> m[1], mc |-> m[2],
    texts |-> Strings(CASE k = "char" -> {65, 97, 48, 32} [] k = "word" -> {65, 97, 32} [] OTHER -> {65, 97, 44}, MaxText)] :
      k \in {"char", "word"}, m \in {<<<<>>, <<>>>>, <<<<<<97>>>>, <<3>>>>, <<<<<<48>>, <<97>>>>, <<1, 0>>>>}} \cup
  {[what |-> "tok", kind |-> "comma", mt |-> <<>>, mc |-> <<>>, texts |-> Strings({65, 97, 44}, MaxText)]}

VARIABLES st, cfg, ops, last, given    \* given: <<argument, codes>> of every call that assigns codes

Do(ev, op) == LET r == Run(st, <<ev>>)
              IN st' = r.st /\ last' = r.bad /\ ops' = Append(ops, op) /\ UNCHANGED cfg

Init ==
  \E x \in Toks \cup {[what |-> "coding", i |-> i] : i \in 1..Len(Codings)} :
   LET c == IF x.what = "tok" THEN x ELSE Codings[x.i] IN
    /\ cfg = c
    /\ given = <<>>
    /\ LET ev == CASE c.what = "coder" -> [o |-> "k_new", h |-> "k"]
                   [] c.what = "encoder" -> [o |-> "e_new", h |-> "k", kind |-> c.kind]
                   [] OTHER -> NewTokEv("t", c.kind, c.mt, c.mc)
           r == Run(Start, <<ev>>)
       IN /\ st = r.st
          /\ last = r.bad
          /\ ops = <<CASE c.what = "coder" -> <<"k_new", "k">>
                       [] c.what = "encoder" -> <<"e_new", "k", c.kind>>
                       [] OTHER -> NewTokOp("t", c.kind, c.mt, c.mc)>>

Coder == st.ob["k"].c
Tok == st.ob["t"].t

CoderNext ==
  /\ cfg.what = "coder"
  /\ \/ \E s \in cfg.seqs : LET r == Encode(Coder, s)
                            IN /\ Do([o |-> "k_enc", h |-> "k", seq |-> s, out |-> r.out], <<"k_enc", "k">> \o Sq(s))
                               /\ given' = Append(given, <<s, r.out>>)
     \/ \E s \in cfg.seqs : /\ Do([o |-> "k_im", h |-> "k", seq |-> s, out |-> EncodeKnown(Coder, s)], <<"k_im", "k">> \o Sq(s))
                            /\ UNCHANGED given
     \/ LET s == [i \in 1..Len(Coder) |-> Len(Coder) - i]
        IN /\ Do([o |-> "k_dec", h |-> "k", seq |-> s, out |-> Decode(Coder, s)], <<"k_dec", "k">> \o Sq(s))
           /\ UNCHANGED given
     \/ /\ Do([o |-> "k_map", h |-> "k", ck |-> Coder, cv |-> [i \in 1..Len(Coder) |-> i - 1]], <<"k_map", "k">>)
        /\ UNCHANGED given

EncoderNext ==
  /\ cfg.what = "encoder"
  /\ \E s \in cfg.seqs, pre \in {<<>>, <<4, 1>>} :
       LET v == IF cfg.kind = 0 THEN [i \in 1..Len(s) |-> <<s[i]>>] ELSE s
           r == Encode(Coder, v)
       IN /\ Do([o |-> "e_enc", h |-> "k", seq |-> v, pre |-> pre, out |-> pre \o r.out, size |-> Len(r.c)],
                <<"e_enc", "k">> \o Sq(s) \o Sq(pre))
          /\ given' = Append(given, <<v, r.out>>)

TokNext ==
  /\ cfg.what = "tok"
  /\ \/ \E s \in cfg.texts :
          LET r == Transform(Tok, TokensOf(Tok, s))
          IN /\ Do([o |-> "t_tr", h |-> "t", s |-> s, out |-> r.out], <<"t_tr", "t", s>>)
             /\ given' = Append(given, <<s, r.out>>)
     \/ \E s \in {x \in cfg.texts : Len(x) <= 1} :
          LET a == Transform(Tok, TokensOf(Tok, s))
              b == Transform(a.t, TokensOf(Tok, <<97>> \o s))
          IN /\ Do([o |-> "t_trv", h |-> "t", s |-> <<s, <<97>> \o s>>, out |-> <<a.out, b.out>>],
                   <<"t_trv", "t", 2, s, <<97>> \o s>>)
             /\ given' = given \o <<<<s, a.out>>, <<<<97>> \o s, b.out>>>>
     \/ /\ given # <<>>
        /\ LET o == given[Len(given)][2] \o <<99>>       \* 99 was never given
           IN Do([o |-> "t_dec", h |-> "t", seq |-> o, out |-> DecodeText(Tok, o)], <<"t_dec", "t">> \o Sq(o))
        /\ UNCHANGED given

Next == Len(ops) < MaxOps /\ (CoderNext \/ EncoderNext \/ TokNext)

vars == <<st, cfg, ops, last, given>>
Spec == Init /\ [][Next]_vars

(*------------------------------- guarantees -----------------------------*)

Accepted == last = {}
IsTok == cfg.what = "tok"

\* C12: codes are 0, 1, 2, ... in the order of first occurrence, for good, and decode to what was given
First(s) == FoldLeft(LAMBDA a, x : IF \E i \in 1..Len(a) : a[i] = x THEN a ELSE Append(a, x), <<>>, s)
Dense == ~IsTok => /\ Coder = First(FlattenSeq([i \in 1..Len(given) |-> given[i][1]]))
                       /\ \A i \in 1..Len(given) :
                            LET g == given[i] IN /\ Len(g[2]) = Len(g[1])
                                                 /\ \A k \in 1..Len(g[1]) : g[2][k] \in 0..(Len(Coder) - 1)
                                                 /\ Decode(Coder, g[2]) = g[1]
                                                 /\ EncodeKnown(Coder, g[1]) = g[2]

\* C13: no two tokens share a code, codes stay, and decode to the normalized tokens
Reversible == IsTok => /\ NoDuplicates(Tok.tok) /\ NoDuplicates(Tok.code) /\ Len(Tok.tok) = Len(Tok.code)
                       /\ \A i \in 1..Len(cfg.mt) : Tok.tok[i] = cfg.mt[i] /\ Tok.code[i] = cfg.mc[i]
                       /\ \A i \in 1..Len(given) :
                            LET g == given[i]
                                joined == DecodeText(Tok, g[2])
                            IN /\ joined = FlattenSeq(TokensOf(Tok, g[1]))
                               /\ CodesOK(Tok, TokensOf(Tok, g[1]), g[2])
                               /\ (cfg.kind # "word" => joined = Normalize(cfg.kind, g[1]))
                               /\ (cfg.kind = "word" => joined = SelectSeq(g[1], LAMBDA b : b # Space))
Normal == IsTok => \A s \in cfg.texts : LET x == Normalize(cfg.kind, s)
                                        IN /\ Normalize(cfg.kind, x) = x
                                           /\ \A i \in 1..Len(x) : ~IsUpper(x[i]) \/ cfg.kind = "word"
                                           /\ (cfg.kind = "char" => \A i \in 1..Len(x) : IsAlnum(x[i]))
\* C13: words are the maximal runs of anything but spaces
WordRuns == (IsTok /\ cfg.kind = "word") =>
           \A s \in cfg.texts :
             LET x == TokensOf(Tok, s)
             IN /\ \A i \in 1..Len(x) : x[i] # <<>> /\ \A k \in 1..Len(x[i]) : x[i][k] # Space
                /\ FlattenSeq(x) = SelectSeq(s, LAMBDA b : b # Space)
                /\ Len(x) = Cardinality({i \in 1..Len(s) : s[i] # Space /\ (i = 1 \/ s[i - 1] = Space)})

\* what has a code keeps it
Growing == [][IF IsTok THEN IsPrefix(Tok.tok, st'.ob["t"].t.tok) /\ IsPrefix(Tok.code, st'.ob["t"].t.code)
              ELSE IsPrefix(Coder, st'.ob["k"].c)]_vars

Done == Len(ops) >= MaxOps
Ending == IF cfg.what = "coder" THEN <<<<"k_map", "k">>>> ELSE <<>>
Emitted == ~Emit \/ ~Done \/ PrintT("SCRIPT|" \o ToJson(ops \o Ending))
View == IF Emit THEN <<ops, st, last>> ELSE <<st, cfg, last, given, Len(ops)>>
====

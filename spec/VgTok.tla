---- MODULE VgTok ----
(***************************************************************************)
(* Tokenizers.  Texts are sequences of bytes, tokens are non-empty texts.  *)
(* A tokenizer t is [kind, tok, code]: tok[i] has the code code[i].        *)
(***************************************************************************)
EXTENDS VgSeq

IsDigit(b) == b >= 48 /\ b <= 57
IsUpper(b) == b >= 65 /\ b <= 90
IsLower(b) == b >= 97 /\ b <= 122
IsAlnum(b) == IsDigit(b) \/ IsUpper(b) \/ IsLower(b)
LowerOf(b) == IF IsUpper(b) THEN b + 32 ELSE b
Space == 32
Comma == 44

Normalize(kind, s) == LET a == IF kind = "char" THEN SelectSeq(s, IsAlnum) ELSE s
                          IN IF kind = "word" THEN s ELSE [i \in 1..Len(a) |-> LowerOf(a[i])]

\* maximal runs of bytes other than spaces
Words(s) ==
  LET r == FoldLeft(LAMBDA a, b : IF b = Space
                                  THEN (IF a.cur = <<>> THEN a ELSE [out |-> Append(a.out, a.cur), cur |-> <<>>])
                                  ELSE [a EXCEPT !.cur = Append(@, b)],
                    [out |-> <<>>, cur |-> <<>>], s)
  IN IF r.cur = <<>> THEN r.out ELSE Append(r.out, r.cur)

\* pieces that end with a comma (the user-defined tokenizer of the driver)
Pieces(s) ==
  LET r == FoldLeft(LAMBDA a, b : IF b = Comma
                                  THEN [out |-> Append(a.out, Append(a.cur, b)), cur |-> <<>>]
                                  ELSE [a EXCEPT !.cur = Append(@, b)],
                    [out |-> <<>>, cur |-> <<>>], s)
  IN IF r.cur = <<>> THEN r.out ELSE Append(r.out, r.cur)

Tokens(kind, s) ==
  CASE kind = "char" -> [i \in 1..Len(s) |-> <<s[i]>>]
    [] kind = "word" -> Words(s)
    [] OTHER -> Pieces(s)

TokensOf(t, s) == Tokens(t.kind, Normalize(t.kind, s))

NewTok(kind, toks, codes) == [kind |-> kind, tok |-> toks, code |-> codes]

CodeOf(t, x) == LET i == Find(x, t.tok) IN t.code[i]
DecodeOne(t, c) == LET i == Find(c, t.code) IN IF i = 0 THEN <<>> ELSE t.tok[i]
DecodeText(t, s) == FlattenSeq([i \in 1..Len(s) |-> DecodeOne(t, s[i])])

\* tokens ts were given the codes cs: the rule is that a known token keeps its code
\* and a new one gets a code that no other token has
CodesOK(t, ts, cs) ==
  /\ Len(cs) = Len(ts)
  /\ LET r == FoldLeft(LAMBDA a, i :
                LET k == Find(ts[i], a.t.tok)
                IN IF k # 0 THEN [a EXCEPT !.ok = @ /\ a.t.code[k] = cs[i]]
                   ELSE [ok |-> a.ok /\ Find(cs[i], a.t.code) = 0,
                         t |-> [a.t EXCEPT !.tok = Append(@, ts[i]), !.code = Append(@, cs[i])]],
              [ok |-> TRUE, t |-> t], UpTo(Len(ts)))
     IN r.ok

\* the tokenizer after tokens ts were given the codes cs
AfterCodes(t, ts, cs) ==
  FoldLeft(LAMBDA a, i :
             IF i > Len(cs) \/ Find(ts[i], a.tok) # 0 THEN a
             ELSE [a EXCEPT !.tok = Append(@, ts[i]), !.code = Append(@, cs[i])],
           t, UpTo(Len(ts)))

\* codes a tokenizer gives when nothing but the rule of the code (next unused number) is observed
Transform(t, ts) ==
  LET next0 == FoldLeft(LAMBDA m, c : MaxOf(m, c + 1), 0, t.code)
      r == FoldLeft(LAMBDA a, x :
             LET k == Find(x, a.t.tok)
             IN IF k # 0 THEN [a EXCEPT !.out = Append(@, a.t.code[k])]
                ELSE [t |-> [a.t EXCEPT !.tok = Append(@, x), !.code = Append(@, a.next)],
                      out |-> Append(a.out, a.next), next |-> a.next + 1],
           [t |-> t, out |-> <<>>, next |-> next0], ts)
  IN [t |-> r.t, out |-> r.out]
====

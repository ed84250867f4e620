---- MODULE MC_Draw ----
(***************************************************************************)
(* A draw is made of gamma variates, one for every parameter, divided by   *)
(* their sum.  Whatever the variates are, at most Dev standard deviations  *)
(* above and half of that below their parameters (gamma distributions have *)
(* a short lower tail), the result is what VgRandom calls a draw.          *)
(***************************************************************************)
EXTENDS VgStat, VgRandom, TLC, Json

CONSTANTS Params, MaxParams, Dev, Emit

VARIABLES p, g          \* parameters and gamma variates

Near(a) == {a, a + Dev * ISqrt(a)} \cup {MaxOf(0, a - (Dev \div 2) * ISqrt(a))}

Init == p = <<>> /\ g = <<>>
Next == \E a \in Params : \E x \in Near(a) : Len(p) < MaxParams /\ p' = Append(p, a) /\ g' = Append(g, x)
Spec == Init /\ [][Next]_<<p, g>>

Out == [i \in 1..Len(g) |-> Ratio(g[i], SumSeq(g))]

IsOne == p # <<>> /\ SumSeq(g) > 0 => IsDraw(p, Out)
\* a vector that is not normalised, or that follows other parameters, is none
Small == p # <<>> /\ SumSeq(g) > 0 => ~IsProbabilities([i \in 1..Len(p) |-> Out[i] \div 2])
Other == \A i, j \in 1..Len(p) : i < j /\ p[i] > 40 * p[j] /\ p[i] >= 100000 =>
           ~IsDraw([p EXCEPT ![i] = p[j], ![j] = p[i]], [k \in 1..Len(p) |-> Ratio(p[k], SumSeq(p))])

Emitted == ~Emit \/ Len(p) < MaxParams \/ g # p
           \/ PrintT("SCRIPT|" \o ToJson([i \in 1..Len(p) |-> <<"q_dir", "q", i>> \o SubSeq(p, 1, i)]))
====

---- MODULE Trace ----
(***************************************************************************)
(* Validation of a recorded trace: one step per recorded event.            *)
(***************************************************************************)
EXTENDS VgMonitor, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.VG_TRACE)

VARIABLES l, st, n

Init == l = 1 /\ st = Start /\ n = 0

Say(ev, b) == PrintT("BAD|" \o ToString(ev.c) \o "|" \o ToString(ev.n) \o "|" \o ev.o \o "|" \o b[1] \o "|" \o b[2])

Next ==
  \/ /\ l <= Len(Log)
     /\ LET r == Step(st, Log[l])
        IN /\ \A b \in r.bad : Say(Log[l], b)
           /\ st' = r.st
           /\ n' = n + Cardinality(r.bad)
     /\ l' = l + 1
  \/ /\ l = Len(Log) + 1
     /\ PrintT("DONE|" \o ToString(Len(Log)) \o "|" \o ToString(n))
     /\ l' = l + 1
     /\ UNCHANGED <<st, n>>

Spec == Init /\ [][Next]_<<l, st, n>>
View == l
====

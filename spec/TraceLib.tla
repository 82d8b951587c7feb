------------------------------ MODULE TraceLib ------------------------------
(* The recorded behaviour: a sequence of events, one per operation of the     *)
(* implementation.  A trace module steps through it with the actions of the   *)
(* specification; the behaviour is accepted when every event was consumed.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
(* no operation may panic or block forever, or show a time at which nothing was written *)
Sane(e) == e.panic = "" /\ e.stuck = FALSE /\ ("misdated" \in DOMAIN e => e.misdated = "")
Accepted == LET n == TLCGet("stats").diameter - 1 IN PrintT(<<"CONSUMED", n, Len(Trace)>>) /\ TRUE
=============================================================================

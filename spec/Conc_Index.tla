---------------------------- MODULE Conc_Index ----------------------------
(* Histories with concurrent callers.  The events of a group overlapped; the  *)
(* history is accepted if some order of them that respects real time (an      *)
(* operation that ended before another began comes first) is a behaviour of   *)
(* the sequential specification: linearizability.                             *)
EXTENDS Trace_Index
VARIABLE done   \* members of the current group already placed
cvs == <<vars, done>>
GroupSize(e) == IF "grp" \in DOMAIN e THEN e.gn ELSE 1
Do(e) == Sane(e) /\ CASE e.op = "conc_end" -> UNCHANGED ivars
                      [] e.op = "noise" -> e.ok /\ UNCHANGED ivars
                      [] OTHER -> Step(e)
Alone == GroupSize(Ev) = 1 /\ Do(Ev) /\ l' = l + 1 /\ done' = {}
Placed == LET n == GroupSize(Ev) grp == l..(l + n - 1) IN
    /\ n > 1
    /\ \E i \in grp \ done :
         /\ \A j \in grp \ (done \cup {i}) : ~(Trace[j].c1 < Trace[i].c0)
         /\ Do(Trace[i])
         /\ IF Cardinality(done) + 1 = n THEN l' = l + n /\ done' = {} ELSE l' = l /\ done' = done \cup {i}
CInit == Init /\ done = {}
CNext == l <= Len(Trace) /\ (Alone \/ Placed)
CSpec == CInit /\ [][CNext]_cvs
=============================================================================

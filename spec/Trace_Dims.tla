----------------------------- MODULE Trace_Dims -----------------------------
EXTENDS Dims, TraceLib
vars == <<dvars, l>>
Read(p) == IF p THEN UNCHANGED dvars ELSE FALSE
Step(e) ==
  CASE e.op = "seg"          -> e.ok /\ Fresh(e.cfg)
    [] e.op = "close"        -> e.ok /\ Close
    [] e.op = "reopen"       -> e.ok /\ Reopen(e.cfg)
    [] e.op = "set_policy"   -> SetPolicy(e.policy, e.ok)
    [] e.op = "upsert"       -> Upsert(e.row, e.ok)
    [] e.op = "upsert_batch" -> UpsertBatch(e.rows, e.ok)
    [] e.op = "delete"       -> Delete(e.id, e.ok)
    [] e.op = "clear"        -> Clear(e.ok)
    [] e.op = "get_m"        -> Read(Get(e.id, e.ok, e.m))
    [] e.op = "stats"        -> Read(Stats(e.ok, e.n, e.d))
    [] e.op = "search"       -> Read(Search(e.q, e.k, e.ok, e.res))
    [] e.op = "adapt"        -> Read(e.ok = (Adapted(e.policy, e.vec, e.d) # {}) /\ (e.ok => \E w \in Adapted(e.policy, e.vec, e.d) : IsVecOf(e.m, w, e.div)))
Init == Init0 /\ l = 1
Next == l <= Len(Trace) /\ Sane(Ev) /\ Step(Ev) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceInv == OneDim /\ DimKnown
=============================================================================

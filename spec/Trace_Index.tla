----------------------------- MODULE Trace_Index -----------------------------
EXTENDS Index, TraceLib
vars == <<ivars, l>>
Read(p) == IF p THEN UNCHANGED ivars ELSE FALSE
Step(e) ==
  CASE e.op = "seg"      -> e.ok /\ Fresh(e.cfg)
    [] e.op = "i_insert" -> Insert(e.id, e.vec, e.ok)
    [] e.op = "i_upsert" -> Upsert(e.id, e.vec, e.ok)
    [] e.op = "i_batch"  -> Batch(e.rows, e.ok)
    [] e.op = "i_delete" -> Delete(e.id, e.ok)
    [] e.op = "i_clear"  -> e.ok /\ Clear
    [] e.op = "i_train"  -> Train(e.vecs, e.ok)
    [] e.op = "i_save"   -> e.ok /\ Save
    [] e.op = "i_load"   -> Load(e.how, e.ok, e.left)
    [] e.op = "i_flip"   -> Read(TRUE)                       \* a damaged snapshot may only not crash
    [] e.op = "i_search" -> Read(Search(e.q, e.k, e.ef, e.ok, e.res))
    [] e.op = "i_range"  -> Read(e.ok /\ Near(e.q, e.t, e.res))
    [] e.op = "i_get"    -> Read(Get(e.id, e.ok, e.vec))
    [] e.op = "i_size"   -> Read(e.ok /\ Size(e.n))
Init == Init0 /\ l = 1
Next == l <= Len(Trace) /\ Sane(Ev) /\ Step(Ev) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceInv == HeldIsPlaced /\ (ic.kind # "none" => OneLength)
=============================================================================

---------------------------- MODULE Trace_Memory ----------------------------
EXTENDS Memory, TraceLib
vars == <<mvars, l>>
Read(p) == IF p THEN UNCHANGED mvars ELSE FALSE
Step(e) ==
  CASE e.op = "seg"        -> e.ok /\ Fresh(e.cfg)
    [] e.op = "cx_reopen"  -> e.ok /\ Reopen(e.cfg)
    [] e.op = "cx_embfail" -> EmbFail(e.on)
    [] e.op = "cx_sleep"   -> UNCHANGED mvars
    [] e.op = "mem_save"   -> Save(e)
    [] e.op = "mem_update" -> Update(e)
    [] e.op = "mem_get"    -> Read(Get(e))
    [] e.op = "mem_del"    -> Delete(e)
    [] e.op = "mem_search" -> Read(Search(e))
Init == Init0 /\ l = 1
Next == l <= Len(Trace) /\ Sane(Ev) /\ Step(Ev) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceInv == \A x \in DOMAIN mem : Named(mem[x].b)
=============================================================================

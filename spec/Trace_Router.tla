---------------------------- MODULE Trace_Router ----------------------------
EXTENDS Router, TraceLib
vars == <<rvars, l>>
Read(p) == IF p THEN UNCHANGED rvars ELSE FALSE
Step(e) ==
  CASE e.op = "seg"         -> e.ok /\ Fresh(e.cfg, e.lex)
    [] e.op = "r_fault"     -> Fault(e.fault)
    [] e.op = "r_add"       -> Add(e.r, e.sp, e.ok)
    [] e.op = "r_add_batch" -> AddBatch(e.rs, e.sps, e.ok)
    [] e.op = "r_add_nil"   -> Read(~e.ok)
    [] e.op = "r_remove"    -> Remove1(e.name, e.ok)
    [] e.op = "r_store"     -> e.ok /\ ShutStore
    [] e.op = "r_reload"    -> Reload(e.reopen, e.ok)
    [] e.op = "r_route"     -> Read(Route(e.q, e.ok, e))
    [] e.op = "r_routes"    -> Read(RouteBatch(e.qs, e.ok, e.res))
    [] e.op = "r_list"      -> Read(List(e.names))
    [] e.op = "r_get"       -> Read(Get(e.name, e.ok, e.utts))
    [] e.op = "r_stats"     -> Read(Stats(e.n))
    [] e.op = "f_add"       -> FAdd(e.name, e.fn, e.req, e.def, e.ok)
    [] e.op = "f_route"     -> Read(FRoute(e.q, e))
    [] e.op = "f_extract"   -> Read(Extract(e.ps, e.txt, e.ok, e.args, e.missing))
    [] e.op = "sp_weights"  -> Read(Weights(e.enc, e.fits[1], e.txt, e.k, e.ws, e.voc, e.top))
Init == Init0 /\ l = 1
Next == l <= Len(Trace) /\ Sane(Ev) /\ Step(Ev) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceInv == TRUE
=============================================================================

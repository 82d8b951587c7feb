-------------------------- MODULE Trace_Hindsight --------------------------
EXTENDS Hindsight, TraceLib
vars == <<hvars, l>>
Read(p) == IF p THEN UNCHANGED hvars ELSE FALSE
Step(e) ==
  CASE e.op = "seg"        -> e.ok /\ Fresh
    [] e.op = "hs_reopen"  -> e.ok /\ Reopen
    [] e.op = "hs_bank"    -> CreateBank(e)
    [] e.op = "hs_delbank" -> DeleteBank(e)
    [] e.op = "hs_getbank" -> Read(GetBank(e))
    [] e.op = "hs_banks"   -> Read(ListBanks(e))
    [] e.op = "hs_raw"     -> RawPut(e)
    [] e.op = "hs_rawget"  -> Read(RawGet(e))
    [] e.op = "hs_retain"  -> Retain(e)
    [] e.op = "hs_retains" -> Retains(e)
    [] e.op = "hs_recall"  -> Read(Recall(e))
    [] e.op = "hs_reflect" -> Read(Reflect(e))
    [] e.op = "hs_observe" -> Observe(e)
    [] e.op = "hs_addobs"  -> AddObs(e)
    [] e.op = "hs_getobs"  -> Read(Observations(e))
    [] e.op = "hs_text"    -> FromText(e)
    [] e.op = "hs_ext"     -> SetExt(e)
    [] e.op = "hs_rer"     -> SetRer(e)
    [] e.op = "hs_auto"    -> SetAuto(e)
    [] e.op = "hs_session" -> CreateSession(e)
    [] e.op = "hs_msgs"    -> Messages(e)
    [] e.op = "hs_par"     -> Parallel(e)
    [] e.op = "hs_hist"    -> Read(History(e))
Init == Init0 /\ l = 1
Next == l <= Len(Trace) /\ Sane(Ev) /\ Step(Ev) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceInv == due < auto.every \/ ~auto.on
=============================================================================

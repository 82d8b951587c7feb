----------------------------- MODULE Trace_Chat -----------------------------
EXTENDS Chat, TraceLib
vars == <<cvars, l>>
Read(p) == IF p THEN UNCHANGED cvars ELSE FALSE
Step1(e) ==
  CASE e.op = "seg"         -> e.ok /\ Fresh(e.cfg)
    [] e.op = "busy"        -> UNCHANGED cvars
    [] e.op = "close"       -> e.ok /\ Close
    [] e.op = "reopen"      -> e.ok /\ Reopen(e.cfg)
    [] e.op = "new_session" -> CreateSession(e.s, e.ok)
    [] e.op = "get_session" -> Read(GetSession(e.id, e.ok, e.user, e.meta))
    [] e.op = "say"         -> AddMessage(e.m, e.ok)
    [] e.op = "history"     -> Read(History(e.sid, e.n, e.ok, e.res))
    [] e.op = "chat_search" -> Read(SearchSession(e.q, e.sid, e.k, e.ok, e.res))
    [] e.op = "user_search" -> Read(SearchUser(e.q, e.user, e.excl, e.k, e.ok, e.res))
    [] e.op = "chat_kw"     -> Read(Keyword(e.mode, e.terms, e.user, e.excl, e.k, e.ok, e.res))
(* a killed process: the operation in flight ("maybe") took effect completely *)
(* or not at all, and "crash" ends the process without closing anything       *)
Step(e) == CASE e.op = "maybe" -> UNCHANGED cvars \/ \E b \in BOOLEAN : Step1([e.e EXCEPT !.ok = b])
             [] e.op = "crash" -> Close
             [] OTHER -> Step1(e)
Init == Init0 /\ l = 1
Next == l <= Len(Trace) /\ Sane(Ev) /\ Step(Ev) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceInv == NoOrphans /\ UniqueIds
=============================================================================

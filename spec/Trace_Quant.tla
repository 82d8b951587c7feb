------------------------------ MODULE Trace_Quant ------------------------------
EXTENDS Quant, TraceLib
vars == <<qvars, l>>
Step(e) ==
  CASE e.op = "seg"       -> e.ok /\ Fresh
    [] e.op = "q_new"     -> New(e.kind, e.dim, e.a, e.b, e.ok)
    [] e.op = "q_train"   -> Train(e.vs, e.ok, e.book)
    [] e.op = "q_book"    -> SetBook(e.book, e.ok, e.seen)
    [] e.op = "q_enc"     -> Encode(e.v, e.ok, e.codes, e.back)
    [] e.op = "q_dec"     -> Decode(e.codes, e.ok, e.back)
    [] e.op = "q_dist"    -> Distance(e.codes, e.codes2, e.v, e.ok, e.d)
    [] e.op = "q_search"  -> Search(e.codes, e.v, e.db, e.k, e.n, e.res)
    [] e.op = "q_save"    -> Save(e.ok, e.n)
    [] e.op = "q_load"    -> Load(e.how, e.ok, e.book)
    [] e.op = "q_ratio"   -> Ratio(e.n)
    [] e.op = "q_project" -> Project(e.in, e.out, e.v, e.vs, e.ok, e.n, e.same, e.opp)
Init == Init0 /\ l = 1
Next == l <= Len(Trace) /\ Sane(Ev) /\ Step(Ev) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceInv == q.trained => Legal(q.kind, q.dim, q.a, q.b)
=============================================================================

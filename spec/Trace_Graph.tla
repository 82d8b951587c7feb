----------------------------- MODULE Trace_Graph -----------------------------
EXTENDS Graph, TraceLib
vars == <<gvars, l>>
Read(p) == IF p THEN UNCHANGED gvars ELSE FALSE
Step1(e) ==
  CASE e.op = "seg"        -> e.ok /\ Fresh(e.cfg)
    [] e.op = "busy"        -> UNCHANGED gvars
    [] e.op = "close"      -> e.ok /\ Close
    [] e.op = "reopen"     -> e.ok /\ Reopen(e.cfg)
    [] e.op = "g_enable"   -> Enable(e.ok)
    [] e.op = "g_fault"    -> SetFault(<<e.kind, e.id>>)
    [] e.op = "faults_off" -> ClearFaults
    [] e.op = "put"        -> Put(e.n, e.ok)
    [] e.op = "link"       -> Link(e.e, e.ok)
    [] e.op = "drop"       -> Drop(e.id, e.ok)
    [] e.op = "unlink"     -> Unlink(e.id, e.ok)
    [] e.op = "put_many"   -> PutMany(e.ns, e.ok, e.good, e.bad)
    [] e.op = "link_many"  -> LinkMany(e.es, e.ok, e.good, e.bad)
    [] e.op = "drop_many"  -> DropMany(e.ids, e.ok, e.good, e.bad)
    [] e.op = "unlink_many" -> UnlinkMany(e.ids, e.ok, e.good, e.bad)
    [] e.op = "g_batch"    -> Batch(e.ns, e.nd, e.es, e.ed, e.ok, e.good, e.bad)
    [] e.op = "g_import"   -> Import(e.ns, e.es, e.broken, e.ok)
    [] e.op = "g_get"      -> Read(Get(e.id, e.ok, e.n))
    [] e.op = "g_edges"    -> Read(GetEdges(e.id, e.dir, e.ok, e.es))
    [] e.op = "g_nodes"    -> Read(GetNodes(e.ids, e.ok, e.ns))
    [] e.op = "g_edgeids"  -> Read(GetEdgesById(e.ids, e.ok, e.es))
    [] e.op = "g_all"      -> Read(AllNodes(e.types, e.ok, e.ns))
    [] e.op = "g_whole"    -> Read(Whole(e.ns, e.es))
    [] e.op = "g_export"   -> Read(Export(e.ok, e.ns, e.es, e.fmt, e.seen))
    [] e.op = "neighbors"  -> Read(Neighbors(e.id, e.depth, e.dir, e.ets, e.nts, e.lim, e.ok, e.ns))
    [] e.op = "path"       -> Read(Path(e.a, e.b, e.ok, e.ns, e.es, e.d, e.w))
    [] e.op = "connected"  -> Read(Connected(e.a, e.b, e.depth, e.ok, e.r))
    [] e.op = "subgraph"   -> Read(Subgraph(e.ids, e.ok, e.ns, e.es))
    [] e.op = "similar"    -> Read(SimilarTo(e.id, e.k, e.thr, e.ok, e.res))
    [] e.op = "g_index"    -> Read(IndexSearch(e.q, e.k, e.thr, e.ok, e.res))
    [] e.op = "g_near"     -> Read(VecNear(e.id, e.q, e.depth, e.dir, e.ets, e.nts, e.lim, e.ok, e.res))
    [] e.op = "g_hybrid"   -> Read(Hybrid(e.q, e.start, e.depth, e.ets, e.nts, e.thr, e.ws, e.k, e.ok, e.res))
    [] e.op = "g_ihybrid"  -> Read(IndexHybrid(e.q, e.k, e.centers, e.nts, e.vthr, e.tthr, e.vw, e.gw, e.ok, e.res))
    [] e.op = "g_stats"    -> Read(Statistics(e.ok, e.n, e.e, e.deg, e.dens, e.comps))
    [] e.op = "pagerank"   -> Read(PageRank(e.damp, e.ok, e.res))
    [] e.op = "communities" -> Read(Communities(e.ok, e.cs))
    [] e.op = "predict"    -> Read(Predict(e.id, e.k, e.ok, e.res))
(* a killed process: the operation in flight ("maybe") took effect completely *)
(* or not at all, and "crash" ends the process without closing anything       *)
Step(e) == CASE e.op = "maybe" -> UNCHANGED gvars \/ \E b \in BOOLEAN, g, d \in 0..9 : Step1([e.e EXCEPT !.ok = b, !.good = g, !.bad = d])
             [] e.op = "crash" -> Close
             [] OTHER -> Step1(e)
Init == Init0 /\ l = 1
Next == l <= Len(Trace) /\ Sane(Ev) /\ Step(Ev) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceInv == NoDangling
=============================================================================

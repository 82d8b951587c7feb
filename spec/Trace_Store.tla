----------------------------- MODULE Trace_Store -----------------------------
EXTENDS StoreOps, TraceLib
vars == <<svars, l>>
Read(p) == IF p THEN UNCHANGED svars ELSE FALSE
Step1(e) ==
  CASE e.op = "seg"             -> e.ok /\ Fresh(e.cfg)
    [] e.op = "busy"        -> UNCHANGED svars
    [] e.op = "close"           -> e.ok /\ Close
    [] e.op = "reopen"          -> e.ok /\ Reopen(e.cfg)
    [] e.op = "upsert"          -> Upsert(e.row, e.ok)
    [] e.op = "upsert_batch"    -> UpsertBatch(e.rows, e.ok)
    [] e.op = "delete"          -> Delete(e.id, e.ok)
    [] e.op = "delete_batch"    -> DeleteBatch(e.ids, e.ok)
    [] e.op = "delete_by_doc"   -> DeleteByDoc(e.doc, e.ok)
    [] e.op = "clear"           -> Clear(e.ok)
    [] e.op = "clear_docs"      -> ClearDocs(e.docs, e.ok)
    [] e.op = "create_col"      -> CreateCol(e.name, e.d, e.ok)
    [] e.op = "delete_col"      -> DeleteCol(e.name, e.ok)
    [] e.op = "create_doc"      -> CreateDoc(e.doc, e.ok)
    [] e.op = "update_doc"      -> UpdateDoc(e.doc, e.ok)
    [] e.op = "delete_document" -> DeleteDoc(e.id, e.ok)
    [] e.op = "fault"           -> SetFault(<<e.kind, e.id>>)
    [] e.op = "faults_off"      -> ClearFaults
    [] e.op = "get"             -> Read(Get(e.id, e.ok, e.row))
    [] e.op = "get_by_doc"      -> Read(GetByDoc(e.doc, e.ok, e.rows))
    [] e.op = "by_type"         -> Read(ByType(e.type, e.ok, e.rows))
    [] e.op = "list_docs"       -> Read(ListDocs(e.ok, e.docs))
    [] e.op = "list_docs_info"  -> Read(ListDocsInfo(e.ok, e.docs))
    [] e.op = "stats"           -> Read(Stats(e.ok, e.n, e.d))
    [] e.op = "get_col"         -> Read(GetCol(e.name, e.ok, e.rname, e.d))
    [] e.op = "list_cols"       -> Read(ListCols(e.ok, e.cols))
    [] e.op = "col_stats"       -> Read(ColStats(e.name, e.ok, e.n, e.d) /\ (e.ok => ColUse(e.name, e.size, e.last)))
    [] e.op = "get_document"    -> Read(GetDoc(e.id, e.ok, e.doc))
    [] e.op = "docs_by"         -> Read(DocsBy(e.author, e.lim, e.ok, e.docs))
    [] e.op = "snap"            -> Read(Snapshot(e.rows, e.docs))
    [] e.op = "search"          -> Read(Search(e.q, e.k, e.col, e.filt, e.thr, e.ok, e.res))
    [] e.op = "train_index"     -> Read(e.ok => open)
    [] e.op = "train_quant"     -> Read(e.ok => open)
    [] e.op = "swap_index"      -> Read((e.ok => open) /\ (open /\ cfg.index = "hnsw" /\ "quant" \notin DOMAIN cfg /\ rows # << >> => e.ok))
    [] e.op = "adv_search"      -> Read(AdvSearch(e.q, e.k, e.col, e.filt, e.thr, e.pre, e.post, e.ok, e.res))
    [] e.op = "filter_search"   -> Read(FilterSearch(e.q, e.k, e.col, e.filt, e.thr, e.mf, e.ok, e.res))
    [] e.op = "delete_by_filter" -> DeleteByFilter(e.f, e.ok)
    [] e.op = "dump"            -> Read(Dump(e.f, e.fmt, e.bare, e.ok, e.n, e.rows))
    [] e.op = "restore"         -> Read(e.ok = open /\ (e.ok => Restored(e.f, e.rows) /\ e.n = Len(e.rows)))
    [] e.op = "load"            -> Load(e.rows, e.skip, e.bad, e.odd, e.ok, e.n, e.failed, e.skipped)
    [] e.op = "backup"          -> Read(e.ok = open /\ (e.ok => Snapshot(e.rows, e.docs) /\ SeqSet(e.cols) = DOMAIN cols /\ \A i \in 1..Len(e.kw) :
                                        LET w == e.kw[i][1] IN SeqSet(e.kw[i][2]) = {x \in DOMAIN rows : TextHas(rows[x], w)}))
    [] e.op = "acl_search"      -> Read(AclSearch(e.q, e.acl, e.k, e.col, e.filt, e.thr, e.ok, e.res))
    [] e.op = "range"           -> Read(RangeSearch(e.q, e.r, e.k, e.col, e.filt, e.ok, e.res))
    [] e.op = "brange"          -> Read(RangeBatch(e.qs, e.r, e.k, e.col, e.filt, e.ok, e.res))
    [] e.op = "hybrid"          -> Read(Hybrid(e.q, e.mode, e.terms, e.words, e.k, e.col, e.filt, e.thr, e.ok, e.res))
    [] e.op = "stream"          -> Read(Stream(e.q, e.k, e.col, e.filt, e.thr, e.batch, e.early, e.qthr, e.cancel, e.ok, e.res, e.ended))
    [] e.op = "stream_topk"     -> Read(StreamTopK(e.q, e.k, e.col, e.filt, e.thr, e.ok, e.res))
    [] e.op = "stream_merge"    -> Read(StreamMerged(e.qs, e.col, e.filt, e.thr, e.ok, e.res, e.ended))
    [] e.op = "incremental"     -> Incremental(e.rows, e.q, e.k, e.col, e.filt, e.thr, e.ok, e.res)
    [] e.op = "aggregate"       -> Read(Aggregate(e.type, e.field, e.group, e.filters, e.col, e.having, e.order, e.limit, e.ok, e.res))
    [] e.op = "facets"          -> Read(Facets(e.q, e.k, e.col, e.filt, e.thr, e.fs, e.want, e.lim, e.ok, e.res, e.frs))
    [] e.op = "rerank"          -> Read(Rerank(e.q, e.terms, e.kind, e.par, e.k, e.thr, e.ok, e.res))
    [] e.op = "diverse"         -> Read(Diverse(e.q, e.k, e.col, e.filt, e.thr, e.method, e.lam, e.mind, e.ok, e.res))
    [] e.op = "negatives"       -> Read(Negatives(e.pos, e.neg, e.w, e.k, e.col, e.filt, e.ok, e.res))
    [] e.op = "recommend"       -> Read(Recommend(e.pos, e.neg, e.k, e.col, e.filt, e.ok, e.res))
    [] e.op = "anomalies"       -> Read(Anomalies(e.k, e.col, e.filt, e.ok, e.res))
    [] e.op = "mv_put"          -> PutMulti(e.e, e.ok)
    [] e.op = "mv_del"          -> DelMulti(e.id, e.ok)
    [] e.op = "mv_get"          -> Read(GetMulti(e.id, e.ok, e.e))
    [] e.op = "mv_search"       -> Read(MultiSearch(e.qs, e.fields, e.weights, e.agg, e.k, e.col, e.filt, e.thr, e.ok, e.res))
(* a killed process: the operation in flight ("maybe") took effect completely *)
(* or not at all, and "crash" ends the process without closing anything       *)
Step(e) == CASE e.op = "maybe" -> UNCHANGED svars \/ \E b \in BOOLEAN : Step1([e.e EXCEPT !.ok = b])
             [] e.op = "crash" -> Close
             [] OTHER -> Step1(e)
Init == Init0 /\ l = 1
Next == l <= Len(Trace) /\ Sane(Ev) /\ Step(Ev) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceInv == Integrity
=============================================================================

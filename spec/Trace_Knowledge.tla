--------------------------- MODULE Trace_Knowledge ---------------------------
EXTENDS Knowledge, TraceLib
vars == <<kvars, l>>
Read(p) == IF p THEN UNCHANGED kvars ELSE FALSE
Step(e) ==
  CASE e.op = "seg"        -> e.ok /\ Fresh(e.cfg)
    [] e.op = "cx_reopen"  -> e.ok /\ Reopen(e.cfg)
    [] e.op = "cx_embfail" -> EmbFail(e.on)
    [] e.op = "cx_dump"    -> Read(Dump(e))
    [] e.op = "kn_save"    -> Save(e)
    [] e.op = "kn_update"  -> Update(e)
    [] e.op = "kn_del"     -> Delete(e)
    [] e.op = "kn_get"     -> Read(Get(e))
    [] e.op = "kn_search"  -> Read(Search(e))
    [] e.op = "gr_ingest"  -> Ingest(e)
    [] e.op = "gr_insert"  -> Insert(e)
    [] e.op = "gr_ents"    -> PutEnts(e)
    [] e.op = "gr_rels"    -> PutRels(e)
    [] e.op = "gr_search"  -> Read(Meaning(e))
    [] e.op = "gr_lexical" -> Read(Wording(e))
    [] e.op = "gr_text"    -> Read(ByText(e))
    [] e.op = "cx_words"   -> Read(Plainly(e))
    [] e.op = "gr_byent"   -> Read(ByEntities(e))
    [] e.op = "gr_expand"  -> Read(Expand(e))
    [] e.op = "gr_nodes"   -> Read(GetNodes(e))
    [] e.op = "gr_chunks"  -> Read(GetChunks(e))
    [] e.op = "gr_context" -> Read(Context(e))
    [] e.op = "cx_tool"    -> Read(e.refused)
    [] e.op = "cx_tools"   -> Read(e.ok /\ e.same /\ Distinct(e.names))
Init == Init0 /\ l = 1
Next == l <= Len(Trace) /\ Sane(Ev) /\ Step(Ev) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
(* what is mentioned and stated exists *)
TraceInv == /\ \A p \in men : p[1] \in DOMAIN chunks /\ p[2] \in DOMAIN ents
            /\ \A k \in DOMAIN rels : {k.from, k.to} \subseteq DOMAIN ents
            /\ \A c \in DOMAIN chunks : chunks[c].doc \in DOMAIN docs
=============================================================================

------------------------------ MODULE MC_Store ------------------------------
(* A finite instance of the store: every operation of a small alphabet is     *)
(* tried in every reachable state.  `prog` is the operation sequence that     *)
(* reached the state first (it is not part of the state as TLC sees it); TLC  *)
(* writes it out per state and the check replays it, followed by every        *)
(* operation of the alphabet, against the real code.                          *)
EXTENDS StoreOps, Json
CONSTANTS MIds, MDocs, MCols, MEmit
MVecs == {<<1, 0>>, <<0, 2>>}
VARIABLES prog, okd
mvars == <<svars, prog, okd>>
Row(id, v, d, c) == [id |-> id, vec |-> v, txt |-> <<>>, doc |-> d, meta |-> <<>>, col |-> c, acl |-> <<>>]
MRows == {Row(id, v, d, c) : id \in MIds, v \in MVecs, d \in MDocs \cup {""}, c \in MCols \cup {""}}
MBatches == {<<Row(a, v, d, ""), Row(b, w, "", c)>> : a \in MIds, b \in MIds, v \in MVecs, w \in MVecs, d \in MDocs \cup {""}, c \in MCols \cup {""}}
Alphabet0 ==
    {[op |-> "upsert", row |-> r] : r \in MRows} \cup {[op |-> "upsert_batch", rows |-> b] : b \in MBatches}
    \cup {[op |-> "delete", id |-> i] : i \in MIds} \cup {[op |-> "delete_batch", ids |-> SetToSeq(s)] : s \in SUBSET MIds}
    \cup {[op |-> "delete_by_doc", doc |-> d] : d \in MDocs \cup {""}} \cup {[op |-> "clear"]}
    \cup {[op |-> "clear_docs", docs |-> <<d>>] : d \in MDocs}
    \cup {[op |-> "create_col", name |-> c, d |-> 2] : c \in MCols} \cup {[op |-> "delete_col", name |-> c] : c \in MCols \cup {"default"}}
    \cup {[op |-> "delete_document", id |-> d] : d \in MDocs}
    \cup {[op |-> "close"], [op |-> "reopen"]}
Alphabet1 == {[op |-> "create_doc", doc |-> [id |-> d, title |-> "T1", author |-> "ann", ver |-> 1, acl |-> <<>>, url |-> "", txt |-> <<>>, meta |-> <<>>]] : d \in MDocs}
Do(o, ok) ==
    CASE o.op = "upsert" -> Upsert(o.row, ok)
      [] o.op = "upsert_batch" -> UpsertBatch(o.rows, ok)
      [] o.op = "delete" -> Delete(o.id, ok)
      [] o.op = "delete_batch" -> DeleteBatch(o.ids, ok)
      [] o.op = "delete_by_doc" -> DeleteByDoc(o.doc, ok)
      [] o.op = "clear" -> Clear(ok)
      [] o.op = "clear_docs" -> ClearDocs(o.docs, ok)
      [] o.op = "create_col" -> CreateCol(o.name, o.d, ok)
      [] o.op = "delete_col" -> DeleteCol(o.name, ok)
      [] o.op = "create_doc" -> CreateDoc(o.doc, ok)
      [] o.op = "delete_document" -> DeleteDoc(o.id, ok)
      [] o.op = "close" -> ok /\ open /\ Close
      [] o.op = "reopen" -> ok /\ ~open /\ Reopen(cfg)
Init == Init0 /\ prog = <<>> /\ okd = TRUE
MCfg == [sim |-> "cosine", index |-> "flat", adapt |-> "strict", dim |-> 0, exact |-> TRUE]
Start == prog = <<>> /\ Fresh(MCfg) /\ prog' = <<[op |-> "seg"]>> /\ okd' = TRUE
Next == \/ Start
        \/ prog # <<>> /\ \E ok \in BOOLEAN : \/ \E o \in Alphabet0 : Do(o, ok) /\ prog' = Append(prog, o) /\ okd' = ok
                                              \/ \E o \in Alphabet1 : Do(o, ok) /\ prog' = Append(prog, o) /\ okd' = ok
Spec == Init /\ [][Next]_mvars
View == <<svars, prog = <<>>>>
ASSUME MEmit => PrintT("ALPHA " \o ToJson(SetToSeq(Alphabet0))) /\ PrintT("ALPHA " \o ToJson(SetToSeq(Alphabet1)))
(* what the properties say, on the model *)
Emit == MEmit => (prog = <<>> \/ PrintT("PROG " \o ToJson(prog)))
RefusedIsNoOp == [][~okd' => UNCHANGED svars]_mvars
Deterministic == \A o \in Alphabet0 : open => Cardinality({ok \in BOOLEAN : ENABLED Do(o, ok)}) <= 1
Total == \A o \in Alphabet0 : (prog # <<>> /\ o.op \notin {"close", "reopen"}) => \E ok \in BOOLEAN : ENABLED Do(o, ok)
OneHome == \A i \in DOMAIN rows : rows[i].col \in DOMAIN cols
=============================================================================

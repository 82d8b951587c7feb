------------------------------ MODULE MC_Index ------------------------------
(* A finite instance of each kind of index; see MC_Store for the scheme.      *)
EXTENDS Index, Json
CONSTANTS MIds, MKind, MEmit
VARIABLES prog, okd
mvars == <<ivars, prog, okd>>
Cfg0 == [kind |-> MKind, dim |-> 2, sim |-> "euclid", nc |-> 1, nprobe |-> 1, m |-> 4, unit |-> FALSE, how |-> "merge_all", primary |-> "hnsw", funcs |-> 1]
Vecs == {<<1, 0>>, <<0, 2>>}
Alphabet0 == {[op |-> "i_insert", id |-> x, vec |-> v] : x \in MIds, v \in Vecs}
             \cup {[op |-> "i_delete", id |-> x] : x \in MIds}
             \cup (IF MKind = "hnsw" THEN {[op |-> "i_upsert", id |-> x, vec |-> v] : x \in MIds, v \in Vecs} ELSE {})
             \cup (IF MKind \in {"hnsw", "flat"} THEN {[op |-> "i_batch", workers |-> 0, rows |-> <<[id |-> x, vec |-> v], [id |-> y, vec |-> w]>>] : x, y \in MIds, v, w \in Vecs} ELSE {})
             \cup (IF MKind \in {"flat", "lsh", "ivf"} THEN {[op |-> "i_clear"]} ELSE {})
             \cup (IF MKind \in {"ivf", "hybrid", "multi"} THEN {[op |-> "i_train", vecs |-> <<<<1, 1>>>>]} ELSE {})
             \cup (IF MKind \in {"ivf", "hnsw"} THEN {[op |-> "i_save"], [op |-> "i_load", how |-> "full"], [op |-> "i_load", how |-> "cut"]} ELSE {})
Do(o, ok) ==
    CASE o.op = "i_insert" -> (MKind = "multi" => trained) /\ Insert(o.id, o.vec, ok)
      [] o.op = "i_upsert" -> Upsert(o.id, o.vec, ok)
      [] o.op = "i_delete" -> Delete(o.id, ok)
      [] o.op = "i_batch"  -> Batch(o.rows, ok)
      [] o.op = "i_clear"  -> ok /\ Clear
      [] o.op = "i_train"  -> Train(o.vecs, ok)
      [] o.op = "i_save"   -> ok /\ Save
      [] o.op = "i_load"   -> Load(o.how, ok, 0)
Init == Init0 /\ prog = <<>> /\ okd = TRUE
Begin == prog = <<>> /\ Fresh(Cfg0) /\ prog' = <<[op |-> "seg"]>> /\ okd' = TRUE
Next == \/ Begin
        \/ prog # <<>> /\ \E ok \in BOOLEAN : \E o \in Alphabet0 : Do(o, ok) /\ prog' = Append(prog, o) /\ okd' = ok
Spec == Init /\ [][Next]_mvars
View == <<ivars, prog = <<>>>>
ASSUME MEmit => PrintT("ALPHA " \o ToJson(SetToSeq(Alphabet0)))
Emit == MEmit => (prog = <<>> \/ PrintT("PROG " \o ToJson(prog)))
RefusedIsNoOp == [][~okd' => UNCHANGED <<ic, vs, ever, trained>>]_mvars
=============================================================================

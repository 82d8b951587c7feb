------------------------------ MODULE MC_Graph ------------------------------
(* A finite instance of the graph; see MC_Store for the scheme.               *)
EXTENDS Graph, Json
CONSTANTS MNodes, MEdges, MEmit
VARIABLES prog, okd
mvars == <<gvars, prog, okd>>
MNode(id, v) == [id |-> id, vec |-> v, txt |-> <<>>, type |-> "t", props |-> <<>>]
MEdge(id, a, b) == [id |-> id, from |-> a, to |-> b, type |-> "t", w |-> 1000, props |-> <<>>, vec |-> <<>>]
AllN == {MNode(id, v) : id \in MNodes, v \in {<<1, 0>>, <<0, 2>>}}
AllE == {MEdge(id, a, b) : id \in MEdges, a \in MNodes, b \in MNodes}
One == CHOOSE x \in MNodes : TRUE
Alphabet0 == {[op |-> "put", n |-> n] : n \in AllN} \cup {[op |-> "drop", id |-> x] : x \in MNodes} \cup {[op |-> "unlink", id |-> x] : x \in MEdges}
             \cup {[op |-> "link", e |-> e] : e \in AllE} \cup {[op |-> "close"], [op |-> "reopen"]}
             \cup {[op |-> "drop_many", ids |-> <<x, y>>] : x, y \in MNodes} \cup {[op |-> "unlink_many", ids |-> <<x, y>>] : x, y \in MEdges}
             \cup {[op |-> "put_many", ns |-> <<n, MNode("", <<1, 0>>), m>>] : n, m \in AllN}
             \cup {[op |-> "link_many", es |-> <<e, MEdge(e.id, e.to, e.from)>>] : e \in AllE}
             \cup {[op |-> "g_batch", ns |-> <<MNode(x, <<1, 0>>)>>, nd |-> <<y>>, es |-> <<e>>, ed |-> <<>>] : x, y \in MNodes, e \in AllE}
Do(o, ok, g, b) ==
    CASE o.op = "put" -> Put(o.n, ok)
      [] o.op = "link" -> Link(o.e, ok)
      [] o.op = "drop" -> Drop(o.id, ok)
      [] o.op = "unlink" -> Unlink(o.id, ok)
      [] o.op = "put_many" -> PutMany(o.ns, ok, g, b)
      [] o.op = "link_many" -> LinkMany(o.es, ok, g, b)
      [] o.op = "drop_many" -> DropMany(o.ids, ok, g, b)
      [] o.op = "unlink_many" -> UnlinkMany(o.ids, ok, g, b)
      [] o.op = "g_batch" -> Batch(o.ns, o.nd, o.es, o.ed, ok, g, b)
      [] o.op = "close" -> ok /\ gopen /\ Close
      [] o.op = "reopen" -> ok /\ ~gopen /\ Reopen([sim |-> gsim])
Counts(o) == IF o.op \in {"put_many", "link_many", "drop_many", "unlink_many", "g_batch"} THEN 0..3 ELSE {0}
Init == Init0 /\ prog = <<>> /\ okd = TRUE
Begin == prog = <<>> /\ Fresh([sim |-> "cosine"]) /\ prog' = <<[op |-> "seg"]>> /\ okd' = TRUE
Next == \/ Begin
        \/ prog # <<>> /\ \E ok \in BOOLEAN : \E o \in Alphabet0 : \E g, b \in Counts(o) : Do(o, ok, g, b) /\ prog' = Append(prog, o) /\ okd' = ok
Spec == Init /\ [][Next]_mvars
View == <<gvars, prog = <<>>>>
ASSUME MEmit => PrintT("ALPHA " \o ToJson(SetToSeq(Alphabet0)))
Emit == MEmit => (prog = <<>> \/ PrintT("PROG " \o ToJson(prog)))
RefusedIsNoOp == [][~okd' => UNCHANGED gvars]_mvars
(* reachability is symmetric when directions are ignored; distances agree with paths *)
Symmetric == \A a, b \in DOMAIN nodes : (DistIn(From(a, 9, "both", <<>>), b) = DistIn(From(b, 9, "both", <<>>), a))
Reversed == \A a, b \in DOMAIN nodes : DistIn(From(a, 9, "out", <<>>), b) = DistIn(From(b, 9, "in", <<>>), a)
CompsPartition == UNION Comps(DOMAIN nodes) = DOMAIN nodes /\ \A c, d \in Comps(DOMAIN nodes) : c = d \/ c \cap d = {}
=============================================================================

------------------------------- MODULE Index -------------------------------
(* The stand-alone index structures: brute force, graph (HNSW), cluster       *)
(* (IVF), hash (LSH), hybrid and multi.  Whatever its structure, an index is  *)
(* a set of identified vectors; an approximate one may leave matches out of a *)
(* search (Sound) unless it holds few enough to look at all of them (Exact).  *)
EXTENDS VecMath
VARIABLES ic,      \* configuration of the index
          vs,      \* id -> vector
          ever,    \* ids that still occupy a place in a graph index, deleted or not
          trained, \* cluster indexes accept vectors only once trained
          snap     \* what the last Save wrote: <<>> or <<[vs, ever, trained]>>
ivars == <<ic, vs, ever, trained, snap>>
None == [kind |-> "none"]
Init0 == ic = None /\ vs = EmptyFn /\ ever = {} /\ trained = FALSE /\ snap = <<>>
Fresh(c) == ic' = c /\ vs' = EmptyFn /\ ever' = {} /\ trained' = FALSE /\ snap' = <<>>

Fits(v) == Len(v) = ic.dim
NeedsTraining == ic.kind \in {"ivf", "hybrid", "multi"}
Ready == NeedsTraining => trained
KeepsFirst == ic.kind \in {"hnsw", "hybrid"}          \* Insert refuses an id that is present
Put(id, v) == vs' = With(vs, id, v) /\ ever' = ever \cup {id} /\ UNCHANGED <<ic, trained, snap>>
Insert(id, v, ok) ==
    /\ ok = (Fits(v) /\ Ready /\ (KeepsFirst => id \notin DOMAIN vs))
    /\ IF ok THEN Put(id, v) ELSE UNCHANGED ivars
Upsert(id, v, ok) == ok /\ Put(id, v)
RECURSIVE Fold(_, _, _)
Fold(m, rows, first) == IF rows = <<>> THEN m
                        ELSE Fold(IF first /\ Head(rows).id \in DOMAIN m THEN m ELSE With(m, Head(rows).id, Head(rows).vec), Tail(rows), first)
Batch(rows, ok) ==
    /\ ok = (\A i \in 1..Len(rows) : Fits(rows[i].vec))
    /\ IF ok THEN vs' = Fold(vs, rows, KeepsFirst) /\ ever' = ever \cup {rows[i].id : i \in 1..Len(rows)} /\ UNCHANGED <<ic, trained, snap>>
             ELSE UNCHANGED ivars
(* a hybrid index acknowledges deleting what it does not hold *)
Delete(id, ok) ==
    /\ ok = (id \in DOMAIN vs \/ ic.kind = "hybrid")
    /\ vs' = Without(vs, {id}) /\ UNCHANGED <<ic, ever, trained, snap>>
Clear == vs' = EmptyFn /\ ever' = {} /\ UNCHANGED <<ic, trained, snap>>
Train(t, ok) ==
    /\ ok = (Len(t) >= ic.nc /\ ic.nc > 0 /\ \A i \in 1..Len(t) : Fits(t[i]))
    /\ trained' = (trained \/ ok) /\ UNCHANGED <<ic, vs, ever, snap>>
Save == snap' = <<[vs |-> vs, ever |-> ever, trained |-> trained]>> /\ UNCHANGED <<ic, vs, ever, trained>>
(* how: "full" reads the whole snapshot, "cut" a proper prefix of it *)
Load(how, ok, left) ==
    /\ snap # <<>>
    /\ ok = (how = "full")
    /\ IF ok THEN vs' = snap[1].vs /\ ever' = snap[1].ever /\ trained' = snap[1].trained /\ UNCHANGED <<ic, snap>>
             ELSE left = 0 /\ UNCHANGED ivars       \* a refused snapshot leaves a fresh index empty

(* ---- reads ---- *)
Better(q, x, y) == SimGT(ic.sim, q, vs[x], vs[y])
Small(m) == Cardinality(ever) <= 2 * m + 1
HnswExact(ef) == Small(ic.m) /\ Cardinality(ever) <= ef
IvfExact == ic.nprobe >= ic.nc
Exact(k, ef) ==
    CASE ic.kind = "flat"   -> TRUE
      [] ic.kind = "hnsw"   -> HnswExact(ef)
      [] ic.kind = "ivf"    -> IvfExact
      [] ic.kind = "lsh"    -> ic.funcs = 1 /\ ef >= 1   \* one bit per table, and the other bucket is probed as well
      [] ic.kind = "hybrid" -> HnswExact(50)
      [] ic.kind = "multi"  -> IF ic.how = "voting" THEN HnswExact(50) /\ IvfExact
                               ELSE IF ic.how = "merge_all" THEN HnswExact(50) \/ IvfExact
                               ELSE (ic.primary = "hnsw" /\ HnswExact(50)) \/ (ic.primary = "ivf" /\ IvfExact)
Ids(res) == [i \in 1..Len(res) |-> res[i].id]
Scored(q, res) == (ic.kind = "multi" /\ ic.how = "voting") \/ \A i \in 1..Len(res) : ScoreIs(ic.sim, res[i].s, q, vs[res[i].id])
InOrder(q, ids) == \A i \in 1..Len(ids) - 1 : ~Better(q, ids[i + 1], ids[i])
Sound(q, k, res) ==
    LET ids == Ids(res) IN Len(ids) <= MaxOf(k, 0) /\ Distinct(ids) /\ SeqSet(ids) \subseteq DOMAIN vs
                           /\ Scored(q, res) /\ ((ic.kind = "multi" /\ ic.how = "voting") \/ InOrder(q, ids))
(* whatever equals the query shares every bucket with it *)
Twins(q, k, res) == LET t == {x \in DOMAIN vs : vs[x] = q} IN
    (ic.sim = "euclid" \/ k >= Cardinality(DOMAIN vs)) => Cardinality(SeqSet(Ids(res)) \cap t) >= MinOf(MaxOf(k, 0), Cardinality(t))
Search(q, k, ef, ok, res) ==
    IF ~Fits(q) \/ (~Ready /\ ic.kind # "hybrid") THEN res = <<>>
    ELSE ok /\ Sound(q, k, res)
         /\ (ic.kind = "lsh" => Twins(q, k, res))
         /\ (Exact(k, ef) => TopK(Ids(res), MaxOf(k, 0), DOMAIN vs, LAMBDA x, y : Better(q, x, y)))
Near(q, t, res) ==
    IF ~Fits(q) THEN res = <<>>
    ELSE LET ids == Ids(res) IN Distinct(ids) /\ SeqSet(ids) = {x \in DOMAIN vs : SimAtLeast(ic.sim, t, q, vs[x])} /\ Scored(q, res) /\ InOrder(q, ids)
Get(id, ok, v) == ok = (id \in DOMAIN vs) /\ (ok => (ic.unit \/ v = vs[id]))
Size(n) == n = Cardinality(DOMAIN vs)
HeldIsPlaced == DOMAIN vs \subseteq ever
OneLength == \A x \in DOMAIN vs : Len(vs[x]) = ic.dim
=============================================================================

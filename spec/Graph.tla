-------------------------------- MODULE Graph --------------------------------
(* The property graph: nodes with vectors, directed weighted edges, and every *)
(* operation that reads or changes them.  Weights are in thousandths.         *)
EXTENDS VecMath
VARIABLES nodes,   \* id -> [vec, txt, type, props]
          edges,   \* id -> [from, to, type, w, props, vec]
          gsim, gidx, gopen, gfaults
gvars == <<nodes, edges, gsim, gidx, gopen, gfaults>>
Init0 == nodes = EmptyFn /\ edges = EmptyFn /\ gsim = "cosine" /\ gidx = FALSE /\ gopen = FALSE /\ gfaults = {}
Fresh(c) == nodes' = EmptyFn /\ edges' = EmptyFn /\ gsim' = c.sim /\ gidx' = FALSE /\ gopen' = TRUE /\ gfaults' = {}
Close == gopen' = FALSE /\ gidx' = FALSE /\ UNCHANGED <<nodes, edges, gsim, gfaults>>
Reopen(c) == ~gopen /\ gopen' = TRUE /\ gidx' = FALSE /\ gfaults' = {} /\ gsim' = c.sim /\ UNCHANGED <<nodes, edges>>
Enable(ok) == ok = gopen /\ gidx' = (gidx \/ ok) /\ UNCHANGED <<nodes, edges, gsim, gopen, gfaults>>
SetFault(f) == gfaults' = gfaults \cup {f} /\ UNCHANGED <<nodes, edges, gsim, gidx, gopen>>
ClearFaults == gfaults' = {} /\ UNCHANGED <<nodes, edges, gsim, gidx, gopen>>

(* ------------------------------ writing ---------------------------------- *)
NodeVal(n) == [vec |-> n.vec, txt |-> n.txt, type |-> n.type, props |-> n.props]
EdgeVal(e) == [from |-> e.from, to |-> e.to, type |-> e.type, w |-> IF e.w = 0 THEN 1000 ELSE e.w, props |-> e.props, vec |-> e.vec]
G(n, e) == [n |-> n, e |-> e]
Now == G(nodes, edges)
Incident(g, ids) == {x \in DOMAIN g.e : g.e[x].from \in ids \/ g.e[x].to \in ids}
NodeOK(g, n) == n.id # "" /\ n.vec # <<>> /\ <<"nins", n.id>> \notin gfaults
EdgeOK(g, e) == e.id # "" /\ e.from # "" /\ e.to # "" /\ {e.from, e.to} \subseteq DOMAIN g.n /\ <<"eins", e.id>> \notin gfaults
NDelOK(g, id) == id \in DOMAIN g.n /\ <<"ndel", id>> \notin gfaults /\ \A x \in Incident(g, {id}) : <<"edel", x>> \notin gfaults
EDelOK(g, id) == id \in DOMAIN g.e /\ <<"edel", id>> \notin gfaults
PutNode(g, n) == G(With(g.n, n.id, NodeVal(n)), g.e)
PutEdge(g, e) == G(g.n, With(g.e, e.id, EdgeVal(e)))
DelNode(g, id) == G(Without(g.n, {id}), Without(g.e, Incident(g, {id})))
DelEdge(g, id) == G(g.n, Without(g.e, {id}))
Become(g) == nodes' = g.n /\ edges' = g.e /\ UNCHANGED <<gsim, gidx, gopen, gfaults>>
Put(n, ok) == ok = (gopen /\ NodeOK(Now, n)) /\ Become(IF ok THEN PutNode(Now, n) ELSE Now)
Link(e, ok) == ok = (gopen /\ EdgeOK(Now, e)) /\ Become(IF ok THEN PutEdge(Now, e) ELSE Now)
Drop(id, ok) == ok = (gopen /\ NDelOK(Now, id)) /\ Become(IF ok THEN DelNode(Now, id) ELSE Now)
Unlink(id, ok) == ok = (gopen /\ EDelOK(Now, id)) /\ Become(IF ok THEN DelEdge(Now, id) ELSE Now)

(* bulk operations: the single ones in order, refusing the bad elements *)
Good(a, g) == [g |-> g, good |-> a.good + 1, bad |-> a.bad]
Bad(a) == [a EXCEPT !.bad = @ + 1]
RECURSIVE BPutFrom(_, _, _), BLinkFrom(_, _, _), BDropFrom(_, _, _), BUnlinkFrom(_, _, _)
BPutFrom(a, xs, i) == IF i > Len(xs) THEN a ELSE BPutFrom(IF NodeOK(a.g, xs[i]) THEN Good(a, PutNode(a.g, xs[i])) ELSE Bad(a), xs, i + 1)
BLinkFrom(a, xs, i) == IF i > Len(xs) THEN a ELSE BLinkFrom(IF EdgeOK(a.g, xs[i]) THEN Good(a, PutEdge(a.g, xs[i])) ELSE Bad(a), xs, i + 1)
BDropFrom(a, xs, i) == IF i > Len(xs) THEN a ELSE BDropFrom(IF xs[i] \in DOMAIN a.g.n THEN Good(a, DelNode(a.g, xs[i])) ELSE Bad(a), xs, i + 1)
BUnlinkFrom(a, xs, i) == IF i > Len(xs) THEN a ELSE BUnlinkFrom(IF xs[i] \in DOMAIN a.g.e THEN Good(a, DelEdge(a.g, xs[i])) ELSE Bad(a), xs, i + 1)
Start == [g |-> Now, good |-> 0, bad |-> 0]
(* storage that refuses to delete an element refuses a bulk deletion as a whole *)
Stuck(g, ids, t) == \E x \in SeqSet(ids) : IF t = "n" THEN x \in DOMAIN g.n /\ ~NDelOK(g, x) ELSE x \in DOMAIN g.e /\ ~EDelOK(g, x)
Bulk(a, stuck, ok, good, bad) ==
    /\ ok = (gopen /\ ~stuck)
    /\ IF ok THEN good = a.good /\ bad = a.bad /\ Become(a.g) ELSE Become(Now)
BPut(a, ns) == BPutFrom(a, ns, 1)
BLink(a, es) == BLinkFrom(a, es, 1)
BDrop(a, ids) == BDropFrom(a, ids, 1)
BUnlink(a, ids) == BUnlinkFrom(a, ids, 1)
PutMany(ns, ok, good, bad) == IF ns = <<>> THEN ok /\ good = 0 /\ bad = 0 /\ Become(Now) ELSE Bulk(BPut(Start, ns), FALSE, ok, good, bad)
LinkMany(es, ok, good, bad) == IF es = <<>> THEN ok /\ good = 0 /\ bad = 0 /\ Become(Now) ELSE Bulk(BLink(Start, es), FALSE, ok, good, bad)
DropMany(ids, ok, good, bad) == IF ids = <<>> THEN ok /\ good = 0 /\ bad = 0 /\ Become(Now) ELSE Bulk(BDrop(Start, ids), Stuck(Now, ids, "n"), ok, good, bad)
UnlinkMany(ids, ok, good, bad) == IF ids = <<>> THEN ok /\ good = 0 /\ bad = 0 /\ Become(Now) ELSE Bulk(BUnlink(Start, ids), Stuck(Now, ids, "e"), ok, good, bad)
Batch(ns, nd, es, ed, ok, good, bad) ==
    LET a1 == BPut(Start, ns) a2 == BDrop(a1, nd) a3 == BLink(a2, es) a4 == BUnlink(a3, ed)
    IN  Bulk(a4, Stuck(a1.g, nd, "n") \/ Stuck(a3.g, ed, "e"), ok, good, bad)
(* an import is a bulk write of nodes, then edges; malformed text changes nothing *)
Import(ns, es, broken, ok) ==
    LET n == BPut(Start, ns) a == BLink(n, es)
    IN  /\ ok = (gopen /\ ~broken /\ a.bad = 0)
        /\ \/ Become(IF gopen /\ ~broken THEN a.g ELSE Now)
           \/ gopen /\ ~broken /\ n.bad > 0 /\ n.g # a.g /\ Become(n.g)   \* it may stop after nodes it could not write

(* ------------------------------ reading ---------------------------------- *)
NodeIs(r) == r.id \in DOMAIN nodes /\ nodes[r.id] = [vec |-> r.vec, txt |-> r.txt, type |-> r.type, props |-> r.props]
EdgeIs(r) == r.id \in DOMAIN edges /\ edges[r.id] = [from |-> r.from, to |-> r.to, type |-> r.type, w |-> r.w, props |-> r.props, vec |-> r.vec]
Ids(rs) == [i \in 1..Len(rs) |-> rs[i].id]
TheNodes(rs, want) == Distinct(Ids(rs)) /\ SeqSet(Ids(rs)) = want /\ \A i \in 1..Len(rs) : NodeIs(rs[i])
TheEdges(rs, want) == Distinct(Ids(rs)) /\ SeqSet(Ids(rs)) = want /\ \A i \in 1..Len(rs) : EdgeIs(rs[i])
Get(id, ok, r) == ok = (gopen /\ id \in DOMAIN nodes) /\ (ok => r.id = id /\ NodeIs(r))
EdgesOf(id, dir) == {x \in DOMAIN edges : (dir \in {"out", "both", ""} /\ edges[x].from = id) \/ (dir \in {"in", "both", ""} /\ edges[x].to = id)}
Dirs == {"in", "out", "both", ""}
GetEdges(id, dir, ok, rs) == ok = (gopen /\ dir \in Dirs) /\ (ok => TheEdges(rs, EdgesOf(id, dir)))
GetNodes(ids, ok, rs) == ok = (gopen \/ ids = <<>>) /\ (ok => TheNodes(rs, SeqSet(ids) \cap DOMAIN nodes))
GetEdgesById(ids, ok, rs) == ok = (gopen \/ ids = <<>>) /\ (ok => TheEdges(rs, SeqSet(ids) \cap DOMAIN edges))
OfTypes(ts) == {x \in DOMAIN nodes : ts = <<>> \/ nodes[x].type \in SeqSet(ts)}
AllNodes(ts, ok, rs) == ok = gopen /\ (ok => TheNodes(rs, OfTypes(ts)))
Whole(ns, es) == TheNodes(ns, DOMAIN nodes) /\ TheEdges(es, DOMAIN edges)
Export(ok, ns, es, fmt, seen) == ok = gopen /\ (ok => Whole(ns, es) /\ seen = fmt)

(* ----------------------------- traversal --------------------------------- *)
EdgeTypeOK(x, ts) == ts = <<>> \/ edges[x].type \in SeqSet(ts)
Next1(S, dir, ets) ==
    {edges[x].to : x \in {y \in DOMAIN edges : dir \in {"out", "both", ""} /\ EdgeTypeOK(y, ets) /\ edges[y].from \in S}}
    \cup {edges[x].from : x \in {y \in DOMAIN edges : dir \in {"in", "both", ""} /\ EdgeTypeOK(y, ets) /\ edges[y].to \in S}}
RECURSIVE Layers(_, _, _, _, _)
Layers(ls, seen, k, dir, ets) == \* the nodes at distance 0, 1, ..., k
    IF k = 0 THEN ls
    ELSE LET nx == Next1(ls[Len(ls)], dir, ets) \ seen
         IN  IF nx = {} THEN ls ELSE Layers(Append(ls, nx), seen \cup nx, k - 1, dir, ets)
From(id, k, dir, ets) == Layers(<<{id}>>, {id}, k, dir, ets)
DistIn(ls, x) == IF \E i \in 1..Len(ls) : x \in ls[i] THEN (CHOOSE i \in 1..Len(ls) : x \in ls[i]) - 1 ELSE -1
Near(id, depth, dir, ets) == LET ls == From(id, IF depth <= 0 THEN 1 ELSE depth, dir, ets) IN [ls |-> ls, all |-> (UNION SeqSet(ls)) \ {id}]
Neighbors(id, depth, dir, ets, nts, lim, ok, rs) ==
    LET r == Near(id, depth, dir, ets)
        hit == r.all \cap OfTypes(nts)
        ds == [i \in 1..Len(rs) |-> DistIn(r.ls, rs[i].id)]
    IN  /\ ok = (gopen /\ dir \in Dirs)
        /\ ok => /\ Distinct(Ids(rs)) /\ SeqSet(Ids(rs)) \subseteq hit /\ \A i \in 1..Len(rs) : NodeIs(rs[i])
                 /\ Len(rs) = IF lim > 0 THEN MinOf(lim, Cardinality(hit)) ELSE Cardinality(hit)
                 /\ \A i \in 1..Len(rs) - 1 : ds[i] <= ds[i + 1]
                 /\ \A x \in hit \ SeqSet(Ids(rs)) : \A i \in 1..Len(rs) : DistIn(r.ls, x) >= ds[i]
OutDist(a, b) == DistIn(From(a, Cardinality(DOMAIN nodes), "out", <<>>), b)
HasPath(a, b) == {a, b} \subseteq DOMAIN nodes /\ OutDist(a, b) >= 0
RECURSIVE SumW(_, _)
SumW(es, i) == IF i = 0 THEN 0 ELSE es[i].w + SumW(es, i - 1)
Path(a, b, ok, ns, es, d, w) ==
    /\ ok = (gopen /\ HasPath(a, b))
    /\ ok => /\ d = OutDist(a, b) /\ Len(es) = d /\ Len(ns) = d + 1 /\ ns[1].id = a /\ ns[d + 1].id = b
             /\ \A i \in 1..d + 1 : NodeIs(ns[i])
             /\ \A i \in 1..d : EdgeIs(es[i]) /\ es[i].from = ns[i].id /\ es[i].to = ns[i + 1].id
             /\ w = SumW(es, d)
Connected(a, b, depth, ok, r) ==
    /\ ok = (gopen \/ a = b)
    /\ ok => r = (a = b \/ DistIn(From(a, IF depth <= 0 THEN 6 ELSE depth, "both", <<>>), b) >= 0)
Subgraph(ids, ok, ns, es) ==
    ok /\ IF gopen THEN /\ TheNodes(ns, SeqSet(ids) \cap DOMAIN nodes)
                        /\ TheEdges(es, {x \in DOMAIN edges : {edges[x].from, edges[x].to} \subseteq SeqSet(ids)})
          ELSE ns = <<>> /\ es = <<>>

(* ---------------------------- similarity --------------------------------- *)
RECURSIVE Bisect(_, _, _, _, _)
Bisect(lo, hi, s, q, a) == IF hi - lo <= 1 THEN lo
                           ELSE LET m == (lo + hi) \div 2 IN IF SimAtLeast(s, m, q, a) THEN Bisect(m, hi, s, q, a) ELSE Bisect(lo, m, s, q, a)
(* the similarity in thousandths, rounded down *)
SimMilli(s, q, a) == CASE s = "cosine" -> Bisect(-1001, 1001, s, q, a)
                       [] s = "dot"    -> 1000 * Dot(q, a)
                       [] s = "euclid" -> Bisect(-40000, 1, s, q, a)
Hits(rs) == [i \in 1..Len(rs) |-> rs[i].node.id]
Real(rs) == Distinct(Hits(rs)) /\ \A i \in 1..Len(rs) : NodeIs(rs[i].node)
ByVec(s, q, k, elig, rs) ==
    /\ Real(rs) /\ TopK(Hits(rs), k, elig, LAMBDA x, y : SimGT(s, q, nodes[x].vec, nodes[y].vec))
    /\ \A i \in 1..Len(rs) : ScoreIs(s, rs[i].v, q, nodes[rs[i].node.id].vec)
Many == 1000000
SimilarTo(id, k, thr, ok, rs) ==
    /\ ok = (gopen /\ id \in DOMAIN nodes)
    /\ ok => ByVec(gsim, nodes[id].vec, IF k > 0 THEN k ELSE Many,
                   {x \in DOMAIN nodes \ {id} : thr = 0 \/ SimAtLeast(gsim, thr, nodes[id].vec, nodes[x].vec)}, rs)
IndexSearch(q, k, thr, ok, rs) ==
    /\ ok = (gidx /\ gopen)
    /\ ok => ByVec("cosine", q, MaxOf(k, 0), {x \in DOMAIN nodes : SimAtLeast("cosine", thr, q, nodes[x].vec)}, rs)
VecNear(id, q, depth, dir, ets, nts, lim, ok, rs) ==
    LET self == {id} \cap OfTypes(nts)
        pool == (Near(id, depth, dir, ets).all \cap OfTypes(nts)) \cup self
        near == Cardinality(pool) - Cardinality(self)
        cand == Cardinality(self) + (IF lim > 0 THEN MinOf(lim, near) ELSE near)
    IN  /\ ok = (gopen /\ dir \in Dirs)
        /\ ok => IF lim <= 0 \/ near <= lim THEN ByVec(gsim, q, IF lim > 0 THEN lim ELSE Many, pool, rs)
                 ELSE ByVec(gsim, q, MinOf(lim, cand), SeqSet(Hits(rs)), rs) /\ SeqSet(Hits(rs)) \subseteq pool /\ Len(rs) = MinOf(lim, cand)
(* the products of weights along the shortest paths to x, thousandths *)
RECURSIVE Prods(_, _, _, _)
Prods(ls, d, x, ets) ==
    IF d = 0 THEN {1000}
    ELSE UNION {{(p * edges[y].w) \div 1000 : p \in Prods(ls, d - 1, edges[y].from, ets)} :
                y \in {z \in DOMAIN edges : edges[z].to = x /\ EdgeTypeOK(z, ets) /\ edges[z].from \in ls[d]}}
Share(w) == LET t == w[1] + w[2] + w[3] IN IF t = 0 THEN <<500, 300, 200>> ELSE <<(w[1] * 1000) \div t, (w[2] * 1000) \div t, (w[3] * 1000) \div t>>
(* what a hybrid query makes of a node: v, g and the possible combined scores *)
Hybrid(q, start, depth, ets, nts, thr, ws, k, ok, rs) ==
    LET ls == IF start = "" THEN <<{}>> ELSE From(start, IF depth > 0 THEN depth ELSE 3, "out", ets)
        near == (UNION SeqSet(ls)) \cap OfTypes(nts)
        byv == IF q = <<>> THEN {} ELSE {x \in OfTypes(nts) : thr = 0 \/ SimAtLeast(gsim, thr, q, nodes[x].vec)}
        W == Share(ws)
        V(x) == IF q = <<>> THEN 0 ELSE SimMilli(gsim, q, nodes[x].vec)
        D(x) == IF x \in near THEN DistIn(ls, x) ELSE -1
        Gr(x) == IF x \in near THEN 1000 \div (D(x) + 1) ELSE 0
        Ed(x) == IF x \in byv THEN {0} ELSE Prods(ls, D(x), x, ets)
        Comb(x) == {(W[1] * V(x) + W[2] * Gr(x) + W[3] * e) \div 1000 : e \in Ed(x)}
        pool == byv \cup near
        tol == 6
        h == Hits(rs)
    IN  /\ ok = gopen
        /\ ok => /\ Real(rs) /\ SeqSet(h) \subseteq pool
                 /\ Len(rs) = MinOf(IF k > 0 THEN k ELSE Many, Cardinality(pool))
                 /\ \A i \in 1..Len(rs) :
                      /\ IF q = <<>> THEN rs[i].v = 0 ELSE ScoreIs(gsim, rs[i].v, q, nodes[h[i]].vec)
                      /\ rs[i].d = D(h[i]) /\ VAbs(rs[i].g - Gr(h[i])) <= 1
                      /\ \E c \in Comb(h[i]) : VAbs(rs[i].c - c) <= tol
                 /\ \A i \in 1..Len(rs) - 1 : rs[i].c >= rs[i + 1].c
                 /\ \A x \in pool \ SeqSet(h) : \E c \in Comb(x) : c <= rs[Len(rs)].c + tol
CenterScore(x, cs) == LET ds == {OutDist(cs[i], x) : i \in {j \in 1..Len(cs) : cs[j] \in DOMAIN nodes}} \ {-1}
                      IN  IF ds = {} THEN 0 ELSE 1000 \div (1 + Min(ds))
(* the index based hybrid: its candidates are the 3k most similar nodes *)
IndexHybrid(q, k, cs, nts, vthr, tthr, vw, gw, ok, rs) ==
    LET h == Hits(rs)
        Tot(x) == (vw * SimMilli("cosine", q, nodes[x].vec) + gw * CenterScore(x, cs)) \div 1000
        pool == {x \in OfTypes(nts) : SimAtLeast("cosine", vthr, q, nodes[x].vec)}
        all == nts # <<>> \/ 3 * k >= Cardinality(DOMAIN nodes)
        tol == 6
        sure == {x \in pool : Tot(x) >= tthr + tol}
    IN  /\ ok = gopen
        /\ ok => /\ Real(rs) /\ SeqSet(h) \subseteq pool /\ Len(rs) <= MaxOf(k, 0)
                 /\ \A i \in 1..Len(rs) :
                      /\ ScoreIs("cosine", rs[i].v, q, nodes[h[i]].vec) /\ VAbs(rs[i].g - CenterScore(h[i], cs)) <= 1
                      /\ VAbs(rs[i].t - Tot(h[i])) <= tol /\ rs[i].t >= tthr - 1
                 /\ \A i \in 1..Len(rs) - 1 : rs[i].t >= rs[i + 1].t
                 /\ all => /\ Len(rs) >= MinOf(k, Cardinality(sure))
                           /\ \A x \in sure \ SeqSet(h) : Len(rs) = k /\ Tot(x) <= rs[Len(rs)].t + tol

(* ----------------------------- analytics --------------------------------- *)
RECURSIVE Comps(_)
Comps(S) == IF S = {} THEN {} ELSE LET x == CHOOSE y \in S : TRUE
                                       c == UNION SeqSet(From(x, Cardinality(DOMAIN nodes), "both", <<>>))
                                   IN  {c} \cup Comps(S \ c)
Round(a, b) == (2 * a + b) \div (2 * b)
Statistics(ok, n, e, deg, dens, comps) ==
    LET N == Cardinality(DOMAIN nodes) E == Cardinality(DOMAIN edges)
    IN  /\ ok = gopen
        /\ ok => /\ n = N /\ e = E /\ comps = Cardinality(Comps(DOMAIN nodes))
                 /\ IF N = 0 THEN deg = 0 ELSE VAbs(deg - Round(2000 * E, N)) <= 1
                 /\ IF N < 2 THEN dens = 0 ELSE VAbs(dens - Round(1000 * E, N * (N - 1))) <= 1
OutDeg(x) == Cardinality(EdgesOf(x, "out"))
RECURSIVE SumRank(_, _)
SumRank(S, R) == IF S = {} THEN 0 ELSE LET y == CHOOSE z \in S : TRUE
                                      IN  (60 * R[edges[y].from]) \div OutDeg(edges[y].from) + SumRank(S \ {y}, R)
(* ranks in units of 1/100000; damping in percent *)
PageRank(damp, ok, rs) ==
    LET R == [x \in DOMAIN nodes |-> LET i == CHOOSE j \in 1..Len(rs) : rs[j].id = x IN rs[i].s]
        N == Cardinality(DOMAIN nodes) d == IF damp <= 0 \/ damp > 100 THEN 85 ELSE damp
    IN  /\ ok = gopen
        /\ ok => /\ Distinct(Ids(rs)) /\ SeqSet(Ids(rs)) = DOMAIN nodes
                 /\ \A i \in 1..Len(rs) - 1 : rs[i].s >= rs[i + 1].s
                 /\ \A i \in 1..Len(rs) : rs[i].s \in 0..100000
                 /\ \A x \in DOMAIN nodes :
                      LET want == ((100 - d) * 60000) \div N + (d * SumRank(EdgesOf(x, "in"), R)) \div 100
                      IN  VAbs(60 * R[x] - want) <= 60 * 8
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET y == CHOOSE z \in S : TRUE IN edges[y].w + SumOf(S \ {y})
(* how strongly x is tied to the members of C (a loop ties x to its own community) *)
Tie(x, C) == SumOf({y \in DOMAIN edges : (edges[y].from = x /\ edges[y].to \in C) \/ (edges[y].to = x /\ edges[y].from \in C)})
Communities(ok, cs) ==
    /\ ok = gopen
    /\ ok => /\ \A i \in 1..Len(cs) : cs[i].ids # <<>> /\ Distinct(cs[i].ids)
             /\ \A i, j \in 1..Len(cs) : i # j => SeqSet(cs[i].ids) \cap SeqSet(cs[j].ids) = {}
             /\ UNION {SeqSet(cs[i].ids) : i \in 1..Len(cs)} = DOMAIN nodes
             /\ \A i \in 1..Len(cs) : \E c \in Comps(DOMAIN nodes) : SeqSet(cs[i].ids) \subseteq c
             /\ \A i \in 1..Len(cs) - 1 : Len(cs[i].ids) >= Len(cs[i + 1].ids)
             /\ \A i, j \in 1..Len(cs) : \A x \in SeqSet(cs[i].ids) :   \* nobody is tied more strongly to another community
                  i # j => Tie(x, SeqSet(cs[j].ids)) <= Tie(x, SeqSet(cs[i].ids)) + Tie(x, {x})
             /\ \A i \in 1..Len(cs) : VAbs(cs[i].s - Round(1000 * Len(cs[i].ids), Cardinality(DOMAIN nodes))) <= 1
Adj(x) == Next1({x}, "both", <<>>)
Predict(id, k, ok, ps) ==
    LET a == Adj(id)
        cand == DOMAIN nodes \ (a \cup {id})
        Sc(x) == LET s == SimMilli(gsim, nodes[id].vec, nodes[x].vec) c == Cardinality(a \cap Adj(x))
                 IN  IF c = 0 THEN s ELSE (s + (1000 * c) \div (Cardinality(a) + 1)) \div 2
        n == IF k <= 0 THEN 10 ELSE k
        h == [i \in 1..Len(ps) |-> ps[i].to]
        tol == 3
    IN  /\ ok = (gopen /\ id \in DOMAIN nodes)
        /\ ok => /\ Distinct(h) /\ SeqSet(h) \subseteq cand /\ Len(ps) <= n
                 /\ \A i \in 1..Len(ps) : ps[i].from = id /\ VAbs(ps[i].s - Sc(h[i])) <= tol /\ ps[i].s >= 500
                 /\ \A i \in 1..Len(ps) - 1 : ps[i].s >= ps[i + 1].s
                 /\ \A x \in cand \ SeqSet(h) : Sc(x) <= 500 + tol \/ (Len(ps) = n /\ Sc(x) <= ps[n].s + tol)

(* ---------------------------- invariants --------------------------------- *)
NoDangling == \A x \in DOMAIN edges : {edges[x].from, edges[x].to} \subseteq DOMAIN nodes
=============================================================================

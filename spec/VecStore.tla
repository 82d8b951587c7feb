------------------------------ MODULE VecStore ------------------------------
(* The embedding store: collections, documents, embeddings and every          *)
(* operation that reads or changes them.  An operation is an action of its    *)
(* arguments and of its observed outcome (ok, result).                        *)
EXTENDS VecMath

VARIABLES rows,    \* id -> [vec, txt, doc, meta, col, acl]
          cols,    \* collection name -> declared dimension
          docs,    \* document id -> [title, author, ver, acl, url, txt, meta]
          dim,     \* store dimension, 0 until detected
          cfg,     \* [sim, index, adapt, dim, exact]
          open,    \* the handle accepts work
          faults   \* set of <<"ins"|"del", id>> : storage refuses that row
svars == <<rows, cols, docs, dim, cfg, open, faults>>

DefaultCol == "default"
ColOf(r) == IF r.col = "" THEN DefaultCol ELSE r.col
MetaKeys(r) == {r.meta[i][1] : i \in 1..Len(r.meta)}
MetaVal(r, k) == LET i == CHOOSE j \in 1..Len(r.meta) : r.meta[j][1] = k IN r.meta[i][2]
MetaIs(r, k, v) == k \in MetaKeys(r) /\ MetaVal(r, k) = v
VecOK(v) == Len(v) > 0 /\ \A i \in 1..Len(v) : v[i] < 990000   \* larger numbers code non-finite components, 900001.. finite ones that are not small integers

Init0 == rows = EmptyFn /\ cols = (DefaultCol :> 0) /\ docs = EmptyFn /\ dim = 0
         /\ cfg = [sim |-> "cosine", index |-> "flat", adapt |-> "strict", dim |-> 0, exact |-> TRUE]
         /\ open = FALSE /\ faults = {}

(* opening a fresh database *)
Fresh(c) ==
    /\ rows' = EmptyFn /\ cols' = (DefaultCol :> c.dim) /\ docs' = EmptyFn
    /\ dim' = c.dim /\ cfg' = c /\ open' = TRUE /\ faults' = {}

Close == open' = FALSE /\ UNCHANGED <<rows, cols, docs, dim, cfg, faults>>

(* reopening the same file, perhaps configured differently; the default       *)
(* collection always exists after opening                                     *)
Reopen(c) ==
    /\ ~open /\ open' = TRUE /\ cfg' = c /\ faults' = {}
    /\ dim' = IF c.dim # 0 THEN c.dim
              ELSE IF DOMAIN rows = {} THEN 0
              ELSE Len(rows[CHOOSE x \in DOMAIN rows : TRUE].vec)
    /\ cols' = IF DefaultCol \in DOMAIN cols THEN cols ELSE With(cols, DefaultCol, c.dim)
    /\ UNCHANGED <<rows, docs>>

Stored(r) == [vec |-> r.vec, txt |-> r.txt, doc |-> r.doc, meta |-> r.meta, col |-> ColOf(r), acl |-> r.acl]

WriteOK(r, d) ==
    /\ VecOK(r.vec) /\ (d = 0 \/ Len(r.vec) = d)
    /\ ColOf(r) \in DOMAIN cols
    /\ r.doc = "" \/ r.doc \in DOMAIN docs
    /\ <<"ins", r.id>> \notin faults

Upsert(r, ok) ==
    /\ ok = (open /\ WriteOK(r, dim))
    /\ IF ok THEN rows' = With(rows, r.id, Stored(r)) /\ dim' = (IF dim = 0 THEN Len(r.vec) ELSE dim)
             ELSE UNCHANGED <<rows, dim>>
    /\ UNCHANGED <<cols, docs, cfg, open, faults>>

RECURSIVE PutAll(_, _, _)
PutAll(f, rs, i) == IF i > Len(rs) THEN f ELSE PutAll(With(f, rs[i].id, Stored(rs[i])), rs, i + 1)
BatchDim(rs) == IF dim # 0 \/ Len(rs) = 0 THEN dim ELSE Len(rs[1].vec)
UpsertBatch(rs, ok) ==
    /\ ok = (open /\ \A i \in 1..Len(rs) : WriteOK(rs[i], BatchDim(rs)))
    /\ IF ok THEN rows' = PutAll(rows, rs, 1) /\ dim' = BatchDim(rs) ELSE UNCHANGED <<rows, dim>>
    /\ UNCHANGED <<cols, docs, cfg, open, faults>>

DelOK(ids) == \A i \in ids : <<"del", i>> \notin faults
RemoveRows(ids, ok) ==
    /\ IF ok THEN rows' = Without(rows, ids) ELSE UNCHANGED rows
    /\ UNCHANGED <<cols, docs, dim, cfg, open, faults>>

Delete(id, ok) == ok = (open /\ id \in DOMAIN rows /\ DelOK({id})) /\ RemoveRows({id}, ok)
DeleteBatch(ids, ok) ==
    LET hit == SeqSet(ids) \cap DOMAIN rows
    IN  /\ ok = (open /\ (SeqSet(ids) \subseteq {"", " "} \/ hit # {}) /\ DelOK(hit))
        /\ RemoveRows(hit, ok)
RowsOfDocs(ds) == {i \in DOMAIN rows : rows[i].doc \in ds \ {""}}
RowsOfCol(c) == {i \in DOMAIN rows : rows[i].col = c}
DeleteByDoc(d, ok) == ok = (open /\ d # "" /\ DelOK(RowsOfDocs({d}))) /\ RemoveRows(RowsOfDocs({d}), ok)
ClearDocs(ds, ok) == ok = (open /\ DelOK(RowsOfDocs(SeqSet(ds)))) /\ RemoveRows(RowsOfDocs(SeqSet(ds)), ok)
Clear(ok) == ok = (open /\ DelOK(DOMAIN rows)) /\ RemoveRows(DOMAIN rows, ok)
DeleteMatching(Match(_), ok) ==
    LET hit == {i \in DOMAIN rows : Match(i)} IN ok = (open /\ DelOK(hit)) /\ RemoveRows(hit, ok)

CreateCol(n, d, ok) ==
    /\ ok = (open /\ n \notin DOMAIN cols /\ d >= 0)
    /\ cols' = IF ok THEN With(cols, n, d) ELSE cols
    /\ UNCHANGED <<rows, docs, dim, cfg, open, faults>>
DeleteCol(n, ok) ==
    /\ ok = (open /\ n \in DOMAIN cols /\ DelOK(RowsOfCol(n)))
    /\ IF ok THEN cols' = Without(cols, {n}) /\ rows' = Without(rows, RowsOfCol(n)) ELSE UNCHANGED <<cols, rows>>
    /\ UNCHANGED <<docs, dim, cfg, open, faults>>

DocVal(d) == [title |-> d.title, author |-> d.author, ver |-> d.ver, acl |-> d.acl, url |-> d.url, txt |-> d.txt, meta |-> d.meta]
CreateDoc(d, ok) ==
    /\ ok = (open /\ d.id \notin DOMAIN docs)
    /\ docs' = IF ok THEN With(docs, d.id, DocVal(d)) ELSE docs
    /\ UNCHANGED <<rows, cols, dim, cfg, open, faults>>
UpdateDoc(d, ok) ==
    /\ ok = (open /\ d.id \in DOMAIN docs)
    /\ docs' = IF ok THEN With(docs, d.id, DocVal(d)) ELSE docs
    /\ UNCHANGED <<rows, cols, dim, cfg, open, faults>>
(* deleting a document takes its chunks with it; a missing document is a no-op *)
DeleteDoc(d, ok) ==
    /\ ok = (open /\ DelOK(RowsOfDocs({d})))
    /\ IF ok THEN docs' = Without(docs, {d}) /\ rows' = Without(rows, RowsOfDocs({d})) ELSE UNCHANGED <<docs, rows>>
    /\ UNCHANGED <<cols, dim, cfg, open, faults>>

SetFault(f) == faults' = faults \cup {f} /\ UNCHANGED <<rows, cols, docs, dim, cfg, open>>
ClearFaults == faults' = {} /\ UNCHANGED <<rows, cols, docs, dim, cfg, open>>

(* ------------------------------- reads ---------------------------------- *)
RowIs(i, r) == i \in DOMAIN rows /\ rows[i] = Stored(r)
Get(id, ok, r) == ok = (open /\ id \in DOMAIN rows) /\ (ok => r.id = id /\ rows[id] = [vec |-> r.vec, txt |-> r.txt, doc |-> r.doc, meta |-> r.meta, col |-> r.col, acl |-> r.acl])
(* reads that do not report collection and access list *)
BriefIs(r) == /\ r.id \in DOMAIN rows
              /\ LET x == rows[r.id] IN x.vec = r.vec /\ x.txt = r.txt /\ x.doc = r.doc /\ x.meta = r.meta
BriefRows(rs, want) == /\ Distinct([i \in 1..Len(rs) |-> rs[i].id])
                       /\ {rs[i].id : i \in 1..Len(rs)} = want
                       /\ \A i \in 1..Len(rs) : BriefIs(rs[i])
GetByDoc(d, ok, rs) == ok = (open /\ d # "") /\ (ok => BriefRows(rs, RowsOfDocs({d})))
DocIdsInUse == {rows[i].doc : i \in DOMAIN rows} \ {""}
ListDocs(ok, ds) == ok = open /\ (ok => Distinct(ds) /\ SeqSet(ds) = DocIdsInUse)
ListDocsInfo(ok, ds) == ok = open /\ (ok => /\ {ds[i].doc : i \in 1..Len(ds)} = DocIdsInUse /\ Len(ds) = Cardinality(DocIdsInUse)
                                           /\ \A i \in 1..Len(ds) : ds[i].n = Cardinality(RowsOfDocs({ds[i].doc})))
ByType(t, ok, rs) == ok = (open /\ t # "") /\ (ok => BriefRows(rs, {i \in DOMAIN rows : MetaIs(rows[i], "type", t)}))
Stats(ok, n, d) == ok = open /\ (ok => n = Cardinality(DOMAIN rows) /\ d = dim)
GetCol(c, ok, name, d) == ok = (open /\ c \in DOMAIN cols) /\ (ok => name = c /\ d = cols[c])
ListCols(ok, cs) == ok = open /\ (ok => /\ Len(cs) = Cardinality(DOMAIN cols)
                                        /\ {cs[i].name : i \in 1..Len(cs)} = DOMAIN cols
                                        /\ \A i \in 1..Len(cs) : cs[i].dim = cols[cs[i].name])
ColStats(c, ok, n, d) == ok = (open /\ c \in DOMAIN cols) /\ (ok => n = Cardinality(RowsOfCol(c)) /\ d = cols[c])
(* the space the vectors of a collection take, and whether the time of the last insertion is reported *)
RECURSIVE SumLens(_)
SumLens(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Len(rows[x].vec) + SumLens(S \ {x})
ColUse(c, size, last) ==
    LET R == RowsOfCol(c) IN last = (R # {}) /\ size >= 4 * SumLens(R) /\ size <= 4 * SumLens(R) + 16 * Cardinality(R)
GetDoc(d, ok, r) == ok = (open /\ d \in DOMAIN docs) /\ (ok => r.id = d /\ docs[d] = DocVal(r))
DocsBy(a, lim, ok, ds) ==
    LET hit == {x \in DOMAIN docs : a = "" \/ docs[x].author = a}
        ids == [i \in 1..Len(ds) |-> ds[i].id]
    IN  ok = open /\ (ok => /\ Distinct(ids) /\ SeqSet(ids) \subseteq hit /\ Len(ds) = MinOf(lim, Cardinality(hit))
                         /\ \A i \in 1..Len(ds) : docs[ds[i].id] = DocVal(ds[i]))
(* everything readable, in one observation *)
Snapshot(rs, ds) ==
    /\ Len(rs) = Cardinality(DOMAIN rows) /\ Distinct([i \in 1..Len(rs) |-> rs[i].id])
    /\ \A i \in 1..Len(rs) : Get(rs[i].id, TRUE, rs[i])
    /\ SeqSet(ds) = DOMAIN docs

(* ------------------------------ vector search ---------------------------- *)
KOf(k) == IF k <= 0 THEN 10 ELSE k
InScope(r, col, filt) == /\ (col = "" \/ r.col = col)
                         /\ \A j \in 1..Len(filt) : IF filt[j][1] = "doc_id" THEN r.doc = filt[j][2] ELSE MetaIs(r, filt[j][1], filt[j][2])
QueryOK(q) == VecOK(q) /\ (dim = 0 \/ Len(q) = dim)
Eligible(q, col, filt, thr) ==
    {i \in DOMAIN rows : InScope(rows[i], col, filt) /\ (thr > 0 => SimAtLeast(cfg.sim, thr, q, rows[i].vec))}
Ids(res) == [i \in 1..Len(res) |-> res[i].id]
Scored(q, res) == \A i \in 1..Len(res) : ScoreIs(cfg.sim, res[i].s, q, rows[res[i].id].vec)
(* hits carry the stored content too *)
HitIs(h) == LET x == rows[h.id] IN x.txt = h.txt /\ x.doc = h.doc /\ x.meta = h.meta /\ x.vec = h.vec
SearchAmong(q, k, elig, res) ==
    /\ TopK(Ids(res), k, elig, LAMBDA x, y : SimGT(cfg.sim, q, rows[x].vec, rows[y].vec))
    /\ Scored(q, res)
(* an approximate answer: current items, each once, with their true score,    *)
(* best first, never fewer than there would be                                *)
SearchSound(q, k, elig, thr, res) ==
    /\ Distinct(Ids(res)) /\ SeqSet(Ids(res)) \subseteq elig /\ Len(res) <= k /\ Scored(q, res)
    /\ \A i \in 1..Len(res) - 1 : ~SimGT(cfg.sim, q, rows[res[i + 1].id].vec, rows[res[i].id].vec)
    /\ (elig # {} /\ k > 0 /\ thr <= 0) => Len(res) > 0
(* is the index configured so that it need not approximate? *)
Exact(k) == cfg.exact \/ 2 * KOf(k) >= Cardinality(DOMAIN rows)
Search(q, k, col, filt, thr, ok, res) ==
    /\ ok = (open /\ QueryOK(q))
    /\ ok => (IF Exact(k) THEN SearchAmong(q, KOf(k), Eligible(q, col, filt, thr), res)
                           ELSE SearchSound(q, KOf(k), Eligible(q, col, filt, thr), thr, res))
             /\ \A i \in 1..Len(res) : HitIs(res[i]) /\ res[i].col = rows[res[i].id].col

(* ------------------------------ invariants ------------------------------- *)
Integrity == \A i \in DOMAIN rows : /\ rows[i].col \in DOMAIN cols
                                    /\ rows[i].doc = "" \/ rows[i].doc \in DOMAIN docs
                                    /\ dim # 0 => Len(rows[i].vec) = dim
DimKnown == (\E i \in DOMAIN rows : TRUE) => dim # 0
=============================================================================

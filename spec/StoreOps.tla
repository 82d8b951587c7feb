------------------------------ MODULE StoreOps ------------------------------
(* Every retrieval and bulk operation of the embedding store beyond plain     *)
(* reads and vector search, as predicates over the state of VecStore.         *)
EXTENDS VecStore, Text

All == 1000000
KAll(k) == IF k <= 0 THEN All ELSE k

(* ------------------------------ real numbers ----------------------------- *)
(* values are in thousandths (milli); an observed value may differ from the   *)
(* computed one by tol                                                        *)
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN ISqrtIn(x, m, hi) ELSE ISqrtIn(x, lo, m)
ISqrt(x) == IF x = 0 THEN 0 ELSE ISqrtIn(x, 0, 46340)
CosM(q, a) == IF Norm2(q) = 0 \/ Norm2(a) = 0 THEN 0
              ELSE LET d == Dot(q, a) m == ISqrt((d * d * 1000000) \div (Norm2(q) * Norm2(a))) IN IF d < 0 THEN -m ELSE m
SimM(q, a) == CASE cfg.sim = "cosine" -> CosM(q, a)
                [] cfg.sim = "dot"    -> 1000 * Dot(q, a)
                [] cfg.sim = "euclid" -> -ISqrt(Dist2(q, a) * 1000000)
Near(a, b, tol) == VAbs(a - b) <= tol
(* res is the best-k answer over elig for scores Sc (milli, error below tol)  *)
Best(res, k, elig, Sc(_), tol) ==
    /\ Distinct(Ids(res)) /\ SeqSet(Ids(res)) \subseteq elig
    /\ Len(res) = MinOf(k, Cardinality(elig))
    /\ \A i \in 1..Len(res) : Near(res[i].s, Sc(res[i].id), tol)
    /\ \A i \in 1..Len(res) - 1 : res[i].s >= res[i + 1].s
    /\ Len(res) > 0 => \A x \in elig \ SeqSet(Ids(res)) : Sc(x) <= res[Len(res)].s + tol
(* the same with a lower bound thr on the score *)
BestFrom(res, k, set, Sc(_), tol, thr) ==
    IF thr <= 0 THEN Best(res, k, set, Sc, tol)
    ELSE LET got == SeqSet(Ids(res)) sure == {x \in set : Sc(x) >= thr + tol}
         IN  /\ Distinct(Ids(res)) /\ got \subseteq set /\ Len(res) <= k
             /\ \A i \in 1..Len(res) : Near(res[i].s, Sc(res[i].id), tol) /\ res[i].s >= thr - 1
             /\ \A i \in 1..Len(res) - 1 : res[i].s >= res[i + 1].s
             /\ Len(res) < k => sure \subseteq got
             /\ Len(res) > 0 => \A x \in sure \ got : Sc(x) <= res[Len(res)].s + tol
HitsAre(res) == \A i \in 1..Len(res) : res[i].id \in DOMAIN rows /\ HitIs(res[i])

(* ------------------------------ filters ---------------------------------- *)
(* a filter is [op, f, v, kids]; v is a sequence of values [t, s]             *)
RECURSIVE FilterOK(_)
FilterOK(x) ==
    CASE x.op = "none" -> TRUE
      [] x.op \in {"AND", "OR"} -> Len(x.kids) > 0 /\ \A i \in 1..Len(x.kids) : FilterOK(x.kids[i])
      [] x.op = "NOT" -> Len(x.kids) = 1 /\ FilterOK(x.kids[1])
      [] x.op \in {"=", "!=", ">", ">=", "<", "<=", "LIKE", "IN"} -> TRUE
      [] x.op = "BETWEEN" -> Len(x.v) = 2
      [] x.op = "REGEX" -> x.v[1].t # "badre"
      [] OTHER -> FALSE
RegexHolds(k, lit, w) ==
    CASE k = "prefix" -> TextPrefix(Chars[w], Chars[lit])
      [] k = "suffix" -> TextSuffix(Chars[w], Chars[lit])
      [] k = "contains" -> TextContains(Chars[w], Chars[lit])
      [] k = "full" -> w = lit
RECURSIVE Holds(_, _)
Holds(x, r) ==
    LET has == x.f \in MetaKeys(r)
        w == MetaVal(r, x.f)
        a == x.v[1].s
    IN CASE x.op = "none" -> TRUE
         [] x.op = "AND" -> \A i \in 1..Len(x.kids) : Holds(x.kids[i], r)
         [] x.op = "OR"  -> \E i \in 1..Len(x.kids) : Holds(x.kids[i], r)
         [] x.op = "NOT" -> ~Holds(x.kids[1], r)
         [] x.op = "="   -> has /\ ValEQ(w, a)
         [] x.op = "!="  -> ~(has /\ ValEQ(w, a))
         [] x.op = ">"   -> has /\ ValLT(a, w)
         [] x.op = ">="  -> has /\ ValLE(a, w)
         [] x.op = "<"   -> has /\ ValLT(w, a)
         [] x.op = "<="  -> has /\ ValLE(w, a)
         [] x.op = "BETWEEN" -> has /\ ValLE(a, w) /\ ValLE(w, x.v[2].s)
         [] x.op = "IN"  -> has /\ \E i \in 1..Len(x.v) : ValEQ(w, x.v[i].s)
         [] x.op = "LIKE" -> has /\ Like(a, w)
         [] x.op = "REGEX" -> has /\ RegexHolds(x.v[1].t, a, w)
AdvSearch(q, k, col, filt, thr, pre, post, ok, res) ==
    /\ ok = (open /\ QueryOK(q) /\ FilterOK(pre) /\ FilterOK(post))
    /\ ok => LET e == {i \in Eligible(q, col, filt, thr) : Holds(pre, rows[i]) /\ Holds(post, rows[i])}
             IN SearchAmong(q, KAll(k), e, res) /\ HitsAre(res)
(* map of exact values, given as [key, value] pairs *)
FilterSearch(q, k, col, filt, thr, mf, ok, res) ==
    /\ ok = (open /\ QueryOK(q))
    /\ ok => LET e == {i \in Eligible(q, col, filt, thr) : \A j \in 1..Len(mf) : MetaIs(rows[i], mf[j][1], mf[j][2].s)}
             IN SearchAmong(q, KOf(k), e, res) /\ HitsAre(res)
DeleteByFilter(x, ok) ==
    LET hit == IF FilterOK(x) /\ x.op # "none" THEN {i \in DOMAIN rows : Holds(x, rows[i])} ELSE {}
    IN  ok = (open /\ x.op # "none" /\ FilterOK(x) /\ DelOK(hit)) /\ RemoveRows(hit, ok)
Dump(x, fmt, bare, ok, n, rs) ==
    LET csv == fmt = "csv"
    IN  /\ ok = (open /\ FilterOK(x) /\ fmt \in {"json", "jsonl", "csv"})
        /\ ok => /\ Distinct(Ids(rs)) /\ SeqSet(Ids(rs)) = {i \in DOMAIN rows : Holds(x, rows[i])} /\ n = Len(rs)
                 /\ \A i \in 1..Len(rs) :
                      LET r == rs[i] w == rows[r.id] IN   \* a comma separated dump leaves out collection and access list
                      /\ w.txt = r.txt /\ w.doc = r.doc /\ w.meta = r.meta /\ r.vec = (IF bare THEN <<>> ELSE w.vec)
                      /\ csv \/ (w.col = r.col /\ w.acl = r.acl)
(* loading into an empty store gave exactly these rows *)
Restored(x, rs) == LET want == {i \in DOMAIN rows : Holds(x, rows[i])}
                   IN /\ Distinct(Ids(rs)) /\ SeqSet(Ids(rs)) = want
                      /\ \A i \in 1..Len(rs) : LET r == rs[i] IN rows[r.id] = [vec |-> r.vec, txt |-> r.txt, doc |-> r.doc, meta |-> r.meta, col |-> r.col, acl |-> r.acl]
(* loading rows into this store: one upsert after another, creating the       *)
(* parents they name; existing ids are skipped or replaced                    *)
RECURSIVE LoadFrom(_, _, _, _)
LoadFrom(st, rs, i, skip) ==
    IF i > Len(rs) THEN st
    ELSE LET r == rs[i]
             d == IF st.dim = 0 THEN Len(r.vec) ELSE st.dim
             take == VecOK(r.vec) /\ Len(r.vec) = d /\ ~(skip /\ r.id \in DOMAIN st.rows)
             seen == skip /\ r.id \in DOMAIN st.rows
             st2 == [rows |-> With(st.rows, r.id, Stored(r)), dim |-> d,
                     cols |-> IF ColOf(r) \in DOMAIN st.cols THEN st.cols ELSE With(st.cols, ColOf(r), Len(r.vec)),
                     docs |-> IF r.doc = "" \/ r.doc \in DOMAIN st.docs THEN st.docs
                              ELSE With(st.docs, r.doc, [title |-> r.doc, author |-> "", ver |-> 0, acl |-> <<>>, url |-> "", txt |-> <<>>, meta |-> <<>>]),
                     n |-> st.n + 1, failed |-> st.failed, skipped |-> st.skipped]
         IN LoadFrom(IF take THEN st2
                     ELSE IF seen THEN [st EXCEPT !.skipped = @ + 1] ELSE [st EXCEPT !.failed = @ + 1], rs, i + 1, skip)
Load(rs, skip, bad, odd, ok, n, failed, skipped) ==   \* odd: records of another shape among them
    LET fin == LoadFrom([rows |-> rows, cols |-> cols, docs |-> docs, dim |-> dim, n |-> 0, failed |-> 0, skipped |-> 0], rs, 1, skip)
    IN  /\ ok = (open /\ ~bad)
        /\ IF open
           THEN rows' = fin.rows /\ cols' = fin.cols /\ docs' = fin.docs /\ dim' = fin.dim
                /\ (ok => n = fin.n /\ failed = fin.failed + odd /\ skipped = fin.skipped)
           ELSE UNCHANGED <<rows, cols, docs, dim>>
        /\ UNCHANGED <<cfg, open, faults>>

(* --------------------------- access lists -------------------------------- *)
AccessOf(r) == IF r.acl # <<>> THEN r.acl ELSE IF r.doc # "" THEN docs[r.doc].acl ELSE <<>>
MaySee(r, who) == AccessOf(r) = <<>> \/ SeqSet(AccessOf(r)) \cap SeqSet(who) # {}
AclSearch(q, who, k, col, filt, thr, ok, res) ==
    /\ ok = (open /\ QueryOK(q))
    /\ ok => LET e == {i \in Eligible(q, col, filt, thr) : MaySee(rows[i], who)} IN SearchAmong(q, KAll(k), e, res) /\ HitsAre(res)

(* ------------------------------ range search ----------------------------- *)
Within(q, a, r) == IF cfg.sim = "euclid" THEN Dist2(q, a) * 1000000 <= r * r ELSE SimAtLeast(cfg.sim, 1000 - r, q, a)
DistIs(s, q, a) == IF cfg.sim = "euclid" THEN SqrtIs(s, Dist2(q, a)) ELSE ScoreIs(cfg.sim, 1000 - s, q, a)
RangeOf(q, r, k, col, filt, res) ==
    /\ TopK(Ids(res), KAll(k), {i \in DOMAIN rows : InScope(rows[i], col, filt) /\ Within(q, rows[i].vec, r)},
            LAMBDA x, y : SimGT(cfg.sim, q, rows[x].vec, rows[y].vec))
    /\ \A i \in 1..Len(res) : DistIs(res[i].s, q, rows[res[i].id].vec)
    /\ HitsAre(res)
RangeSearch(q, r, k, col, filt, ok, res) == ok = (open /\ QueryOK(q) /\ r > 0) /\ (ok => RangeOf(q, r, k, col, filt, res))
RangeBatch(qs, r, k, col, filt, ok, res) ==
    /\ ok = \A i \in 1..Len(qs) : open /\ QueryOK(qs[i]) /\ r > 0
    /\ ok => Len(res) = Len(qs) /\ \A i \in 1..Len(qs) : RangeOf(qs[i], r, k, col, filt, res[i])

(* --------------------------- keyword and hybrid -------------------------- *)
TextHas(r, w) == w \in SeqSet(r.txt)
(* mode "all": every term; "any": at least one; "prefix": a word starting so  *)
TextMatch(r, mode, terms, words) ==
    CASE mode = "all"    -> terms # <<>> /\ \A i \in 1..Len(terms) : TextHas(r, terms[i])
      [] mode = "any"    -> \E i \in 1..Len(terms) : TextHas(r, terms[i])
      [] mode = "prefix" -> \E i \in 1..Len(words) : TextHas(r, words[i])
      [] OTHER -> FALSE
Freq(r, w) == Cardinality({i \in 1..Len(r.txt) : r.txt[i] = w})
TotalLen == FoldSet(LAMBDA i, a : Len(rows[i].txt) + a, 0, DOMAIN rows)
(* relevance of a single word (BM25 with its usual parameters): a before b    *)
WordGT(w, a, b) ==
    LET n == Cardinality(DOMAIN rows) t == TotalLen
    IN  Freq(rows[a], w) * (t + 3 * n * Len(rows[b].txt)) > Freq(rows[b], w) * (t + 3 * n * Len(rows[a].txt))
(* possible places of x among set, best first: everything strictly better     *)
(* comes before it and everything strictly worse after it                     *)
PlaceLo(x, set, GT(_, _)) == 1 + Cardinality({y \in set : GT(y, x)})
PlaceHi(x, set, GT(_, _)) == Cardinality({y \in set : ~GT(x, y)})
Inv60(p) == 100000000 \div (60 + p)
(* fused score in units of 10^-8 *)
Hybrid(q, mode, terms, words, k, col, filt, thr, ok, res) ==
    LET kk == KOf(k)
        vset == IF Len(q) = 0 THEN {} ELSE Eligible(q, col, filt, thr)
        tset == {i \in DOMAIN rows : InScope(rows[i], col, filt) /\ TextMatch(rows[i], mode, terms, words)}
        vgt(a, b) == SimGT(cfg.sim, q, rows[a].vec, rows[b].vec)
        tgt(a, b) == mode = "all" /\ Len(terms) = 1 /\ WordGT(terms[1], a, b)
        vlo(x) == PlaceLo(x, vset, vgt)
        vhi(x) == PlaceHi(x, vset, vgt)
        tlo(x) == PlaceLo(x, tset, tgt)
        thi(x) == PlaceHi(x, tset, tgt)
        vplaces(x) == IF x \notin vset THEN {0} ELSE {p \in vlo(x)..vhi(x) : p <= kk} \cup (IF vhi(x) > kk THEN {0} ELSE {})
        tplaces(x) == IF x \notin tset THEN {0} ELSE {p \in tlo(x)..thi(x) : p <= 3 * kk} \cup (IF thi(x) > 3 * kk THEN {0} ELSE {})
        part(p) == IF p = 0 THEN 0 ELSE Inv60(p)
        sums(x) == {part(a) + part(b) : a \in vplaces(x), b \in tplaces(x)}
        least(x) == CHOOSE m \in sums(x) : \A n \in sums(x) : m <= n
        pool == vset \cup tset
        must == {x \in pool : least(x) > 0}
        last == IF Len(res) = 0 THEN 0 ELSE res[Len(res)].s
    IN  /\ ok = (open /\ (Len(q) = 0 \/ QueryOK(q)))
        /\ ok => /\ Distinct(Ids(res)) /\ SeqSet(Ids(res)) \subseteq pool
                 /\ Len(res) <= kk
                 /\ Len(res) >= MinOf(kk, Cardinality(must))
                 /\ \A i \in 1..Len(res) : \E m \in sums(res[i].id) : m > 0 /\ Near(res[i].s, m, 3)
                 /\ \A i \in 1..Len(res) - 1 : res[i].s >= res[i + 1].s
                 /\ \A x \in must \ SeqSet(Ids(res)) : Len(res) = kk /\ least(x) <= last + 3
                 /\ HitsAre(res)
                 /\ \A i \in 1..Len(res) : res[i].col = rows[res[i].id].col

(* ------------------------------ streaming -------------------------------- *)
StreamSound(q, col, filt, thr, res) ==
    /\ Distinct(Ids(res)) /\ SeqSet(Ids(res)) \subseteq Eligible(q, col, filt, thr)
    /\ Scored(q, res) /\ HitsAre(res)
    /\ \A i \in 1..Len(res) - 1 : /\ res[i].b <= res[i + 1].b
                                  /\ res[i].b = res[i + 1].b => ~SimGT(cfg.sim, q, rows[res[i + 1].id].vec, rows[res[i].id].vec)
Stream(q, k, col, filt, thr, batch, early, qthr, cancel, ok, res, ended) ==
    LET e == Eligible(q, col, filt, thr) n == Cardinality({i \in DOMAIN rows : InScope(rows[i], col, filt)})
    IN  /\ ok = (open /\ QueryOK(q))
        /\ ok => /\ ended /\ StreamSound(q, col, filt, thr, res)
                 /\ (~early /\ cancel < 0) => SeqSet(Ids(res)) = e
                 \* nothing is withheld unless an item good enough was delivered
                 /\ (early /\ cancel < 0 /\ SeqSet(Ids(res)) # e) => k > 0 /\ \E i \in 1..Len(res) : SimAtLeast(cfg.sim, qthr, q, rows[res[i].id].vec)
                 /\ \A j \in 0..n : Cardinality({i \in 1..Len(res) : res[i].b = j}) <= batch
StreamTopK(q, k, col, filt, thr, ok, res) ==
    ok = (open /\ QueryOK(q)) /\ (ok => SearchAmong(q, MaxOf(k, 0), Eligible(q, col, filt, thr), res) /\ HitsAre(res))
(* streams of several queries merged into one: each delivers its own answer *)
StreamMerged(qs, col, filt, thr, ok, res, ended) ==
    /\ ok = \A i \in 1..Len(qs) : open /\ QueryOK(qs[i])
    /\ ok => /\ ended
             /\ \A i \in 1..Len(res) : res[i].id \in DOMAIN rows /\ \E j \in 1..Len(qs) : res[i].id \in Eligible(qs[j], col, filt, thr) /\ ScoreIs(cfg.sim, res[i].s, qs[j], rows[res[i].id].vec)
             /\ \A x \in DOMAIN rows : Cardinality({i \in 1..Len(res) : res[i].id = x}) = Cardinality({j \in 1..Len(qs) : x \in Eligible(qs[j], col, filt, thr)})
(* rows handed to the incremental index are searchable at once and stored     *)
(* when it is closed                                                          *)
Incremental(rs, q, k, col, filt, thr, ok, res) ==
    LET good == SelectSeq(rs, LAMBDA r : WriteOK(r, BatchDim(rs)))   \* one that cannot be stored does not take the others with it
    IN  /\ ok = open
        /\ IF ok THEN rows' = PutAll(rows, good, 1) /\ dim' = (IF good = <<>> THEN dim ELSE BatchDim(rs)) ELSE UNCHANGED <<rows, dim>>
        /\ UNCHANGED <<cols, docs, cfg, open, faults>>
        /\ ok /\ Len(good) = Len(rs) =>
                 LET nr == rows'
                     e == {i \in DOMAIN nr : InScope(nr[i], col, filt) /\ (thr > 0 => SimAtLeast(cfg.sim, thr, q, nr[i].vec))}
                 IN  /\ TopK(Ids(res), KOf(k), e, LAMBDA x, y : SimGT(cfg.sim, q, nr[x].vec, nr[y].vec))
                     /\ \A i \in 1..Len(res) : ScoreIs(cfg.sim, res[i].s, q, nr[res[i].id].vec) /\ res[i].txt = nr[res[i].id].txt

(* ------------------------- aggregations and facets ----------------------- *)
AggScope(col, filters) == {i \in DOMAIN rows : (col = "" \/ rows[i].col = col) /\ \A j \in 1..Len(filters) : MetaIs(rows[i], filters[j][1], filters[j][2].s)}
ValuesIn(ids, f) == {i \in ids : f \in MetaKeys(rows[i])}
NumAt(i, f) == NumOf[MetaVal(rows[i], f)]
SumOf(ids, f) == FoldSet(LAMBDA i, a : NumAt(i, f) + a, 0, ids)
MinAt(ids, f) == CHOOSE m \in {NumAt(i, f) : i \in ids} : \A n \in {NumAt(i, f) : i \in ids} : m <= n
MaxAt(ids, f) == CHOOSE m \in {NumAt(i, f) : i \in ids} : \A n \in {NumAt(i, f) : i \in ids} : m >= n
NoValue == 2000000001
AggValueIs(v, type, ids, f, empty) ==
    LET has == ValuesIn(ids, f) n == Cardinality(has)
    IN  CASE type = "sum" -> v = IF has = {} THEN empty ELSE 100 * SumOf(has, f)
          [] type = "avg" -> IF has = {} THEN v = empty ELSE VAbs(v * n - 100 * SumOf(has, f)) <= n
          [] type = "min" -> v = IF has = {} THEN empty ELSE 100 * MinAt(has, f)
          [] type = "max" -> v = IF has = {} THEN empty ELSE 100 * MaxAt(has, f)
          [] OTHER -> v = 1000 * Cardinality(ids)
KeyOf(i, g) == [j \in 1..Len(g) |-> IF g[j] \in MetaKeys(rows[i]) THEN MetaVal(rows[i], g[j]) ELSE "~none"]
AggOK(type, f, g) == type \in {"count", "sum", "avg", "min", "max", "group_by"}
                     /\ (type \in {"sum", "avg", "min", "max"} => f # "") /\ (type = "group_by" => g # <<>>)
ExactAgg(type, ids, f) == \* in thousandths, only for comparing group values
    LET has == ValuesIn(ids, f) n == Cardinality(has)
    IN  CASE type = "sum" -> IF has = {} THEN NoValue ELSE 100 * SumOf(has, f)
          [] type = "avg" -> IF has = {} THEN NoValue ELSE (100 * SumOf(has, f)) \div n
          [] type = "min" -> IF has = {} THEN NoValue ELSE 100 * MinAt(has, f)
          [] type = "max" -> IF has = {} THEN NoValue ELSE 100 * MaxAt(has, f)
          [] OTHER -> 1000 * Cardinality(ids)
Aggregate(type, f, g, filters, col, having, order, limit, ok, res) ==
    LET scope == AggScope(col, filters)
        keys == {KeyOf(i, g) : i \in scope}
        member(k) == {i \in scope : KeyOf(i, g) = k}
        passes(k) == \A j \in 1..Len(having) :
                        CASE having[j][1] = "count" -> Cardinality(member(k)) = having[j][2]
                          [] having[j][1] = "agg_value" -> ExactAgg(type, member(k), f) = 1000 * having[j][2]
        kept == {k \in keys : passes(k)}
        want == IF limit > 0 THEN MinOf(limit, Cardinality(kept)) ELSE Cardinality(kept)
        weight(k) == IF order = "agg_value" THEN (IF ExactAgg(type, member(k), f) = NoValue THEN -2000000000 ELSE ExactAgg(type, member(k), f)) ELSE 1000 * Cardinality(member(k))
    IN  /\ ok = (open /\ AggOK(type, f, g))
        /\ ok => IF g = <<>>
                 THEN /\ Len(res) = 1
                      /\ AggValueIs(res[1].v, type, scope, f, 0)
                      /\ res[1].n = IF type = "count" THEN Cardinality(scope) ELSE Cardinality(ValuesIn(scope, f))
                 ELSE /\ Len(res) = want
                      /\ Distinct([i \in 1..Len(res) |-> res[i].keys])
                      /\ \A i \in 1..Len(res) : /\ res[i].keys \in kept
                                                /\ res[i].n = Cardinality(member(res[i].keys))
                                                /\ AggValueIs(res[i].v, type, member(res[i].keys), f, NoValue)
                      /\ \A i \in 1..Len(res) - 1 : weight(res[i].keys) >= weight(res[i + 1].keys) - 1
                      /\ Len(res) > 0 => \A k \in kept \ {res[i].keys : i \in 1..Len(res)} : weight(k) <= weight(res[Len(res)].keys) + 1
(* facet condition [type, vals, min, max, pat, nested, oper] *)
RECURSIVE FacetHolds(_, _, _)
FacetHolds(f, c, r) ==
    LET has == f \in MetaKeys(r) w == MetaVal(r, f)
    IN CASE c.type = "equals" -> c.vals = <<>> \/ (has /\ ValEQ(w, c.vals[1].s))
         [] c.type = "in" -> c.vals = <<>> \/ (has /\ \E i \in 1..Len(c.vals) : ValEQ(w, c.vals[i].s))
         [] c.type = "range" -> (c.min.t = "nil" \/ (has /\ ValLE(c.min.s, w))) /\ (c.max.t = "nil" \/ (has /\ ValLE(w, c.max.s)))
         [] c.type = "contains" -> c.pat = "" \/ (has /\ TextContains(LowerAll(Chars[w]), LowerAll(Chars[c.pat])))
         [] c.type = "prefix" -> c.pat = "" \/ (has /\ TextPrefix(LowerAll(Chars[w]), LowerAll(Chars[c.pat])))
         [] c.type = "exists" -> has
         [] c.type = "nested" ->
              IF c.nested = <<>> THEN TRUE
              ELSE CASE c.oper = "OR"  -> \E i \in 1..Len(c.nested) : FacetHolds(f, c.nested[i], r)
                     [] c.oper = "NOT" -> \E i \in 1..Len(c.nested) : ~FacetHolds(f, c.nested[i], r)
                     [] OTHER -> \A i \in 1..Len(c.nested) : FacetHolds(f, c.nested[i], r)
         [] OTHER -> TRUE
FacetCount(scope, f, v) == Cardinality({i \in scope : MetaIs(rows[i], f, v)})
FacetIs(scope, fr, lim) ==
    LET vals == {MetaVal(rows[i], fr.f) : i \in ValuesIn(scope, fr.f)}
        got == {fr.vals[i][1] : i \in 1..Len(fr.vals)}
    IN  /\ got \subseteq vals /\ Len(fr.vals) = Cardinality(got) /\ Cardinality(got) = MinOf(lim, Cardinality(vals))
        /\ \A i \in 1..Len(fr.vals) : fr.vals[i][2] = FacetCount(scope, fr.f, fr.vals[i][1])
        /\ \A v \in vals \ got : \A w \in got : FacetCount(scope, fr.f, v) <= FacetCount(scope, fr.f, w)
        /\ fr.total = FoldSet(LAMBDA v, a : FacetCount(scope, fr.f, v) + a, 0, got)
Facets(q, k, col, filt, thr, fs, want, lim, ok, res, frs) ==
    LET scope == {i \in DOMAIN rows : InScope(rows[i], col, filt)}
        fields == {fs[j][1] : j \in 1..Len(fs)}
    IN  /\ ok = (open /\ QueryOK(q))
        /\ ok => /\ SearchAmong(q, KOf(k), {i \in Eligible(q, col, filt, thr) : \A j \in 1..Len(fs) : FacetHolds(fs[j][1], fs[j][2], rows[i])}, res)
                 /\ HitsAre(res)
                 /\ IF ~want THEN frs = <<>>
                    ELSE /\ {frs[i].f : i \in 1..Len(frs)} = {f \in fields : ValuesIn(scope, f) # {}}
                         /\ Len(frs) = Cardinality({frs[i].f : i \in 1..Len(frs)})
                         /\ \A i \in 1..Len(frs) : FacetIs(scope, frs[i], IF lim <= 0 THEN 10 ELSE lim)

(* -------------------- re-ranking and diversification --------------------- *)
Rank0(a, b, q) == SimGT(cfg.sim, q, rows[a].vec, rows[b].vec)
Hits(r, terms) == Cardinality({i \in 1..Len(terms) : TextHas(r, terms[i])})
(* feasible reciprocal-rank scores, in units of 10^-8, weights one half each *)
RrfSums(x, set, q, terms) ==
    LET vgt(a, b) == Rank0(a, b, q)
        tgt(a, b) == Hits(rows[a], terms) > Hits(rows[b], terms)
    IN  {(Inv60(a) + Inv60(b)) \div 2 : a \in PlaceLo(x, set, vgt)..PlaceHi(x, set, vgt), b \in PlaceLo(x, set, tgt)..PlaceHi(x, set, tgt)}
(* greedy trade-off of relevance and novelty, lambda in thousandths *)
MaxSimTo(x, chosen) == LET s == {SimM(rows[x].vec, rows[y].vec) : y \in chosen} \cup {0} IN CHOOSE m \in s : \A n \in s : m >= n
MmrVal(x, chosen, lam, Rel(_)) == (lam * Rel(x) - (1000 - lam) * MaxSimTo(x, chosen)) \div 1000
Greedy(ids, pool, lam, Rel(_), from) ==
    \A i \in from..Len(ids) :
        LET before == {ids[j] : j \in 1..i - 1}
        IN  \A y \in pool \ before : MmrVal(y, before, lam, Rel) <= MmrVal(ids[i], before, lam, Rel) + 4
Rerank(q, terms, kind, par, k, thr, ok, res) ==
    LET set == DOMAIN rows
        kk == KAll(k)
        simple(Sc(_), tol) == BestFrom(res, kk, set, Sc, tol, thr)
    IN  /\ ok = (open /\ QueryOK(q))
        /\ ok =>
           /\ HitsAre(res)
           /\ CASE kind = "none" -> SearchAmong(q, KOf(k), set, res)
                [] kind = "norm" ->
                     \* order of the search, best one at the top of the range, worst at the bottom
                     /\ TopK(Ids(res), kk, set, LAMBDA a, b : Rank0(a, b, q))
                     /\ LET flat == \A a \in set, b \in set : ~Rank0(a, b, q)
                        IN  /\ Len(res) > 0 /\ ~flat => Near(res[1].s, par[2], 1)   \* equal scores may differ by a rounding error, which is then stretched
                            /\ Len(res) = Cardinality(set) /\ Len(res) > 0 => Near(res[Len(res)].s, par[1], 1)
                            /\ \A i \in 1..Len(res) : res[i].s >= par[1] - 1 /\ res[i].s <= par[2] + 1
                [] kind = "keyword" -> simple(LAMBDA x : (SimM(q, rows[x].vec) * (1000 + Hits(rows[x], terms) * par[1])) \div 1000, 9)
                [] kind = "custom" -> simple(LAMBDA x : 1000 * Len(rows[x].txt), 0)
                [] kind = "hybrid" -> simple(LAMBDA x : (((SimM(q, rows[x].vec) * (1000 + Hits(rows[x], terms) * par[1])) \div 1000) * par[2] + 1000 * Len(rows[x].txt) * par[3]) \div (par[2] + par[3]), 9)
                [] kind = "rrf" ->
                     /\ Distinct(Ids(res)) /\ SeqSet(Ids(res)) \subseteq set /\ Len(res) = MinOf(kk, Cardinality(set))
                     /\ \A i \in 1..Len(res) : \E m \in RrfSums(res[i].id, set, q, terms) : Near(res[i].s, m, 3)
                     /\ \A i \in 1..Len(res) - 1 : res[i].s >= res[i + 1].s
                     /\ Len(res) > 0 => \A x \in set \ SeqSet(Ids(res)) : \E m \in RrfSums(x, set, q, terms) : m <= res[Len(res)].s + 3
                [] kind = "mmr" ->
                     /\ Distinct(Ids(res)) /\ SeqSet(Ids(res)) \subseteq set /\ Len(res) = MinOf(kk, Cardinality(set))
                     /\ Len(res) > 1 => \E t \in {x \in set : \A y \in set : ~Rank0(y, x, q)} :
                            Greedy(Ids(res), set, par[1], LAMBDA x : SimM(rows[t].vec, rows[x].vec), 1)
                     /\ Scored(q, res)
(* the pool of a diversified search: best 3k in scope; with ties at its edge  *)
(* the pool is one of several sets, so only what is certain is required       *)
Certain(e, n, GT(_, _)) == {x \in e : PlaceHi(x, e, GT) <= n}
Possible(e, n, GT(_, _)) == {x \in e : PlaceLo(x, e, GT) <= n}
Diverse(q, k, col, filt, thr, method, lam, mind, ok, res) ==
    LET e == Eligible(q, col, filt, thr)
        kk == KOf(k)
        gt(a, b) == Rank0(a, b, q)
        sure == Certain(e, 3 * kk, gt)
        poss == Possible(e, 3 * kk, gt)
        tops == {x \in e : \A y \in e : ~gt(y, x)}
        ids == Ids(res)
        rel(x) == SimM(q, rows[x].vec)
        d(x, y) == 1000 - SimM(rows[x].vec, rows[y].vec)
        md == IF mind = 0 THEN 100 ELSE mind
        lm == IF lam = 0 THEN 500 ELSE lam
    IN  /\ ok = (open /\ QueryOK(q))
        /\ ok =>
           /\ Distinct(ids) /\ SeqSet(ids) \subseteq poss /\ Len(res) <= kk /\ HitsAre(res) /\ Scored(q, res)
           /\ e # {} => method \in {"random", "dpp"} \/ (Len(ids) > 0 /\ ids[1] \in tops)
           /\ CASE method \in {"mmr", ""} -> /\ Len(res) = MinOf(kk, Cardinality(e))
                                             /\ Greedy(ids, sure \cup SeqSet(ids), lm, rel, 2)
                [] method = "distance" ->
                     /\ \A i \in 1..Len(ids) : \A j \in 1..i - 1 : d(ids[i], ids[j]) >= md - 2 /\ ~gt(ids[i], ids[j])
                     /\ Len(res) < kk => \A x \in sure \ SeqSet(ids) : \E y \in SeqSet(ids) : d(x, y) <= md + 2 /\ ~gt(x, y)
                     /\ \A x \in sure \ SeqSet(ids) : \A i \in 1..Len(ids) : gt(x, ids[i]) => \E j \in 1..Len(ids) : d(x, ids[j]) <= md + 2 /\ ~gt(x, ids[j])
                [] method = "random" -> /\ Len(res) = MinOf(kk, Cardinality(e))
                                        /\ SeqSet(ids) \subseteq Possible(e, MaxOf(2 * kk, kk), gt)
                                        /\ \A i \in 1..Len(ids) - 1 : ~gt(ids[i + 1], ids[i])
                [] method = "dpp" -> Cardinality(e) <= kk => SeqSet(ids) = e
NegScore(r, pos, neg, w) ==
    LET best(vs) == LET s == {SimM(vs[i], r.vec) : i \in 1..Len(vs)} \cup {0} IN CHOOSE m \in s : \A n \in s : m >= n
    IN  best(pos) - (w * best(neg)) \div 1000
Negatives(pos, neg, w, k, col, filt, ok, res) ==
    /\ ok = open
    /\ ok => /\ Best(res, KAll(k), {i \in DOMAIN rows : InScope(rows[i], col, filt)}, LAMBDA x : NegScore(rows[x], pos, neg, IF w = 0 THEN 500 ELSE w), 4)
             /\ HitsAre(res)
Recommend(pids, nids, k, col, filt, ok, res) ==
    LET vecs(ids) == LET known == SelectSeq(ids, LAMBDA x : x \in DOMAIN rows) IN [i \in 1..Len(known) |-> rows[known[i]].vec]
    IN  Negatives(vecs(pids), vecs(nids), 500, k, col, filt, ok, res)
RECURSIVE SmallestSum(_, _)
SmallestSum(s, n) == \* s: sequence of numbers in increasing order
    IF n = 0 \/ s = <<>> THEN 0 ELSE s[1] + SmallestSum(Tail(s), n - 1)
OddScore(x, e) ==
    LET ds == SetToSortSeq({<<1000 - SimM(rows[x].vec, rows[y].vec), y>> : y \in e \ {x}}, LAMBDA a, b : a[1] < b[1])
        n == MinOf(5, Len(ds))
    IN  IF n = 0 THEN 0 ELSE SmallestSum([i \in 1..Len(ds) |-> ds[i][1]], n) \div n
Anomalies(k, col, filt, ok, res) ==
    LET e == {i \in DOMAIN rows : InScope(rows[i], col, filt)}
    IN  ok = open /\ (ok => Best(res, KAll(k), e, LAMBDA x : OddScore(x, e), 3) /\ HitsAre(res))

(* --------------------------- multi-vector entities ----------------------- *)
EntityRows(id) == {i \in DOMAIN rows : MetaIs(rows[i], "_entity_id", id)}
FieldRow(e, j) == [vec |-> e.fields[j][2], txt |-> e.txt, doc |-> IF e.id \in DOMAIN docs THEN e.id ELSE "",
                   meta |-> <<<<"_entity_id", e.id>>, <<"_vector_field", e.fields[j][1]>>>> \o e.meta, col |-> DefaultCol, acl |-> <<>>]
FieldId(e, j) == e.id \o "___" \o e.fields[j][1]
RECURSIVE PutFields(_, _, _)
PutFields(f, e, j) == IF j > Len(e.fields) THEN f ELSE PutFields(With(f, FieldId(e, j), FieldRow(e, j)), e, j + 1)
PutMulti(e, ok) ==
    LET d == IF dim # 0 \/ Len(e.fields) = 0 THEN dim ELSE Len(e.fields[1][2])
    IN  /\ ok = (/\ open /\ Len(e.fields) > 0 /\ DefaultCol \in DOMAIN cols
                 /\ \A j \in 1..Len(e.fields) : VecOK(e.fields[j][2]) /\ Len(e.fields[j][2]) = d /\ <<"ins", FieldId(e, j)>> \notin faults
                 /\ DelOK(EntityRows(e.id)))
        /\ IF ok THEN rows' = PutFields(Without(rows, EntityRows(e.id)), e, 1) /\ dim' = d ELSE UNCHANGED <<rows, dim>>
        /\ UNCHANGED <<cols, docs, cfg, open, faults>>
DelMulti(id, ok) == ok = (open /\ DelOK(EntityRows(id))) /\ RemoveRows(EntityRows(id), ok)
GetMulti(id, ok, e) ==
    /\ ok = (open /\ EntityRows(id) # {})
    /\ ok => /\ {<<MetaVal(rows[i], "_vector_field"), rows[i].vec>> : i \in EntityRows(id)} = {<<e.fields[j][1], e.fields[j][2]>> : j \in 1..Len(e.fields)}
             /\ Len(e.fields) = Cardinality(EntityRows(id))
             /\ \A i \in EntityRows(id) : rows[i].txt = e.txt /\ rows[i].meta = <<<<"_entity_id", id>>, <<"_vector_field", MetaVal(rows[i], "_vector_field")>>>> \o e.meta
Entities == {MetaVal(rows[i], "_entity_id") : i \in {j \in DOMAIN rows : "_entity_id" \in MetaKeys(rows[j])}}
PairVal(ps, k, dflt) == IF \E i \in 1..Len(ps) : ps[i][1] = k THEN ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2] ELSE dflt
MultiSearch(qs, fields, weights, agg, k, col, filt, thr, ok, res) ==
    LET used == {j \in 1..Len(qs) : fields = <<>> \/ qs[j][1] \in SeqSet(fields)}
        hits(id) == {<<i, j>> \in EntityRows(id) \X used : MetaVal(rows[i], "_vector_field") = qs[j][1] /\ InScope(rows[i], col, filt)}
        val(h) == (SimM(qs[h[2]][2], rows[h[1]].vec) * PairVal(weights, qs[h[2]][1], 1000)) \div 1000
        vals(id) == {val(h) : h \in hits(id)}
        sum(id) == FoldSet(LAMBDA h, a : val(h) + a, 0, hits(id))
        sc(id) == CASE agg = "max" -> CHOOSE m \in vals(id) : \A n \in vals(id) : m >= n
                    [] agg = "min" -> CHOOSE m \in vals(id) : \A n \in vals(id) : m <= n
                    [] agg = "sum" -> sum(id)
                    [] OTHER -> sum(id) \div Cardinality(hits(id))
        found == {id \in Entities : hits(id) # {}}
    IN  /\ ok = (open /\ \A j \in used : QueryOK(qs[j][2]))
        /\ ok => /\ BestFrom(res, KAll(k), found, sc, 5, thr)
                 /\ \A i \in 1..Len(res) : \A x \in EntityRows(res[i].id) : rows[x].txt = res[i].txt
=============================================================================

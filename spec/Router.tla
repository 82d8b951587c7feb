------------------------------- MODULE Router -------------------------------
(* Semantic routing.  A route is a name with example utterances; a text is    *)
(* routed to the route one of whose utterances is most similar to it.  "lex"  *)
(* stands for the embedding model: text -> dense vector v and sparse vector w.*)
EXTENDS VecMath
VARIABLES rc,     \* configuration: kind, sim, thr, sthr, hthr, alpha
          lex,    \* text -> [v, w]
          rts,    \* name -> set of utterances (dense routes)
          sps,    \* name -> set of utterances (sparse routes)
          fault,  \* which embeddings fail: "", "batch", "all" or one text
          shut,   \* the store below the router has been closed
          fns     \* route name -> function called for it
rvars == <<rc, lex, rts, sps, fault, shut, fns>>
NoCfg == [kind |-> "none"]
Init0 == rc = NoCfg /\ lex = EmptyFn /\ rts = EmptyFn /\ sps = EmptyFn /\ fault = "" /\ shut = FALSE /\ fns = EmptyFn
Fresh(c, lx) == /\ rc' = c /\ lex' = [t \in {lx[i].t : i \in 1..Len(lx)} |-> LET p == CHOOSE i \in 1..Len(lx) : lx[i].t = t IN [v |-> lx[p].v, w |-> lx[p].w]]
                /\ rts' = EmptyFn /\ sps' = EmptyFn /\ fault' = "" /\ shut' = FALSE /\ fns' = EmptyFn

Fails(t) == fault = "all" \/ fault = t
(* ---- changes ---- *)
WellFormed(r) == r.name # "" /\ Len(r.utts) > 0
CanStore(us) == rc.kind = "store" => ~shut /\ \A i \in 1..Len(us) : ~Fails(us[i])
Fits(m, r) == WellFormed(r) /\ r.name \notin DOMAIN m
Add(r, s, ok) ==
    LET d == rc.kind # "sparse" p == rc.kind \in {"sparse", "hybrid"} pr == IF rc.kind = "sparse" THEN r ELSE s IN
    /\ ok = ((d => Fits(rts, r) /\ CanStore(r.utts)) /\ (p => Fits(sps, pr)))
    /\ IF ok THEN /\ rts' = (IF d THEN With(rts, r.name, SeqSet(r.utts)) ELSE rts)
                  /\ sps' = (IF p THEN With(sps, pr.name, SeqSet(pr.utts)) ELSE sps) /\ UNCHANGED <<rc, lex, fault, shut, fns>>
             ELSE UNCHANGED rvars
RECURSIVE PutAll(_, _)
PutAll(m, rs) == IF rs = <<>> THEN m ELSE PutAll(With(m, Head(rs).name, SeqSet(Head(rs).utts)), Tail(rs))
AllFit(m, rs) == /\ \A i \in 1..Len(rs) : Fits(m, rs[i])
                 /\ \A i, j \in 1..Len(rs) : i # j => rs[i].name # rs[j].name
(* a batch is added completely or not at all *)
AddBatch(rs, ss, ok) ==
    /\ (rs = <<>> /\ shut) \/ ok = (AllFit(rts, rs) /\ (\A i \in 1..Len(rs) : CanStore(rs[i].utts)) /\ (rc.kind = "hybrid" => AllFit(sps, ss)))
    /\ IF ok THEN rts' = PutAll(rts, rs) /\ sps' = (IF rc.kind = "hybrid" THEN PutAll(sps, ss) ELSE sps) /\ UNCHANGED <<rc, lex, fault, shut, fns>>
             ELSE UNCHANGED rvars
Remove1(n, ok) == /\ ok = (n \in DOMAIN rts /\ ~shut)
                  /\ rts' = (IF ok THEN Without(rts, {n}) ELSE rts) /\ UNCHANGED <<rc, lex, sps, fault, shut, fns>>
Fault(f) == fault' = f /\ UNCHANGED <<rc, lex, rts, sps, shut, fns>>
ShutStore == shut' = TRUE /\ UNCHANGED <<rc, lex, rts, sps, fault, fns>>
Reload(reopen, ok) == ok = (reopen \/ ~shut) /\ shut' = (shut /\ ~reopen) /\ fns' = (IF ok THEN EmptyFn ELSE fns) /\ UNCHANGED <<rc, lex, rts, sps, fault>>

(* ---- routing ---- *)
V(t) == lex[t].v
W(t) == lex[t].w
Utts(m) == UNION {m[n] : n \in DOMAIN m}
DBest(q) == {t \in Utts(rts) : \A u \in Utts(rts) : SimGE(rc.sim, V(q), V(t), V(u))}
SBest(q) == {t \in Utts(sps) : Dot(W(q), W(t)) > 0 /\ \A u \in Utts(sps) : CosGE(W(q), W(t), W(u))}
DNames(q) == {n \in DOMAIN rts : rts[n] \cap DBest(q) # {}}
SNames(q) == {n \in DOMAIN sps : sps[n] \cap SBest(q) # {}}
DHit(q) == \E t \in DBest(q) : SimAtLeast(rc.sim, rc.thr, V(q), V(t))
SHit(q) == \E t \in SBest(q) : SimAtLeast("cosine", rc.sthr, W(q), W(t))
DScore(q, s) == IF rts = EmptyFn THEN s = 0 ELSE \E t \in DBest(q) : ScoreIs(rc.sim, s, V(q), V(t))
SScore(q, s) == IF SBest(q) = {} THEN s = 0 ELSE \E t \in SBest(q) : CosIs(s, W(q), W(t))
(* the match is the best route; below the threshold a route may still be named *)
Plain(names, hit, score, x) ==
    /\ x.matched = hit
    /\ IF hit THEN x.name \in names /\ score ELSE x.name = "" \/ (x.name \in names /\ score)
Combined(q, x) ==
    /\ DScore(q, x.ds) /\ SScore(q, x.ss)
    /\ VAbs(1000 * x.s - (rc.alpha * x.ds + (1000 - rc.alpha) * x.ss)) <= 2500
    /\ x.s >= rc.hthr + 3 => x.matched = (x.name # "")
    /\ x.s <= rc.hthr - 3 => ~x.matched
    /\ x.matched => x.name # ""
    /\ IF DHit(q) THEN x.name \in DNames(q)
       ELSE IF SHit(q) THEN x.name \in SNames(q)
       ELSE IF x.matched THEN \/ x.ds >= x.ss - 3 /\ x.name \in DNames(q)
                              \/ x.ss >= x.ds - 3 /\ x.name \in SNames(q)
                              \/ SNames(q) = {} /\ x.name \in DNames(q)
       ELSE x.name \in {""} \cup DNames(q) \cup SNames(q)
    /\ x.s >= rc.hthr + 3 /\ rts # EmptyFn => x.name # ""
Nothing(x) == x.name = "" /\ x.s = 0 /\ ~x.matched
Unaffected(q) == fault \in {"", "batch"} \/ ~\E t \in Utts(rts) : Fails(t)
(* a result carries the handler of the very route it names; handlers are not persisted *)
Handled(q, x) ==
    /\ IF x.name = "" THEN x.h = "" ELSE x.h = x.name \/ (rc.kind = "store" /\ x.h = "")
    /\ rc.kind = "hybrid" /\ DHit(q) => x.hk = "d"
    /\ rc.kind = "hybrid" /\ ~DHit(q) /\ SHit(q) => x.hk = "s"
Routed(q, x) ==
  /\ (q = "" \/ ~Unaffected(q) \/ Handled(q, x))
  /\ IF q = "" THEN Nothing(x)
    ELSE CASE rc.kind = "sparse" -> Plain(SNames(q), SHit(q), SScore(q, x.s), x)
           [] rc.kind = "hybrid" -> (~Unaffected(q)) \/ Combined(q, x)
           [] OTHER -> (~Unaffected(q)) \/ Plain(DNames(q), DHit(q), DScore(q, x.s), x)
Embeds(q) == q = "" \/ rc.kind = "sparse" \/ ~Fails(q)
Route(q, ok, x) == ok = Embeds(q) /\ (ok => Routed(q, x))
RouteBatch(qs, ok, xs) ==
    /\ ok = (\A i \in 1..Len(qs) : Embeds(qs[i]))
    /\ ok => Len(xs) = Len(qs) /\ \A i \in 1..Len(qs) : Routed(qs[i], xs[i])
(* ---- functions: the matched route's function is called, without a match none ---- *)
FAdd(n, f, req, def, ok) == ok = (f # "") /\ fns' = (IF ok THEN With(fns, n, [f |-> f, req |-> req, def |-> def]) ELSE fns) /\ UNCHANGED <<rc, lex, rts, sps, fault, shut>>
FRoute(q, e) ==
    IF q = "" \/ ~DHit(q) THEN e.ok /\ e.fn = "" /\ ~e.ran
    ELSE \E n \in DNames(q) :
           IF n \notin DOMAIN fns THEN ~e.ok
           ELSE /\ e.ok /\ e.fn = fns[n].f
                /\ e.missing = (IF fns[n].req THEN <<"zone">> ELSE <<>>)
                /\ e.ran = ~fns[n].req
                /\ e.args = (IF fns[n].def THEN <<<<"size", "medium">>>> ELSE <<>>)
                /\ e.ran => e.out = fns[n].f \o (IF fns[n].def THEN "/medium/1" ELSE "/<nil>/0")
Names == IF rc.kind = "sparse" THEN DOMAIN sps ELSE DOMAIN rts
List(ns) == Distinct(ns) /\ SeqSet(ns) = Names
Get(n, ok, us) == ok = (n \in DOMAIN rts) /\ (ok => SeqSet(us) = rts[n])
Stats(n) == n = Cardinality(DOMAIN rts)

(* ---- parameter extraction: "name value" in the text, else an enumerated    *)
(* value that occurs in it, else the default; "missing" is what is required    *)
(* and was not found                                                          *)
After(d, w) == LET i == CHOOSE i \in 1..Len(d) : d[i] = w /\ \A j \in 1..i - 1 : d[j] # w IN IF i = Len(d) THEN "" ELSE d[i + 1]
Found(p, d) == IF p.n \in SeqSet(d) /\ After(d, p.n) # "" THEN After(d, p.n)
               ELSE IF \E i \in 1..Len(p.enum) : p.enum[i] \in SeqSet(d) THEN p.enum[CHOOSE i \in 1..Len(p.enum) : p.enum[i] \in SeqSet(d) /\ \A j \in 1..i - 1 : p.enum[j] \notin SeqSet(d)]
               ELSE p.def
Extract(ps, d, ok, args, missing) ==
    /\ ok
    /\ SeqSet(args) = {<<ps[i].n, Found(ps[i], d)>> : i \in {j \in 1..Len(ps) : Found(ps[j], d) # ""}}
    /\ SeqSet(missing) = {ps[i].n : i \in {j \in 1..Len(ps) : ps[j].req /\ Found(ps[j], d) = ""}}

(* ---- sparse encoders: weights in thousandths; Ln is 10^4 times ln ---- *)
Ln == <<0, 6931, 10986, 13863, 16094, 17918, 19459, 20794, 21972, 23026, 23979, 24849, 25649, 26391, 27081, 27726, 28332, 28904, 29444, 29957>>
Stop == {"the", "a", "is", "an", "of"}
Terms(d) == SelectSeq(d, LAMBDA w : w \notin Stop)
Df(docs, w) == Cardinality({i \in 1..Len(docs) : w \in SeqSet(Terms(docs[i]))})
Tf(d, w) == Cardinality({i \in 1..Len(Terms(d)) : Terms(d)[i] = w})
RECURSIVE TotalLen(_)
TotalLen(docs) == IF docs = <<>> THEN 0 ELSE Len(Terms(Head(docs))) + TotalLen(Tail(docs))
Idf(enc, docs, w) == LET n == Len(docs) df == Df(docs, w) IN
    IF enc = "tfidf" THEN Ln[n] - Ln[df] ELSE IF df = 0 THEN 10000 ELSE Ln[2 * n + 2] - Ln[2 * df + 1]
Weight(enc, docs, d, w) ==
    IF enc = "tfidf" THEN (Tf(d, w) * Idf(enc, docs, w)) \div 10
    ELSE LET t == TotalLen(docs) tf == Tf(d, w) IN
         (Idf(enc, docs, w) * tf * 22 * t) \div (10 * (10 * tf * t + 3 * t + 9 * Len(Terms(d)) * Len(docs)))
Known(enc, docs, d) == {w \in SeqSet(Terms(d)) : enc = "bm25" \/ Df(docs, w) > 0}
Weights(enc, docs, d, k, ws, voc, top) ==
    /\ {ws[i].t : i \in 1..Len(ws)} = Known(enc, docs, d) /\ Len(ws) = Cardinality(Known(enc, docs, d))
    /\ \A i \in 1..Len(ws) : VAbs(ws[i].w - Weight(enc, docs, d, ws[i].t)) <= 3
    /\ SeqSet(voc) = UNION {SeqSet(Terms(docs[i])) : i \in 1..Len(docs)} /\ Distinct(voc)
    /\ LET wt(t) == ws[CHOOSE i \in 1..Len(ws) : ws[i].t = t].w IN
       TopK(top, IF k > 0 THEN k ELSE Len(ws), Known(enc, docs, d), LAMBDA x, y : wt(x) > wt(y) + 1)
=============================================================================

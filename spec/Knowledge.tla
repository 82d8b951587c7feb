----------------------------- MODULE Knowledge -----------------------------
(* Documents with their chunks, the entities they mention and the relations    *)
(* they state: one state for the knowledge API, the graph-augmented ingestion  *)
(* and the tools, which all work on the same documents.                        *)
EXTENDS Words
VARIABLES docs,   \* id -> title, body, url, author, meta, ver
          chunks, \* chunk id -> doc, coll, txt, n, vec (<<>> when not known)
          ents,   \* entity id -> name, type
          men,    \* {<<chunk id, entity id>>}
          rels,   \* [doc, src, from, to, type, i] -> weight (thousandths)
          emb     \* "none", "ok", "failing"
kvars == <<docs, chunks, ents, men, rels, emb>>
Init0 == docs = EmptyFn /\ chunks = EmptyFn /\ ents = EmptyFn /\ men = {} /\ rels = EmptyFn /\ emb = "none"
Fresh(c) == docs' = EmptyFn /\ chunks' = EmptyFn /\ ents' = EmptyFn /\ men' = {} /\ rels' = EmptyFn /\ emb' = IF c.emb THEN "ok" ELSE "none"
Reopen(c) == UNCHANGED <<docs, chunks, ents, men, rels>> /\ emb' = IF c.emb THEN "ok" ELSE "none"
EmbFail(on) == UNCHANGED <<docs, chunks, ents, men, rels>> /\ emb' = IF emb = "none" THEN "none" ELSE IF on THEN "failing" ELSE "ok"

(* ------------------------------- naming ---------------------------------- *)
Blank(s) == s \in {"", " ", "  "}
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Pad3(n) == Digit[(n \div 100) + 1] \o Digit[((n \div 10) % 10) + 1] \o Digit[(n % 10) + 1]
ChunkId(d, n) == "chunk:" \o d \o ":" \o Pad3(n)
DocNode(d) == "doc:" \o d
EntWord(w) == CASE w = "x-ray" -> "x_ray" [] w = "it's" -> "its" [] w = "c++" -> "c" [] w = "tag:beta" -> "tagbeta" [] w = "NOT" -> "not" [] w = "Alpha" -> "alpha"
                [] w = "Gamma" -> "gamma" [] w = "Rays" -> "rays" [] w = "Delta" -> "delta" [] w = "Zed" -> "zed" [] OTHER -> w
RECURSIVE JoinWith(_, _)
JoinWith(ws, sep) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o sep \o JoinWith(Tail(ws), sep)
Explicit == {"entity:zed", "entity:a:b"}
EntId(ws) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 /\ ws[1] \in Explicit THEN ws[1] ELSE "entity:" \o JoinWith([i \in DOMAIN ws |-> EntWord(ws[i])], "_")
GivenEntId(e) == IF e.id \in Explicit THEN e.id ELSE IF Len(e.name) = 1 /\ e.name[1] \in Explicit THEN e.name[1]
                 ELSE IF ~Blank(e.id) THEN "entity:" \o e.id ELSE EntId(e.name)   \* ids without the prefix are single lower-case words

(* the embedding of a text counts its words in three classes *)
Class(w) == IF w \in {"rays", "x-ray", "it's", "c++", "Rays"} THEN 1 ELSE IF w \in {"alpha", "alphabet", "alp", "gamma", "delta", "Alpha", "Gamma", "Delta"} THEN 2 ELSE 3
VecOf(ws) == [k \in 1..3 |-> Cardinality({i \in DOMAIN ws : Class(ws[i]) = k})]
(* ------------------------------ splitting -------------------------------- *)
HomeColl == "graphrag_chunks"
Coll(c) == IF c = "" THEN HomeColl ELSE c
Size(s) == IF s <= 0 THEN 120 ELSE s
Overlap(s, o) == LET p == IF o < 0 THEN 0 ELSE o IN IF p >= Size(s) THEN Size(s) \div 4 ELSE p
RECURSIVE Cut(_, _, _, _)
Cut(ws, from, s, step) == IF from + s >= Len(ws) THEN <<SubSeq(ws, from + 1, Len(ws))>> ELSE <<SubSeq(ws, from + 1, from + s)>> \o Cut(ws, from + step, s, step)
SplitPara(ws, s, o) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) <= s THEN <<ws>> ELSE Cut(ws, 0, s, s - o)
RECURSIVE SplitBody(_, _, _)
SplitBody(body, s, o) == IF body = <<>> THEN <<>> ELSE SplitPara(body[1], s, o) \o SplitBody(Tail(body), s, o)
Split(body, s, o) == SplitBody(body, Size(s), Overlap(s, o))
RECURSIVE Flat(_)
Flat(body) == IF body = <<>> THEN <<>> ELSE body[1] \o Flat(Tail(body))
Empty(body) == Flat(body) = <<>>

(* ------------------------------ extraction ------------------------------- *)
Capital == {"Alpha", "Gamma", "Rays", "Delta"}
RECURSIVE Runs(_, _, _)
Runs(ws, i, run) == IF i > Len(ws) THEN (IF run = <<>> THEN {} ELSE {run})
                    ELSE IF ws[i] \in Capital THEN Runs(ws, i + 1, Append(run, ws[i]))
                    ELSE (IF run = <<>> THEN {} ELSE {run}) \cup Runs(ws, i + 1, <<>>)
Names(ws) == Runs(ws, 1, <<>>)                                      \* the default extractor: runs of capitalised words
Singles(ws) == {<<w>> : w \in SeqSet(ws) \cap Capital}              \* the test extractor: capitalised words, linked to the next one
Links(ws) == LET cs == SelectSeq(ws, LAMBDA w : w \in Capital) IN {<<EntId(<<cs[i]>>), EntId(<<cs[i + 1]>>)>> : i \in 1..Len(cs) - 1}
Extracted(x, ws) == IF x = "none" THEN {} ELSE IF x = "links" THEN Singles(ws) ELSE Names(ws)
Breaks(x, ps) == x = "links" /\ \E i \in DOMAIN ps : "boom" \in SeqSet(ps[i])

(* --------------------------- writing a document -------------------------- *)
World == [d |-> docs, c |-> chunks, e |-> ents, m |-> men, r |-> rels]
Become(w) == docs' = w.d /\ chunks' = w.c /\ ents' = w.e /\ men' = w.m /\ rels' = w.r /\ UNCHANGED emb
OfDoc(w, d) == {x \in DOMAIN w.c : w.c[x].doc = d}
Cleared(w, d) == [w EXCEPT !.c = Without(@, OfDoc(w, d)), !.m = {p \in @ : p[1] \notin OfDoc(w, d)}, !.r = Without(@, {k \in DOMAIN @ : k.doc = d})]
(* how: title, body, coll, size, overlap; x: extractor; vs: are the chunks embedded *)
Placed(w, d, how, x, vs) ==
  LET ps == Split(how.body, how.size, how.overlap)
      w0 == Cleared(w, d)
      cid(n) == ChunkId(d, n - 1)
      new == [k \in {cid(n) : n \in DOMAIN ps} |-> LET n == CHOOSE n \in DOMAIN ps : cid(n) = k IN [doc |-> d, coll |-> Coll(how.coll), txt |-> ps[n], n |-> n, vec |-> IF vs THEN VecOf(ps[n]) ELSE <<>>]]
      nms == UNION {Extracted(x, ps[n]) : n \in DOMAIN ps}
      ids == {EntId(nm) : nm \in nms}
      lk == IF x = "links" THEN UNION {{[doc |-> d, src |-> cid(n), from |-> l[1], to |-> l[2], type |-> "next_to", i |-> 0] : l \in Links(ps[n])} : n \in DOMAIN ps} ELSE {}
  IN  [w0 EXCEPT !.c = new @@ @, !.e = [i \in ids |-> [name |-> CHOOSE nm \in nms : EntId(nm) = i, type |-> "entity"]] @@ @,
                 !.m = @ \cup UNION {{<<cid(n), EntId(nm)>> : nm \in Extracted(x, ps[n])} : n \in DOMAIN ps},
                 !.r = [k \in lk |-> 1000] @@ @]
Ver(w, d) == IF d \in DOMAIN w.d THEN w.d[d].ver ELSE 0
Recorded(w, d, title, body) ==   \* ingestion keeps the rest of an existing record
  LET old == IF d \in DOMAIN w.d THEN w.d[d] ELSE [url |-> "", author |-> "", meta |-> {}]
  IN  [w EXCEPT !.d = With(@, d, [title |-> title, body |-> body, url |-> old.url, author |-> old.author, meta |-> old.meta, ver |-> Ver(w, d) + 1])]
(* entities in the given order; unnamed ones are skipped, mentions in unknown chunks ignored *)
RECURSIVE AddEnts(_, _)
AddEnts(w, es) == IF es = <<>> THEN w ELSE
  LET e == es[1]  id == GivenEntId(e) IN
  AddEnts(IF id = "" THEN w ELSE [w EXCEPT !.e = With(@, id, [name |-> IF e.name # <<>> THEN e.name ELSE <<e.id>>, type |-> IF Blank(e.type) THEN "entity" ELSE e.type]),
                                           !.m = @ \cup {<<c, id>> : c \in SeqSet(e.chunks) \cap DOMAIN w.c}], Tail(es))
EntIds(es) == {GivenEntId(es[i]) : i \in DOMAIN es} \ {""}
RECURSIVE CountMen(_, _)
CountMen(w, es) == IF es = <<>> THEN 0 ELSE (IF GivenEntId(es[1]) = "" THEN 0 ELSE Len(SelectSeq(es[1].chunks, LAMBDA c : c \in DOMAIN w.c))) + CountMen(w, Tail(es))
RelKey(d, rs, i) == [doc |-> d, src |-> "", from |-> EntId(rs[i].from), to |-> EntId(rs[i].to), type |-> IF Blank(rs[i].type) THEN "related_to" ELSE rs[i].type, i |-> i - 1]
Good(w, rs) == {i \in DOMAIN rs : {EntId(rs[i].from), EntId(rs[i].to)} \subseteq DOMAIN w.e}
AddRels(w, d, rs) == [w EXCEPT !.r = [k \in {RelKey(d, rs, i) : i \in Good(w, rs)} |-> LET i == CHOOSE i \in Good(w, rs) : RelKey(d, rs, i) = k IN IF rs[i].w = 0 THEN 1000 ELSE rs[i].w] @@ @]
Extractor == IF emb = "none" THEN "none" ELSE "default"
(* a document written through the knowledge API *)
Known(w, d, how, es, rs) == AddRels(AddEnts(Placed(w, d, how, Extractor, emb # "none"), es), d, rs)

(* ------------------------------- observing ------------------------------- *)
EntTypeNames(w, c) == {w.e[p[2]].name : p \in {q \in w.m : q[1] = c /\ w.e[q[2]].type = "entity"}}
ChunkSeq(w, d) == [n \in 1..Cardinality(OfDoc(w, d)) |-> ChunkId(d, n - 1)]
IsRecord(w, d, r) ==
  LET x == w.d[d] IN
  /\ r.id = d /\ r.title = x.title /\ r.body = x.body /\ r.url = x.url /\ r.author = x.author /\ SeqSet(r.meta) = x.meta
  /\ r.chunks = ChunkSeq(w, d) /\ r.coll = w.c[ChunkId(d, 0)].coll
  /\ SeqSet(r.ents) = UNION {EntTypeNames(w, c) : c \in OfDoc(w, d)}
Edges == {[from |-> DocNode(chunks[c].doc), to |-> c, type |-> "has_chunk", w |-> 1000, doc |-> ""] : c \in DOMAIN chunks}
         \cup {[from |-> ChunkId(chunks[c].doc, chunks[c].n - 2), to |-> c, type |-> "next", w |-> 1000, doc |-> ""] : c \in {x \in DOMAIN chunks : chunks[x].n > 1}}
         \cup {[from |-> p[1], to |-> p[2], type |-> "mentions", w |-> 1000, doc |-> ""] : p \in men}
         \cup {[from |-> k.from, to |-> k.to, type |-> k.type, w |-> rels[k], doc |-> k.doc] : k \in DOMAIN rels}
EdgeCount == 2 * Cardinality(DOMAIN chunks) - Cardinality(DOMAIN docs) + Cardinality(men) + Cardinality(DOMAIN rels)
NodeIds == {DocNode(d) : d \in DOMAIN docs} \cup DOMAIN chunks \cup DOMAIN ents
NodeIs(n) == IF n.id \in DOMAIN chunks THEN n.type = "chunk" /\ n.txt = chunks[n.id].txt
             ELSE IF n.id \in DOMAIN ents THEN n.type = ents[n.id].type /\ n.txt = ents[n.id].name
             ELSE n.type = "document" /\ \E d \in DOMAIN docs : n.id = DocNode(d) /\ n.txt = IF Blank(docs[d].title) THEN Flat(docs[d].body) ELSE <<docs[d].title>>
Col(rs) == [i \in DOMAIN rs |-> rs[i].id]
TheNodes(ns, want) == Distinct(Col(ns)) /\ SeqSet(Col(ns)) = want /\ \A i \in DOMAIN ns : NodeIs(ns[i])
Dump(e) ==
  /\ e.ok
  /\ Distinct(Col(e.docs)) /\ SeqSet(Col(e.docs)) = DOMAIN docs
  /\ \A i \in DOMAIN e.docs : LET r == e.docs[i] x == docs[r.id] IN r.title = x.title /\ r.body = x.body /\ r.url = x.url /\ r.author = x.author /\ SeqSet(r.meta) = x.meta /\ r.ver = x.ver
  /\ Distinct(Col(e.chunks)) /\ SeqSet(Col(e.chunks)) = DOMAIN chunks
  /\ \A i \in DOMAIN e.chunks : LET r == e.chunks[i] x == chunks[r.id] IN r.doc = x.doc /\ r.coll = x.coll /\ r.txt = x.txt
  /\ TheNodes(e.nodes, NodeIds)
  /\ SeqSet(e.edges) = Edges /\ Len(e.edges) = EdgeCount

(* ---------------------------- the write calls ---------------------------- *)
(* cut off: the caller gave up at some moment, so either outcome is fine, but whole *)
Outcome(e, fine) == IF e.cut THEN e.ok => fine ELSE e.ok = fine
Save(e) ==
  LET w == Known(World, e.id, e, e.ents, e.rels)
      w2 == [w EXCEPT !.d = With(@, e.id, [title |-> e.title, body |-> e.body, url |-> e.url, author |-> e.author, meta |-> SeqSet(e.meta), ver |-> Ver(World, e.id) + 1])]
  IN  /\ Outcome(e, e.id # "" /\ ~Empty(e.body) /\ emb # "failing")
      /\ IF e.ok THEN /\ Become(w2) /\ IsRecord(w2, e.id, e.res)
                      /\ e.node = DocNode(e.id)
                      /\ SeqSet(e.eids) = EntIds(e.ents) \cup {p[2] : p \in {q \in Placed(World, e.id, e, Extractor, emb # "none").m : q[1] \in OfDoc(w2, e.id)}}
                      /\ Len(e.rids) = Cardinality({RelKey(e.id, e.rels, i) : i \in Good(w2, e.rels)})
         ELSE UNCHANGED kvars
Given(s, d) == IF s = <<>> THEN d ELSE s[1]
Update(e) ==
  LET is == e.id \in DOMAIN docs
      old == docs[e.id]
      how == [title |-> Given(e.o_title, old.title), body |-> Given(e.o_body, old.body), coll |-> Given(e.o_coll, chunks[ChunkId(e.id, 0)].coll),
              size |-> Given(e.o_size, 0), overlap |-> Given(e.o_overlap, 0)]
      again == e.o_title # <<>> \/ e.o_body # <<>> \/ e.o_coll # <<>> \/ e.o_meta # <<>>
      w == IF again THEN Known(World, e.id, how, e.ents, e.rels) ELSE AddRels(AddEnts(World, e.ents), e.id, e.rels)
      w2 == [w EXCEPT !.d = With(@, e.id, [title |-> how.title, body |-> how.body, url |-> Given(e.o_url, old.url), author |-> Given(e.o_author, old.author),
                                          meta |-> IF e.o_meta = <<>> THEN old.meta ELSE SeqSet(e.o_meta[1]), ver |-> old.ver + 1])]
  IN  /\ IF ~is THEN ~e.ok ELSE Outcome(e, ~Empty(how.body) /\ (again => emb # "failing"))
      /\ IF e.ok THEN Become(w2) /\ IsRecord(w2, e.id, e.res) ELSE UNCHANGED kvars
Delete(e) ==
  LET w == Cleared(World, e.id) IN
  /\ Outcome(e, e.id \in DOMAIN docs)
  /\ IF e.ok THEN e.done /\ e.rid = e.id /\ Become([w EXCEPT !.d = Without(@, {e.id})]) ELSE UNCHANGED kvars
Get(e) == e.ok = (e.id \in DOMAIN docs) /\ (e.ok => IsRecord(World, e.id, e.res))
(* ingestion without embeddings, or with them and a choice of extractor *)
Ingest(e) ==
  LET w == Recorded(Placed(World, e.id, e, "none", FALSE), e.id, e.title, e.body) IN
  /\ Outcome(e, e.id # "" /\ ~Empty(e.body))
  /\ IF e.ok THEN Become(w) /\ e.node = DocNode(e.id) /\ e.cids = ChunkSeq(w, e.id) /\ e.rcoll = Coll(e.coll) ELSE UNCHANGED kvars
Insert(e) ==
  LET x == IF e.ext = "links" THEN "links" ELSE "default"
      w == Recorded(Placed(World, e.id, e, x, TRUE), e.id, e.title, e.body) IN
  /\ Outcome(e, e.id # "" /\ ~Empty(e.body) /\ emb = "ok" /\ ~Breaks(x, Split(e.body, e.size, e.overlap)))
  /\ IF e.ok THEN Become(w) /\ e.node = DocNode(e.id) /\ e.cids = ChunkSeq(w, e.id) /\ SeqSet(e.eids) = {p[2] : p \in {q \in w.m : q[1] \in OfDoc(w, e.id)}} ELSE UNCHANGED kvars
PutEnts(e) == LET w == AddEnts(World, e.ents) IN e.ok /\ Become(w) /\ SeqSet(e.eids) = EntIds(e.ents) /\ e.count = CountMen(World, e.ents)
PutRels(e) == LET w == AddRels(World, e.doc, e.rels) IN e.ok /\ Become(w) /\ Len(e.rids) = Cardinality(Good(World, e.rels))

(* ------------------------------- retrieval ------------------------------- *)
Near1(S, ts) == LET E == {x \in Edges : ts = {} \/ x.type \in ts} IN {x.to : x \in {y \in E : y.from \in S}} \cup {x.from : x \in {y \in E : y.to \in S}}
RECURSIVE Grow(_, _, _)
Grow(S, h, ts) == IF h = 0 THEN S ELSE LET T == S \cup Near1(S, ts) IN IF T = S THEN S ELSE Grow(T, h - 1, ts)
Ball(S, h) == Grow(S \cap NodeIds, h, {})
Pool(c) == {x \in DOMAIN chunks : c = "" \/ chunks[x].coll = c}
HasCaps(q) == SeqSet(q) \cap Capital # {}
Mode(m) == IF m \in {"lexical", " Lexical"} THEN "lexical" ELSE IF m = "graph" THEN "graph" ELSE "auto"
UseGraph(m, off, q, names) == ~off /\ (Mode(m) = "graph" \/ (Mode(m) = "auto" /\ (names # <<>> \/ HasCaps(q))))
LoadEnts(m, off, q) == ~off /\ (Mode(m) = "graph" \/ (Mode(m) = "auto" /\ (q = <<>> \/ HasCaps(q))))
NamesOf(S) == {ents[x].name : x \in {y \in S \cap DOMAIN ents : ents[y].type = "entity"}}
Shown(r, withEnts) == /\ r.id \in DOMAIN chunks
                      /\ r.doc = chunks[r.id].doc /\ r.txt = chunks[r.id].txt
                      /\ SeqSet(r.ents) = IF withEnts THEN EntTypeNames(World, r.id) ELSE {}
Opt(v, d) == IF v <= 0 THEN d ELSE v
Limits(e) ==
  LET k == Opt(e.k, 4)  mr == Opt(e.mr, k) IN
  [k |-> k, h |-> Opt(e.h, 2), mr |-> mr, mc |-> Opt(e.mc, k + mr), mx |-> Opt(e.mx, 2400), pd |-> Opt(e.pd, 2)]
RECURSIVE Chars(_)
Bytes(w) == IF w = "日本語日本語日本語日本語日本語" THEN 45 ELSE Len(w)
Chars(ws) == IF ws = <<>> THEN 0 ELSE Bytes(ws[1]) + 1 + Chars(Tail(ws))
LineLen(c) == Chars(chunks[c].txt) - 1 + Len(c) + Len(chunks[c].doc) + 8
RECURSIVE SumLen(_)
SumLen(cs) == IF cs = <<>> THEN 0 ELSE LineLen(cs[1]) + SumLen(Tail(cs))
Prefix(c) == chunks[c].doc \o "/" \o c
Within(cs, e, lim) ==   \* the packed context cs respects the limits and is rendered faithfully
  /\ Len(cs) <= lim.mc
  /\ \A d \in DOMAIN docs : Cardinality({i \in DOMAIN cs : chunks[cs[i]].doc = d}) <= lim.pd
  /\ Len(cs) > 1 => e.clen <= lim.mx
  /\ e.lines = [i \in DOMAIN cs |-> <<Prefix(cs[i]), chunks[cs[i]].txt>>]
Fits(x, cs, lim) ==     \* nothing stood in the way of x
  /\ Len(cs) < lim.mc
  /\ Cardinality({i \in DOMAIN cs : chunks[cs[i]].doc = chunks[x].doc}) < lim.pd
  /\ SumLen(cs) + LineLen(x) <= lim.mx
(* must: certainly found; may: possibly found directly; g: the graph was used; names: entities found through the query *)
Retrieved(e, lim, pool, must, may, g) ==
  LET cs == Col(e.res)
      R == SeqSet(cs)
      around == IF g THEN Ball(may, lim.h) ELSE {}
      related == around \cap pool
      settled == must = may /\ \A s \in must : Cardinality(Ball({s}, lim.h)) <= 12 * lim.k
      room == Cardinality(may \cup related) <= lim.mc
  IN  /\ Distinct(cs)
      /\ R \subseteq pool /\ R \subseteq may \cup related
      /\ Cardinality(R \ may) <= lim.mr
      /\ \A i \in DOMAIN e.res : Shown(e.res[i], g)
      /\ Within(cs, e, lim)
      /\ may # {} => cs # <<>>
      /\ room => \A x \in must \ R : ~Fits(x, cs, lim)
      /\ (room /\ g /\ settled /\ Cardinality(related \ may) <= lim.mr) => \A x \in related \ R : ~Fits(x, cs, lim)
      /\ IF g /\ may # {} THEN /\ UNION {EntTypeNames(World, c) : c \in R} \subseteq SeqSet(e.ents)
                               /\ settled => NamesOf(around) \subseteq SeqSet(e.ents)
                               /\ SeqSet(e.ents) \subseteq NamesOf(around \cup {p[2] : p \in {q \in men : q[1] \in may \cup related}})
         ELSE e.ents = <<>>
Meaning(e) ==   \* seeds by embedding
  LET lim == Limits(e)
      pool == Pool(Coll(e.coll))
      known == \A x \in pool : chunks[x].vec # <<>>
      gt(x, y) == SimGT("cosine", VecOf(e.q), chunks[x].vec, chunks[y].vec)
      must == IF known THEN {x \in pool : Cardinality({y \in pool \ {x} : ~gt(x, y)}) < lim.k} ELSE {}
      may == IF known THEN {x \in pool : Cardinality({y \in pool : gt(y, x)}) < lim.k} ELSE pool
  IN  /\ e.ok = (e.q # <<>> /\ emb = "ok")
      /\ e.ok => Retrieved(e, lim, pool, must, may, UseGraph(e.mode, e.off, e.q, <<>>))
AskedIds(names) == {EntId(names[i]) : i \in DOMAIN names} \cap DOMAIN ents
Wording(e) ==   \* seeds by words and by the entities asked for
  LET lim == Limits(e)
      pool == Pool(Coll(e.coll))
      g == UseGraph(e.mode, e.off, e.q, e.names)
      T == {x \in pool : Found(chunks[x].txt, e.q, e.kw, e.alt)}
      asked == IF ~g THEN {} ELSE IF e.names # <<>> THEN AskedIds(e.names) ELSE {EntId(nm) : nm \in Names(e.q)} \cap DOMAIN ents
      E == Ball(asked, lim.h) \cap pool
      must == (IF Cardinality(T) <= lim.k THEN T ELSE {}) \cup (IF Cardinality(E) <= lim.k THEN E ELSE {})
  IN  /\ e.ok = (e.q # <<>>)
      /\ e.ok => Retrieved(e, lim, pool, must, T \cup E, g)
ByDocument(e) ==   \* hits of a knowledge search: the chunks found, grouped
  /\ Distinct(Col(e.hits)) /\ SeqSet(Col(e.hits)) = {chunks[e.res[i].id].doc : i \in DOMAIN e.res}
  /\ e.down
  /\ \A i \in DOMAIN e.hits :
        LET h == e.hits[i]  x == docs[h.id]  mine == {j \in DOMAIN e.res : e.res[j].doc = h.id} IN
        /\ h.title = x.title /\ h.url = x.url /\ h.author = x.author /\ SeqSet(h.meta) = x.meta
        /\ Distinct(h.chunks) /\ SeqSet(h.chunks) = {e.res[j].id : j \in mine}
        /\ SeqSet(h.ents) = UNION {SeqSet(e.res[j].ents) : j \in mine}
        (* scored, and represented, by its best chunk *)
        /\ {j \in mine : e.res[j].s > h.s} = {}
        /\ h.valid /\ {j \in mine : e.res[j].s >= h.s - 1 /\ IsPrefix(h.snip, chunks[e.res[j].id].txt)} # {}
Search(e) == (IF emb = "none" \/ Mode(e.mode) = "lexical" THEN Wording(e) ELSE Meaning(e)) /\ (e.ok => ByDocument(e))
ByText(e) ==
  LET pool == Pool(e.coll)
      T == {x \in pool : Found(chunks[x].txt, e.q, e.kw, e.alt)} IN
  /\ e.ok = (e.q # <<>> \/ e.alt # <<>> \/ Keys(e.kw) # {})
  /\ e.ok => /\ TopK(Col(e.res), Opt(e.k, 10), T, LAMBDA x, y : Outdoes(e.q, e.kw, e.alt, chunks[x].txt, chunks[y].txt))
             /\ \A i \in DOMAIN e.res : Shown(e.res[i], LoadEnts(e.mode, e.off, e.q))
Plainly(e) ==   \* full-text search as such: all words must occur
  LET T == {x \in Pool(e.coll) : AllIn(e.q, chunks[x].txt)} IN
  /\ e.ok = (e.q # <<>>)
  /\ e.ok => TopK(e.ids, Opt(e.k, 10), T, LAMBDA x, y : Outdoes(e.q, <<>>, <<>>, chunks[x].txt, chunks[y].txt))
ByEntities(e) ==
  LET h == Opt(e.h, 1)
      score(x) == Cardinality({i \in DOMAIN e.names : EntId(e.names[i]) \in NodeIds /\ x \in Ball({EntId(e.names[i])}, h)})
      T == {x \in DOMAIN chunks : score(x) > 0}
      k == Opt(e.k, 10)
      wide == {i \in DOMAIN e.names : EntId(e.names[i]) \in NodeIds /\ Cardinality(Ball({EntId(e.names[i])}, h) \cap DOMAIN chunks) > 8 * k} # {}  \* the walk stops early
  IN
  /\ e.ok
  /\ TopK(Col(e.res), k, T, LAMBDA x, y : ~wide /\ score(x) > score(y))
  /\ \A i \in DOMAIN e.res : Shown(e.res[i], TRUE)
Expand(e) ==
  LET h == Opt(e.h, 1)
      ts == SeqSet(e.ets)
      typed(n) == e.nts = <<>> \/ (IF n \in DOMAIN chunks THEN "chunk" ELSE IF n \in DOMAIN ents THEN ents[n].type ELSE "document") \in SeqSet(e.nts)
      start == SeqSet(e.ids) \ {""}
      full == (start \cap NodeIds) \cup {n \in UNION {Grow({s}, h, ts) \ {s} : s \in start} : typed(n)}
      got == SeqSet(Col(e.nodes)) IN
  /\ e.ok
  /\ TheNodes(e.nodes, got) /\ got \subseteq full /\ start \cap NodeIds \subseteq got
  /\ IF e.lim <= 0 THEN got = full ELSE Cardinality(got \ start) <= e.lim * Cardinality(start)
  /\ SeqSet(e.edges) = {x \in Edges : {x.from, x.to} \subseteq got}
GetNodes(e) == e.ok /\ TheNodes(e.nodes, SeqSet(e.ids) \cap NodeIds)
GetChunks(e) ==
  /\ e.ok /\ Col(e.res) = SelectSeq(e.ids, LAMBDA c : c \in DOMAIN chunks)
  /\ \A i \in DOMAIN e.res : Shown(e.res[i], LoadEnts(e.mode, e.off, <<>>))
RECURSIVE IsSub(_, _)
IsSub(a, b) == a = <<>> \/ (b # <<>> /\ IF a[1] = b[1] THEN IsSub(Tail(a), Tail(b)) ELSE IsSub(a, Tail(b)))
Context(e) ==
  LET lim == [mc |-> Opt(e.mc, 8), mx |-> Opt(e.mx, 2400), pd |-> Opt(e.pd, 2)]
      all == SelectSeq(e.ids, LAMBDA c : c \in DOMAIN chunks)
      cs == Col(e.res) IN
  /\ e.ok /\ IsSub(cs, all) /\ Within(cs, e, lim)
  /\ all # <<>> => cs # <<>>
  /\ \A i \in DOMAIN all : all[i] \notin SeqSet(cs) => ~Fits(all[i], cs, lim)
  /\ \A i \in DOMAIN e.res : Shown(e.res[i], LoadEnts(e.mode, e.off, <<>>))
=============================================================================

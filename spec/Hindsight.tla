----------------------------- MODULE Hindsight -----------------------------
(* Agent memory: banks with a character, memories retained in them, recall by  *)
(* several strategies, observations drawn from what was recalled, and          *)
(* conversations whose messages trigger extraction in the background.  A       *)
(* memory is identified by its bank and its id.  Moments are milliseconds      *)
(* since the start; a moment chosen by the implementation is an interval.      *)
EXTENDS Words
VARIABLES bank,    \* bank id -> [name, desc, back, sk, li, em, made]
          mems,    \* <<bank, id>> -> [type, txt, vec, ents, conf, meta, lo, hi, src, otype, why]
          raw,     \* embeddings of other collections: id -> text
          talk,    \* session -> sequence of [id, role, txt]
          auto,    \* [on, win, every, roles]
          due,     \* qualifying messages since the last extraction
          ext,     \* the extractor: "none", "ok", "failing"
          rer      \* the reranker: "none", "rev", "fail", "empty", "drop"
hvars == <<bank, mems, raw, talk, auto, due, ext, rer>>
Off == [on |-> FALSE, win |-> 6, every |-> 2, roles |-> <<>>]
Init0 == bank = EmptyFn /\ mems = EmptyFn /\ raw = EmptyFn /\ talk = EmptyFn /\ auto = Off /\ due = 0 /\ ext = "none" /\ rer = "none"
Fresh == bank' = EmptyFn /\ mems' = EmptyFn /\ raw' = EmptyFn /\ talk' = EmptyFn /\ auto' = Off /\ due' = 0 /\ ext' = "none" /\ rer' = "none"
Hooks == <<auto, due, ext, rer>>
Reopened == auto' = Off /\ due' = 0 /\ ext' = "none" /\ rer' = "none"
Reopen == Reopened /\ UNCHANGED <<bank, mems, raw, talk>>

(* ------------------------------- banks ---------------------------------- *)
Trait(x) == IF x = 0 THEN 3 ELSE x          \* 0: no character given
CreateBank(e) ==
  /\ e.ok = (e.id \notin DOMAIN bank /\ e.id # "")
  /\ bank' = IF e.ok THEN With(bank, e.id, [name |-> e.name, desc |-> e.desc, back |-> e.back, sk |-> Trait(e.sk), li |-> Trait(e.li), em |-> Trait(e.em), made |-> e.made]) ELSE bank
  /\ UNCHANGED <<mems, raw, talk, Hooks>>
DeleteBank(e) == /\ e.ok = (e.id \in DOMAIN bank)
                 /\ bank' = Without(bank, {e.id})
                 /\ UNCHANGED <<mems, raw, talk, Hooks>>
BankIs(b, r) == b \in DOMAIN bank /\ r.id = b /\ [name |-> r.name, desc |-> r.desc, back |-> r.back, sk |-> r.sk, li |-> r.li, em |-> r.em, made |-> r.made] = bank[b]
GetBank(e) == e.found = (e.id \in DOMAIN bank) /\ (e.found => BankIs(e.id, e.res))
ListBanks(e) == Len(e.res) = Cardinality(DOMAIN bank) /\ {e.res[i].id : i \in DOMAIN e.res} = DOMAIN bank /\ \A i \in DOMAIN e.res : BankIs(e.res[i].id, e.res[i])

(* ------------------------------ memories -------------------------------- *)
NaNs == {999999, 999998, 999997}
Finite(v) == \A i \in DOMAIN v : v[i] \notin NaNs
Reserved == {"bank_id", "memory_type", "created_at", "confidence", "entities", "created_at_nsec", "memory_id"}
Derived == {"source_memory_ids", "observation_type", "reasoning"}
Extra(ps) == {p \in SeqSet(ps) : p[1] \notin Reserved}
Believed(t) == t \in {"opinion", "observation"}
MemOf(m, lo, hi) == [type |-> m.type, txt |-> m.txt, vec |-> m.v, ents |-> m.ents, conf |-> IF Believed(m.type) THEN m.conf ELSE 0, meta |-> Extra(m.meta),
                     lo |-> lo, hi |-> hi, src |-> <<>>, otype |-> "", why |-> "", sub |-> FALSE]
Of(b) == {x \in DOMAIN mems : x[1] = b}
Retain(e) ==
  /\ e.ok = Finite(e.v)
  /\ e.ok => e.rid # "" /\ (e.id # "" => e.rid = e.id) /\ (e.id = "" => <<e.bank, e.rid>> \notin DOMAIN mems)
  /\ mems' = IF e.ok THEN With(mems, <<e.bank, e.rid>>, [MemOf(e, IF e.at # <<>> THEN e.at[1] ELSE e.t0, IF e.at # <<>> THEN e.at[1] ELSE e.t1) EXCEPT !.sub = e.at # <<>>]) ELSE mems
  /\ UNCHANGED <<bank, raw, talk, Hooks>>
RECURSIVE RetainAll(_, _, _, _)
RetainAll(m, ms, lo, hi) == IF ms = <<>> THEN m ELSE RetainAll(With(m, <<ms[1].bank, ms[1].id>>, MemOf(ms[1], lo, hi)), Tail(ms), lo, hi)
Retains(e) == /\ e.ok /\ mems' = RetainAll(mems, e.ms, e.t0, e.t1)     \* different memories, at once
              /\ UNCHANGED <<bank, raw, talk, Hooks>>
RawPut(e) == e.ok /\ raw' = With(raw, e.id, e.txt) /\ UNCHANGED <<bank, mems, talk, Hooks>>
RawGet(e) == e.ok = (e.id \in DOMAIN raw) /\ (e.ok => e.res = raw[e.id])
SubMs == 123457    \* nanoseconds every moment chosen by the caller lies after its millisecond
VecIs(r, v) == v = <<>> \/ r = v            \* what stands for a missing vector is not known
Shown(x, r) ==
  LET m == mems[x] IN
  /\ r.id = x[2] /\ r.bank = x[1] /\ r.type = m.type /\ r.txt = m.txt /\ VecIs(r.vec, m.vec) /\ r.ents = m.ents /\ r.conf = m.conf
  /\ m.lo <= r.at /\ r.at <= m.hi /\ (m.sub => r.ns = SubMs)
  /\ {p \in Extra(r.meta) : m.type = "observation" => p[1] \notin Derived} = m.meta

(* ------------------------------- recall --------------------------------- *)
(* strategies: how each orders what it may return *)
Closer(qv, x, y) == LET a == mems[x].vec  b == mems[y].vec IN a # <<>> /\ b # <<>> /\ SimGT("cosine", qv, a, b)
Matches(q, x) == q # <<>> /\ AllIn(q, mems[x].txt)
Stronger(q, x, y) ==    \* better keyword match for a single word
  LET w == q[1]  n(z) == Count(mems[z].txt, LAMBDA t : t = w)  l(z) == Len(Terms(mems[z].txt)) IN
  Len(q) = 1 /\ n(x) > 0 /\ ((n(x) >= n(y) /\ l(x) < l(y)) \/ (n(x) > n(y) /\ l(x) <= l(y)))
KwStronger(q, x, y) == Matches(q, x) /\ (~Matches(q, y) \/ Stronger(q, x, y))
Better(s, r, x, y) ==
  CASE s = "keyword" /\ r.qv = <<>> -> KwStronger(r.q, x, y)
    [] s = "keyword" /\ r.qv # <<>> -> Closer(r.qv, x, y) /\ (~Matches(r.q, y) \/ KwStronger(r.q, x, y))
    [] OTHER -> Closer(r.qv, x, y)
InTime(r, x, certainly) ==
  LET m == mems[x] IN
  IF certainly THEN (r.from # <<>> => m.lo >= r.from[1] + (IF m.sub THEN 0 ELSE 1)) /\ (r.to # <<>> => m.hi + (IF m.sub THEN 0 ELSE 1) <= r.to[1])
  ELSE (r.from # <<>> => m.hi >= r.from[1]) /\ (r.to # <<>> => m.lo <= r.to[1])
Within(s, r, certainly) ==     \* what strategy s chooses from
  LET b == Of(r.bank) IN
  CASE s = "semantic" -> b
    [] s = "keyword"  -> IF r.qv # <<>> THEN b ELSE {x \in b : Matches(r.q, x)}
    [] s = "temporal" -> IF r.qv = <<>> THEN {} ELSE {x \in b : InTime(r, x, certainly)}
    [] s = "entity"   -> IF r.qv = <<>> THEN {} ELSE {x \in b : SeqSet(mems[x].ents) \cap SeqSet(r.ents) # {}}
Asked(r) == (IF r.memory /\ r.qv # <<>> THEN {"semantic"} ELSE {}) \cup (IF r.priming /\ r.q # <<>> THEN {"keyword"} ELSE {})
            \cup (IF r.temporal THEN {"temporal"} ELSE {}) \cup (IF r.ents # <<>> THEN {"entity"} ELSE {})
Depth(r) == IF r.sk # 0 THEN r.sk ELSE IF r.k # 0 THEN r.k ELSE 10
All == 1000000
May(r, s) == {x \in Within(s, r, FALSE) : Cardinality({y \in Within(s, r, TRUE) : Better(s, r, y, x)}) < Depth(r)}
Must(r, s) == LET F == Within(s, r, FALSE) IN
              IF s = "keyword" /\ r.qv # <<>> THEN (IF Cardinality(F) <= Depth(r) THEN F ELSE {})
              ELSE {x \in Within(s, r, TRUE) : Cardinality({y \in F : y # x /\ ~Better(s, r, x, y)}) < Depth(r)}
(* ids (of the bank asked) answer the request, at most k of them *)
Answers(r, ids, k) ==
  LET xs == [i \in DOMAIN ids |-> <<r.bank, ids[i]>>]
      R == SeqSet(xs)
      n == Depth(r)
      S == Asked(r)
      E(s) == Within(s, r, TRUE)
      upper == UNION {May(r, s) : s \in S}
      lower == UNION {Must(r, s) : s \in S}
  IN  /\ Distinct(xs) /\ R \subseteq upper
      /\ Len(ids) <= k /\ Len(ids) >= MinOf(k, Cardinality(lower))
      /\ Len(ids) < k => lower \subseteq R
      /\ Cardinality(S) = 1 => Len(ids) <= n
      (* what outranks a result under every strategy that could have returned it comes before it *)
      /\ \A j \in DOMAIN xs : \A x \in upper :
           (x # xs[j] /\ \A s \in S : (xs[j] \notin May(r, s) \/ (x \in E(s) /\ Better(s, r, x, xs[j])))) => x \in {xs[i] : i \in 1..(j - 1)}
Cut(ids, k) == IF k > 0 /\ Len(ids) > k THEN SubSeq(ids, 1, k) ELSE ids
Reordered(ids) == CASE rer = "rev"  -> Reverse(ids)
                    [] rer = "drop" -> IF Len(ids) > 1 THEN Tail(ids) ELSE ids
                    [] OTHER -> ids
(* r: the request; ids: what came back; e.asked: what the reranker was given, if it was called *)
Recalled(r, asked, ids) ==
  LET lim == IF r.k > 0 THEN r.k ELSE All IN
  IF rer = "none" \/ r.q = <<>> THEN asked = <<>> /\ Answers(r, ids, lim)
  ELSE IF asked = <<>> THEN ids = <<>> /\ Answers(r, ids, All)
  ELSE asked[1].q = r.q /\ Len(asked) = 1 /\ asked[1].ids # <<>> /\ Answers(r, asked[1].ids, All) /\ ids = Cut(Reordered(asked[1].ids), r.k)
Ids(res) == [i \in DOMAIN res |-> res[i].id]
AllShown(b, res) == \A i \in DOMAIN res : <<b, res[i].id>> \in DOMAIN mems /\ Shown(<<b, res[i].id>>, res[i])
(* with several strategies, the score is the sum over them of 1 / (60 + rank) *)
Least(r, s, x) == IF x \notin Must(r, s) THEN 0
                  ELSE 10000000 \div (60 + MinOf(Depth(r), 1 + Cardinality({y \in Within(s, r, FALSE) : y # x /\ ~Better(s, r, x, y)})))
Most(r, s, x) == IF x \notin May(r, s) THEN 0 ELSE 10000000 \div (60 + 1 + Cardinality({y \in Within(s, r, TRUE) : Better(s, r, y, x)}))
Fused(r, res) ==
  /\ \A i \in DOMAIN res : LET x == <<r.bank, res[i].id>>  sum(F(_)) == FoldSet(LAMBDA s, a : a + F(s), 0, Asked(r)) IN
       sum(LAMBDA s : Least(r, s, x)) <= res[i].f /\ res[i].f <= sum(LAMBDA s : Most(r, s, x)) + 5
  /\ rer = "none" \/ r.q = <<>> => \A i \in 1..Len(res) - 1 : res[i].f >= res[i + 1].f
Recall(e) ==
  /\ e.ok /\ AllShown(e.req.bank, e.res) /\ Recalled(e.req, e.asked, Ids(e.res))
  /\ LET S == Asked(e.req) IN
     /\ Cardinality(S) > 1 => Fused(e.req, e.res)
     /\ Cardinality(S) = 1 => \A i \in DOMAIN e.res :
        /\ e.res[i].by \in S
        /\ (e.res[i].by # "keyword" /\ mems[<<e.req.bank, e.res[i].id>>].vec # <<>>) => CosIs(e.res[i].s, e.req.qv, mems[<<e.req.bank, e.res[i].id>>].vec)
Reflect(e) ==
  /\ e.ok /\ AllShown(e.req.bank, e.res) /\ Recalled(e.req, e.asked, Ids(e.res))
  /\ e.utf8
  /\ e.budget > 0 => e.tokens <= e.budget /\ e.bytes <= 4 * e.budget + 3
  /\ (e.budget <= 0 \/ e.bytes < 4 * e.budget - 3) => e.shows /\ e.tokens = e.bytes \div 4

(* ---------------------------- observations ------------------------------ *)
Preference == {"prefers", "likes", "enjoys", "chooses"}
Causal == {"because", "since", "caused"}
Short == {"beta", "the", "in", "show", "bob", "ann", "anna", "a,b", "a", "b", "a's", "b's"}    \* up to four characters
Word(w) == Atoms(w)[1]
Says(x, ws) == {Word(mems[x].txt[i]) : i \in DOMAIN mems[x].txt} \cap ws # {}
Certainty(n, b) ==
  LET base == MinOf(1000 * n, 9000)
      adj == IF b \notin DOMAIN bank THEN base ELSE IF bank[b].sk >= 4 THEN (base * 8) \div 10 ELSE IF bank[b].sk <= 2 THEN (base * 11) \div 10 ELSE base
  IN  MaxOf(1000, MinOf(10000, adj))
Wanted(types, t) == types = <<>> \/ t \in SeqSet(types)
Observe(e) ==
  LET R == {<<e.req.bank, e.res[i].id>> : i \in DOMAIN e.res}
      names == UNION {SeqSet(mems[x].ents) : x \in R}
      about(n) == {x \in R : n \in SeqSet(mems[x].ents)}
      idsOf(X) == {x[2] : x \in X}
      topics(t) == IF ~Wanted(e.types, t) THEN {}
                   ELSE IF t = "preference" THEN {n \in names : Cardinality(about(n)) >= 2 /\ \E x \in about(n) : Says(x, Preference)}
                   ELSE {n \in names : Cardinality(about(n)) >= 2 /\ \E x \in about(n) : Says(x, Causal)}
      words(x) == mems[x].txt
      times(w) == FoldSet(LAMBDA x, a : a + Cardinality({i \in DOMAIN words(x) : Word(words(x)[i]) = w}), 0, R)
      theme == Wanted(e.types, "generalization") /\ Cardinality(R) >= 3 /\ \E w \in (UNION {{Word(words(x)[i]) : i \in DOMAIN words(x)} : x \in R}) \ Short : times(w) >= 2
      got(t) == {i \in DOMAIN e.obs : e.obs[i].otype = t}
      obs == {e.obs[i] : i \in DOMAIN e.obs}
      kept == {o \in obs : o.conf >= e.min}
      fresh == [y \in {<<e.req.bank, o.id>> : o \in kept} |-> LET o == CHOOSE z \in kept : z.id = y[2] IN
                  [type |-> "observation", txt |-> o.txt, vec |-> <<>>, ents |-> <<>>, conf |-> o.conf, meta |-> {}, lo |-> e.t0, hi |-> e.t1, src |-> o.src, otype |-> o.otype, why |-> o.why, sub |-> FALSE]]
  IN  /\ e.ok /\ AllShown(e.req.bank, e.res) /\ Recalled(e.req, e.asked, Ids(e.res))
      /\ \A t \in {"preference", "causal"} :
           /\ Cardinality(got(t)) = Cardinality(topics(t))
           /\ \A n \in topics(t) : LET X == idsOf(about(n)) IN Cardinality({i \in got(t) : SeqSet(e.obs[i].src) = X}) = Cardinality({m \in topics(t) : idsOf(about(m)) = X})
      /\ Cardinality(got("generalization")) = (IF theme THEN 1 ELSE 0)
      /\ \A i \in got("generalization") : SeqSet(e.obs[i].src) = idsOf(R)
      /\ \A i \in DOMAIN e.obs : LET o == e.obs[i] IN
           /\ o.otype \in {"preference", "causal", "generalization"} /\ Distinct(o.src) /\ o.conf = Certainty(Len(o.src), e.req.bank) /\ o.bank = e.req.bank
           /\ o.id # "" /\ <<o.bank, o.id>> \notin DOMAIN mems /\ (o.lo >= e.t0 /\ o.lo <= e.t1)
      /\ Distinct([i \in DOMAIN e.obs |-> e.obs[i].id])
      /\ mems' = [x \in DOMAIN mems \cup DOMAIN fresh |-> IF x \in DOMAIN fresh THEN fresh[x] ELSE mems[x]]
      /\ UNCHANGED <<bank, raw, talk, Hooks>>
AddObs(e) ==
  /\ e.ok
  /\ e.rid # "" /\ (e.id # "" => e.rid = e.id) /\ (e.id = "" => <<e.bank, e.rid>> \notin DOMAIN mems)
  /\ mems' = With(mems, <<e.bank, e.rid>>, [type |-> "observation", txt |-> e.txt, vec |-> e.v, ents |-> <<>>, conf |-> e.conf, meta |-> {},
                                            lo |-> IF e.at # <<>> THEN e.at[1] ELSE e.t0, hi |-> IF e.at # <<>> THEN e.at[1] ELSE e.t1, src |-> e.src, otype |-> e.otype, why |-> e.why, sub |-> e.at # <<>>])
  /\ UNCHANGED <<bank, raw, talk, Hooks>>
Observations(e) ==
  LET X == {x \in Of(e.bank) : mems[x].type = "observation"} IN
  /\ e.ok /\ Len(e.res) = Cardinality(X) /\ {<<e.bank, e.res[i].id>> : i \in DOMAIN e.res} = X
  /\ \A i \in DOMAIN e.res : LET o == e.res[i]  m == mems[<<e.bank, o.id>>] IN
       o.bank = e.bank /\ o.txt = m.txt /\ o.conf = m.conf /\ o.src = m.src /\ o.otype = m.otype /\ o.why = m.why /\ m.lo <= o.lo /\ o.lo <= m.hi /\ (m.sub => o.ns = SubMs) /\ VecIs(o.vec, m.vec)

(* ----------------------- extraction from messages ------------------------ *)
Usable(f) == f.id # "" /\ f.v # <<>>
Learnt(f) == Usable(f) /\ Finite(f.v)
RECURSIVE Learn(_, _, _, _, _)
Learn(m, b, facts, lo, hi) ==
  IF facts = <<>> THEN m
  ELSE LET f == facts[1]  m1 == IF Learnt(f) THEN With(m, <<b, f.id>>, MemOf([f EXCEPT !.type = IF f.type = "" THEN "world" ELSE f.type], lo, hi)) ELSE m
       IN  Learn(m1, b, Tail(facts), lo, hi)
Tally(facts, P(_)) == Cardinality({i \in DOMAIN facts : P(facts[i])})
FromText(e) ==      \* an extractor that yields the given facts
  /\ e.ok = (ext # "none" /\ e.bank # "" /\ (e.n > 0 => ext = "ok"))
  /\ IF e.ok /\ e.n > 0
     THEN /\ mems' = Learn(mems, e.bank, e.facts, e.t0, e.t1)
          /\ e.retained = Tally(e.facts, Learnt) /\ e.skipped = Tally(e.facts, LAMBDA f : ~Usable(f)) /\ e.errors = Len(e.facts) - e.retained
     ELSE UNCHANGED mems /\ (e.ok => e.retained = 0 /\ e.skipped = 0 /\ e.errors = 0)
  /\ UNCHANGED <<bank, raw, talk, Hooks>>
SetExt(e) == ext' = e.mode /\ UNCHANGED <<bank, mems, raw, talk, auto, due, rer>>
SetRer(e) == rer' = e.mode /\ UNCHANGED <<bank, mems, raw, talk, auto, due, ext>>
SetAuto(e) == /\ auto' = IF e.nil THEN Off ELSE [on |-> e.on, win |-> IF e.win <= 0 THEN 6 ELSE e.win, every |-> IF e.every <= 0 THEN 2 ELSE e.every, roles |-> e.roles]
              /\ due' = IF ~e.nil /\ e.on THEN 0 ELSE due
              /\ UNCHANGED <<bank, mems, raw, talk, ext, rer>>
CreateSession(e) == /\ e.ok = (e.sid \notin DOMAIN talk)
                    /\ talk' = IF e.ok THEN With(talk, e.sid, <<>>) ELSE talk
                    /\ UNCHANGED <<bank, mems, raw, Hooks>>
MsgIds(t) == UNION {{t[s][i].id : i \in DOMAIN t[s]} : s \in DOMAIN t}
Accepts(t, m) == m.sid \in DOMAIN t /\ m.id \notin MsgIds(t)
Qualifies(m) == auto.on /\ ext # "none" /\ (auto.roles = <<>> \/ m.role \in SeqSet(auto.roles))
Added(t, m) == With(t, m.sid, Append(t[m.sid], [id |-> m.id, role |-> m.role, txt |-> m.txt]))
(* messages sent one after another: what the sessions hold, how many are due, when an extraction was started *)
RECURSIVE Sent(_, _)
Sent(st, ms) ==
  IF ms = <<>> THEN st
  ELSE LET m == ms[1]
           st1 == IF ~Accepts(st.t, m) THEN [st EXCEPT !.oks = Append(@, FALSE)]
                  ELSE LET t1 == Added(st.t, m)  d == IF Qualifies(m) THEN st.d + 1 ELSE st.d  fire == Qualifies(m) /\ d >= auto.every
                       IN  [t |-> t1, d |-> IF fire THEN 0 ELSE d, oks |-> Append(st.oks, TRUE),
                            fired |-> IF fire THEN Append(st.fired, [sid |-> m.sid, bank |-> m.bank, pos |-> Len(t1[m.sid])]) ELSE st.fired]
       IN  Sent(st1, Tail(ms))
MIds(s) == [i \in DOMAIN s |-> s[i].id]
Window(s, p) == MIds(SubSeq(s, MaxOf(1, p - auto.win + 1), p))     \* the latest messages when there were p
SessionOf(t, c) == CHOOSE s \in DOMAIN t : c.ids[1] \in {t[s][i].id : i \in DOMAIN t[s]}
EndOf(s, c) == CHOOSE p \in DOMAIN s : s[p].id = c.ids[Len(c.ids)]
(* a call of the extractor saw the latest messages of one session, oldest first *)
Genuine(t, c) == /\ c.ids # <<>> /\ SeqSet(c.ids) \subseteq MsgIds(t)
                 /\ LET s == t[SessionOf(t, c)] IN c.ids[Len(c.ids)] \in SeqSet(MIds(s)) /\ c.ids = Window(s, EndOf(s, c)) /\ c.said
CallFacts(c) == IF c.err THEN <<>> ELSE c.facts
RECURSIVE LearnAll(_, _, _, _)
LearnAll(m, calls, lo, hi) == IF calls = <<>> THEN m ELSE LearnAll(Learn(m, calls[1].bank, CallFacts(calls[1]), lo, hi), Tail(calls), lo, hi)
(* every extraction that was started happened, once, and saw at least the message that started it *)
Answered(t, fired, calls) ==
  /\ Len(calls) = Len(fired)
  /\ \A i \in DOMAIN calls : Genuine(t, calls[i]) /\ calls[i].err = (ext = "failing")
  /\ \A j \in DOMAIN fired :
       LET f == fired[j] IN
       Cardinality({i \in DOMAIN calls : calls[i].bank = f.bank /\ SessionOf(t, calls[i]) = f.sid /\ EndOf(t[f.sid], calls[i]) >= f.pos})
         >= Cardinality({i \in DOMAIN fired : fired[i].bank = f.bank /\ fired[i].sid = f.sid /\ fired[i].pos >= f.pos})
Messages(e) ==      \* sent in order; extraction waited for at the end, or after each when there is one
  LET st == Sent([t |-> talk, d |-> due, oks |-> <<>>, fired |-> <<>>], e.ms) IN
  /\ e.oks = st.oks
  /\ Answered(st.t, st.fired, e.calls)
  /\ Len(e.ms) = 1 => \A i \in DOMAIN e.calls : EndOf(st.t[e.ms[1].sid], e.calls[i]) = st.fired[i].pos
  /\ talk' = st.t
  /\ mems' = LearnAll(mems, e.calls, e.t0, e.t1)
  /\ IF e.closed THEN Reopened ELSE due' = st.d /\ UNCHANGED <<auto, ext, rer>>
  /\ UNCHANGED <<bank, raw>>
LastN(s, n) == IF n < 0 \/ n >= Len(s) THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Parallel(e) ==      \* sent at once, to existing sessions, with new ids; e.hist is what the sessions held afterwards
  LET h(s) == e.hist[CHOOSE i \in DOMAIN e.hist : e.hist[i].sid = s].res
      sids == {e.ms[i].sid : i \in DOMAIN e.ms}
      t1 == [s \in DOMAIN talk |-> IF s \in sids THEN h(s) ELSE talk[s]]
      q == Cardinality({i \in DOMAIN e.ms : Qualifies(e.ms[i])})
      n == IF q = 0 THEN 0 ELSE (due + q) \div auto.every
  IN  /\ \A i \in DOMAIN e.oks : e.oks[i]
      /\ \A s \in sids : /\ Len(h(s)) = Len(talk[s]) + Cardinality({i \in DOMAIN e.ms : e.ms[i].sid = s})
                         /\ SubSeq(h(s), 1, Len(talk[s])) = talk[s]
                         /\ {[id |-> e.ms[i].id, role |-> e.ms[i].role, txt |-> e.ms[i].txt] : i \in {j \in DOMAIN e.ms : e.ms[j].sid = s}} = SeqSet(SubSeq(h(s), Len(talk[s]) + 1, Len(h(s))))
      /\ Len(e.calls) = n
      /\ \A i \in DOMAIN e.calls : LET c == e.calls[i] IN
           /\ c.ids # <<>> /\ SeqSet(c.ids) \subseteq MsgIds(t1) /\ c.said /\ c.err = (ext = "failing")
           (* messages sent at once may become visible in any order *)
           /\ LET s == SessionOf(t1, c)  old == SeqSet(MIds(talk[s]))  seen == SeqSet(c.ids) IN
              /\ c.ids = LastN(SelectSeq(MIds(t1[s]), LAMBDA x : x \in old \cup seen), auto.win)
              /\ seen \ old # {}
              /\ {j \in DOMAIN e.ms : e.ms[j].sid = s /\ e.ms[j].bank = c.bank /\ Qualifies(e.ms[j])} # {}
      /\ talk' = t1 /\ due' = IF q = 0 THEN due ELSE (due + q) % auto.every
      /\ mems' = LearnAll(mems, e.calls, e.t0, e.t1)
      /\ UNCHANGED <<bank, raw, auto, ext, rer>>
History(e) == e.ok /\ e.res = IF e.sid \in DOMAIN talk THEN LastN(talk[e.sid], e.n) ELSE <<>>
=============================================================================

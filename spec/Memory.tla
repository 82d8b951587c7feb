------------------------------- MODULE Memory -------------------------------
(* Memories: every memory lives in exactly one bucket, decided by its scope,   *)
(* the user or session it belongs to and its namespace; searches see one       *)
(* bucket.  Lifetimes are intervals of milliseconds since the start, because   *)
(* only the moments before and after a call are known.                         *)
EXTENDS Words
VARIABLES mem,    \* id -> record
          emb     \* is there an embedder, and does it work: "none", "ok", "failing"
mvars == <<mem, emb>>
Init0 == mem = EmptyFn /\ emb = "none"
Fresh(c) == mem' = EmptyFn /\ emb' = IF c.emb THEN "ok" ELSE "none"
Reopen(c) == UNCHANGED mem /\ emb' = IF c.emb THEN "ok" ELSE "none"
EmbFail(on) == UNCHANGED mem /\ emb' = IF emb = "none" THEN "none" ELSE IF on THEN "failing" ELSE "ok"
Blank(s) == s \in {"", " ", "  "}
Space(ns) == IF Blank(ns) THEN "default" ELSE IF ns = " a " THEN "a" ELSE ns
ScopeOf(s, user, sid) ==
  CASE s \in {"global", " GLOBAL"} -> "global"
    [] s \in {"user", "User "}     -> "user"
    [] s \in {"session", "SESSION"} -> "session"
    [] Blank(s) -> IF ~Blank(sid) THEN "session" ELSE IF ~Blank(user) THEN "user" ELSE "global"
    [] OTHER -> "none"
Bucket(r) == LET s == ScopeOf(r.scope, r.user, r.sid) IN
  <<s, IF s = "user" THEN r.user ELSE IF s = "session" THEN r.sid ELSE "", Space(r.ns)>>
Named(b) == b[1] # "none" /\ (b[1] # "global" => ~Blank(b[2]))
System == {"kind", "scope", "namespace", "importance", "ttl_seconds", "expires_at"}
MetaSet(ps) == {p \in SeqSet(ps) : p[1] \notin System}
Merge(old, new) == {p \in old : \A n \in new : n[1] # p[1]} \cup new
Life(ttl, t0, t1) == IF ttl > 0 THEN <<t0 + 1000 * ttl, t1 + 1 + 1000 * ttl>> ELSE <<>>
Ends(m, r) == IF m.life = <<>> THEN r.exp = <<>> ELSE r.exp # <<>> /\ r.exp[1] >= m.life[1] - 2 /\ r.exp[1] <= m.life[2] + 2
Shown(x, r) ==   \* r is what a caller is shown of memory x
  LET m == mem[x] IN
  /\ r.id = x /\ r.scope = m.b[1] /\ r.ns = m.b[3] /\ r.role = m.role /\ r.txt = m.txt /\ MetaSet(r.meta) = m.meta
  /\ r.imp = m.imp /\ r.ttl = m.ttl /\ Ends(m, r) /\ (m.b[1] = "user" => r.user = m.b[2])
ShownIn(f, x, r) == LET m == f[x] IN
  /\ r.id = x /\ r.scope = m.b[1] /\ r.ns = m.b[3] /\ r.role = m.role /\ r.txt = m.txt /\ MetaSet(r.meta) = m.meta
  /\ r.imp = m.imp /\ r.ttl = m.ttl /\ Ends(m, r) /\ (m.b[1] = "user" => r.user = m.b[2])
Save(e) ==
  /\ e.ok = (e.id # "" /\ e.txt # <<>> /\ Named(Bucket(e)) /\ emb # "failing")
  /\ IF e.ok THEN /\ mem' = With(mem, e.id, [b |-> Bucket(e), role |-> IF Blank(e.role) THEN "memory" ELSE e.role, txt |-> e.txt, meta |-> MetaSet(e.meta), imp |-> e.imp,
                                             ttl |-> e.ttl, life |-> Life(e.ttl, e.t0, e.t1), vec |-> IF emb = "ok" THEN e.v ELSE <<>>])
                  /\ ShownIn(mem', e.id, e.res)
     ELSE UNCHANGED mem
  /\ UNCHANGED emb
Given(s, d) == IF s = <<>> THEN d ELSE s[1]
Update(e) ==
  LET retxt == e.o_txt # <<>> IN
  /\ e.ok = (e.id \in DOMAIN mem /\ (retxt => e.o_txt[1] # <<>> /\ emb # "failing"))
  /\ IF e.ok THEN LET m == mem[e.id]  ttl == Given(e.o_ttl, m.ttl) IN
                  /\ mem' = With(mem, e.id, [m EXCEPT !.txt = Given(e.o_txt, m.txt), !.imp = Given(e.o_imp, m.imp), !.ttl = ttl, !.life = Life(ttl, e.t0, e.t1),
                                             !.meta = Merge(m.meta, MetaSet(Given(e.o_meta, <<>>))), !.vec = IF retxt THEN (IF emb = "ok" THEN e.v ELSE <<>>) ELSE m.vec])
                  /\ ShownIn(mem', e.id, e.res)
     ELSE UNCHANGED mem
  /\ UNCHANGED emb
Get(e) == e.ok = (e.id \in DOMAIN mem) /\ (e.ok => Shown(e.id, e.res))
Delete(e) ==
  /\ e.ok = (e.id \in DOMAIN mem)
  /\ IF e.ok THEN e.done /\ e.rid = e.id /\ mem' = Without(mem, {e.id}) ELSE UNCHANGED mem
  /\ UNCHANGED emb
Ids(res) == [i \in DOMAIN res |-> res[i].id]
Search(e) ==
  LET b == Bucket(e)
      R == SeqSet(Ids(e.res))
      k == IF e.k <= 0 THEN 5 ELSE e.k
      Live(x) == LET f == mem[x].life IN f = <<>> \/ e.t1 + 1 < f[1] \/ (x \in R /\ e.t0 <= f[2] + 1)   \* in between, either
      live == {x \in DOMAIN mem : mem[x].b = b /\ Live(x)}
      sem == IF emb = "ok" /\ e.mode # "lexical" THEN {x \in live : mem[x].vec # <<>>} ELSE {}
      lex == {x \in live : Found(mem[x].txt, e.q, e.kw, e.alt)}
  IN  /\ e.ok = (e.q # <<>> /\ Named(b))
      /\ e.ok => /\ R \subseteq live
                 /\ e.down
                 /\ \A i \in DOMAIN e.res : Shown(e.res[i].id, e.res[i])
                 /\ IF sem # {} THEN TopK(Ids(e.res), k, sem, LAMBDA x, y : SimGT("cosine", e.qv, mem[x].vec, mem[y].vec))
                    ELSE TopK(Ids(e.res), k, lex, LAMBDA x, y : Outdoes(e.q, e.kw, e.alt, mem[x].txt, mem[y].txt))
=============================================================================

-------------------------------- MODULE Chat --------------------------------
(* Conversations: sessions of users and their messages, in the order they     *)
(* were added.                                                                 *)
EXTENDS VecMath
VARIABLES sess,   \* session id -> [user, meta]
          msgs,   \* sequence of [id, sid, role, txt, vec, meta]
          csim, copen
cvars == <<sess, msgs, csim, copen>>
Init0 == sess = EmptyFn /\ msgs = <<>> /\ csim = "cosine" /\ copen = FALSE
Fresh(c) == sess' = EmptyFn /\ msgs' = <<>> /\ csim' = c.sim /\ copen' = TRUE
Close == copen' = FALSE /\ UNCHANGED <<sess, msgs, csim>>
Reopen(c) == ~copen /\ copen' = TRUE /\ csim' = c.sim /\ UNCHANGED <<sess, msgs>>
MsgIds == {msgs[i].id : i \in 1..Len(msgs)}
CreateSession(s, ok) ==
    /\ ok = (copen /\ s.id \notin DOMAIN sess)
    /\ sess' = IF ok THEN With(sess, s.id, [user |-> s.user, meta |-> s.meta]) ELSE sess
    /\ UNCHANGED <<msgs, csim, copen>>
AddMessage(m, ok) ==
    /\ ok = (copen /\ m.sid \in DOMAIN sess /\ m.id \notin MsgIds)
    /\ msgs' = IF ok THEN Append(msgs, m) ELSE msgs
    /\ UNCHANGED <<sess, csim, copen>>
GetSession(id, ok, user, meta) == ok = (copen /\ id \in DOMAIN sess) /\ (ok => sess[id] = [user |-> user, meta |-> meta])
Of(sid) == SelectSeq(msgs, LAMBDA m : m.sid = sid)
LastN(s, n) == IF n < 0 \/ n >= Len(s) THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
History(sid, n, ok, res) == ok = copen /\ (ok => res = LastN(Of(sid), n))
(* searches: which messages, and how ranked *)
Ids(res) == [i \in 1..Len(res) |-> res[i].id]
Genuine(res) == \A i \in 1..Len(res) : res[i] \in SeqSet(msgs)
MsgOf(id) == CHOOSE m \in SeqSet(msgs) : m.id = id
Ranked(q, elig, k, res) ==
    Genuine(res) /\ TopK(Ids(res), MaxOf(k, 0), elig, LAMBDA x, y : SimGT(csim, q, MsgOf(x).vec, MsgOf(y).vec))
WithVec(P(_)) == {m.id : m \in {x \in SeqSet(msgs) : x.vec # <<>> /\ P(x)}}
SearchSession(q, sid, k, ok, res) == ok = copen /\ (ok => Ranked(q, WithVec(LAMBDA m : m.sid = sid), k, res))
Mine(m, user, excl) == sess[m.sid].user = user /\ (excl = "" \/ m.sid # excl)
SearchUser(q, user, excl, k, ok, res) ==
    ok = copen /\ (ok => IF user = "" \/ q = <<>> THEN res = <<>>
                         ELSE Ranked(q, WithVec(LAMBDA m : Mine(m, user, excl)), IF k <= 0 THEN 10 ELSE k, res))
Has(m, w) == w \in SeqSet(m.txt)
Matches(m, mode, terms) == CASE mode = "all" -> \A i \in 1..Len(terms) : Has(m, terms[i])
                             [] mode = "any" -> \E i \in 1..Len(terms) : Has(m, terms[i])
Keyword(mode, terms, user, excl, k, ok, res) ==
    LET hit == {m.id : m \in {x \in SeqSet(msgs) : Mine(x, user, excl) /\ Matches(x, mode, terms)}}
        n == IF k <= 0 THEN 10 ELSE k
    IN  ok = copen /\ (ok => IF user = "" \/ terms = <<>> THEN res = <<>>
                             ELSE Genuine(res) /\ Distinct(Ids(res)) /\ SeqSet(Ids(res)) \subseteq hit /\ Len(res) = MinOf(n, Cardinality(hit)))
NoOrphans == \A i \in 1..Len(msgs) : msgs[i].sid \in DOMAIN sess
UniqueIds == \A i, j \in 1..Len(msgs) : msgs[i].id = msgs[j].id => i = j
=============================================================================

-------------------------------- MODULE Dims --------------------------------
(* The dimension policy: which vector is stored, or searched for, when one of *)
(* another length is given.  A stored vector is represented by the integer    *)
(* vector it is a multiple of, and by how it was obtained.                    *)
EXTENDS VecMath

VARIABLES rows,    \* id -> [v, how]  how: "raw" as given, "unit" scaled to length one, "noise" padded with noise
          dim, pol, sim, open
dvars == <<rows, dim, pol, sim, open>>
Policies == {"strict", "smart", "truncate", "pad", "warn"}

Finite(v) == \A i \in 1..Len(v) : v[i] < 990000
Zeros(n) == [i \in 1..n |-> 0]
PadTo(v, n) == v \o Zeros(n - Len(v))
(* the n components of largest magnitude, in their order; ties are free *)
Largest(v, n) ==
    {[i \in 1..n |-> v[SetToSortSeq(S, LAMBDA a, b : a < b)[i]]] :
        S \in {T \in kSubset(n, 1..Len(v)) : \A a \in T, b \in 1..Len(v) \ T : VAbs(v[a]) >= VAbs(v[b])}}
Raw(v) == [v |-> v, how |-> "raw"]
Unit(v) == [v |-> v, how |-> "unit"]
(* the vectors that policy p may make of v for dimension n; none if it refuses *)
Adapted(p, v, n) ==
    IF Len(v) = n THEN {Raw(v)}
    ELSE IF p \in {"strict", "warn"} THEN {}
    ELSE IF Len(v) < n THEN (IF p = "smart" THEN {[v |-> PadTo(v, n), how |-> "noise"]} ELSE {Unit(PadTo(v, n))})
    ELSE IF p = "smart" THEN {Unit(w) : w \in Largest(v, n)} ELSE {Unit(SubSeq(v, 1, n))}
Usable(v, d) == Finite(v) /\ (d = 0 => Len(v) > 0)
Forms(v, d) == IF Usable(v, d) THEN Adapted(pol, v, IF d = 0 THEN Len(v) ELSE d) ELSE {}

Init0 == rows = EmptyFn /\ dim = 0 /\ pol = "strict" /\ sim = "cosine" /\ open = FALSE
Fresh(c) == rows' = EmptyFn /\ dim' = c.dim /\ pol' = c.adapt /\ sim' = c.sim /\ open' = TRUE
Close == open' = FALSE /\ UNCHANGED <<rows, dim, pol, sim>>
Reopen(c) == /\ ~open /\ open' = TRUE /\ pol' = c.adapt /\ sim' = c.sim /\ UNCHANGED rows
             /\ dim' = IF c.dim # 0 THEN c.dim ELSE IF DOMAIN rows = {} THEN 0 ELSE Len(rows[CHOOSE x \in DOMAIN rows : TRUE].v)
SetPolicy(p, ok) == ok = open /\ pol' = (IF ok THEN p ELSE pol) /\ UNCHANGED <<rows, dim, sim, open>>

Upsert(r, ok) ==
    /\ ok = (open /\ Forms(r.vec, dim) # {})
    /\ IF ok THEN (\E w \in Forms(r.vec, dim) : rows' = With(rows, r.id, w)) /\ dim' = (IF dim = 0 THEN Len(r.vec) ELSE dim)
             ELSE UNCHANGED <<rows, dim>>
    /\ UNCHANGED <<pol, sim, open>>
BDim(rs) == IF dim # 0 \/ Len(rs) = 0 THEN dim ELSE Len(rs[1].vec)
RECURSIVE Puts(_, _, _, _)
Puts(f, rs, i, d) == IF i > Len(rs) THEN {f} ELSE UNION {Puts(With(f, rs[i].id, w), rs, i + 1, d) : w \in Forms(rs[i].vec, d)}
UpsertBatch(rs, ok) ==
    /\ ok = (open /\ \A i \in 1..Len(rs) : Usable(rs[i].vec, dim) /\ Forms(rs[i].vec, BDim(rs)) # {})
    /\ IF ok THEN rows' \in Puts(rows, rs, 1, BDim(rs)) /\ dim' = BDim(rs) ELSE UNCHANGED <<rows, dim>>
    /\ UNCHANGED <<pol, sim, open>>
Delete(id, ok) == ok = (open /\ id \in DOMAIN rows) /\ rows' = (IF ok THEN Without(rows, {id}) ELSE rows) /\ UNCHANGED <<dim, pol, sim, open>>
Clear(ok) == ok = open /\ rows' = (IF ok THEN EmptyFn ELSE rows) /\ UNCHANGED <<dim, pol, sim, open>>

(* m (thousandths) is w.v scaled as w.how says *)
Near(m, x, n2, tol) == \* |m - 1000 x / sqrt(n2)| <= tol
    LET Le(a, b, k) == SgnSq(a) * k <= SgnSq(b) * 1000000   \* a/1000 <= b/sqrt(k)
    IN  Le(m - tol, x, n2) /\ Le(-m - tol, -x, n2)
(* the same for a vector a div-th as long *)
IsVecOf(m, w, div) ==
    /\ Len(m) = Len(w.v)
    /\ \A i \in 1..Len(m) :
         IF w.how = "raw" \/ Norm2(w.v) = 0 THEN div * m[i] = 1000 * w.v[i]
         ELSE Near(m[i], w.v[i], Norm2(w.v), IF w.how = "unit" THEN 1 ELSE 60)
IsVec(m, w) ==
    /\ Len(m) = Len(w.v)
    /\ \A i \in 1..Len(m) :
         IF w.how = "raw" \/ Norm2(w.v) = 0 THEN m[i] = 1000 * w.v[i]
         ELSE Near(m[i], w.v[i], Norm2(w.v), IF w.how = "unit" THEN 1 ELSE 60)
Get(id, ok, m) == ok = (open /\ id \in DOMAIN rows) /\ (ok => IsVec(m, rows[id]))
Stats(ok, n, d) == ok = open /\ (ok => n = Cardinality(DOMAIN rows) /\ d = dim)

(* a search by q: refused exactly when the policy refuses q, else ranks every stored vector by the adapted query *)
Noisy(w) == w.how = "noise"
TolIs(s, q, a, tol) == \* |s - 1000 cos(q, a)| <= tol
    IF Norm2(q) = 0 \/ Norm2(a) = 0 THEN VAbs(s) <= tol
    ELSE LET n == Norm2(q) * Norm2(a) d == SgnSq(Dot(q, a)) * 1000000 IN SgnSq(s - tol) * n <= d /\ d <= SgnSq(s + tol) * n
QForms(q) == Forms(q, dim)
SearchBy(w, k, res) ==
    LET ids == [i \in 1..Len(res) |-> res[i].id]
        fuzzy == Noisy(w) \/ \E i \in DOMAIN rows : Noisy(rows[i])
    IN  /\ Distinct(ids) /\ SeqSet(ids) \subseteq DOMAIN rows /\ Len(res) = MinOf(k, Cardinality(DOMAIN rows))
        /\ sim = "cosine" =>
             /\ \A i \in 1..Len(res) : TolIs(res[i].s, w.v, rows[res[i].id].v, IF Noisy(w) \/ Noisy(rows[res[i].id]) THEN 120 ELSE 1)
             /\ \A i \in 1..Len(res) - 1 : res[i].s >= res[i + 1].s
             /\ ~fuzzy => TopK(ids, k, DOMAIN rows, LAMBDA x, y : SimGT("cosine", w.v, rows[x].v, rows[y].v))
Search(q, k, ok, res) ==
    /\ ok = (open /\ QForms(q) # {})
    /\ ok => \E w \in QForms(q) : SearchBy(w, k, res)

OneDim == \A i \in DOMAIN rows : Len(rows[i].v) = dim
DimKnown == DOMAIN rows # {} => dim # 0
=============================================================================

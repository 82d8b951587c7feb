------------------------------ MODULE VecMath ------------------------------
(* Exact similarity arithmetic on small-integer vectors, shared by every      *)
(* module that ranks vectors.  All comparisons are decided by cross           *)
(* multiplication, so they are exact; "milli" values are thousandths of a     *)
(* real observed in the implementation, compared with a tolerance of one      *)
(* thousandth.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

RECURSIVE SumTo(_, _, _)
SumTo(u, v, n) == IF n = 0 THEN 0 ELSE u[n] * v[n] + SumTo(u, v, n - 1)
Dot(u, v) == SumTo(u, v, Len(u))
Norm2(v) == Dot(v, v)
Sub(u, v) == [i \in 1..Len(u) |-> u[i] - v[i]]
Dist2(u, v) == Norm2(Sub(u, v))
VAbs(x) == IF x < 0 THEN -x ELSE x
SgnSq(x) == x * VAbs(x)

(* similarity order: is a at least as similar to q as b is? *)
CosGE(q, a, b) ==
    LET da == IF Norm2(a) = 0 THEN 0 ELSE Dot(q, a)
        db == IF Norm2(b) = 0 THEN 0 ELSE Dot(q, b)
        na == IF Norm2(a) = 0 THEN 1 ELSE Norm2(a)
        nb == IF Norm2(b) = 0 THEN 1 ELSE Norm2(b)
    IN  SgnSq(da) * nb >= SgnSq(db) * na
SimGE(sim, q, a, b) ==
    CASE sim = "cosine" -> CosGE(q, a, b)
      [] sim = "dot"    -> Dot(q, a) >= Dot(q, b)
      [] sim = "euclid" -> Dist2(q, a) <= Dist2(q, b)
SimGT(sim, q, a, b) == ~SimGE(sim, q, b, a)

(* observed score s (milli) is the similarity of q and a *)
CosIs(s, q, a) ==
    IF Norm2(q) = 0 \/ Norm2(a) = 0 THEN VAbs(s) <= 1
    ELSE LET n == Norm2(q) * Norm2(a) d == SgnSq(Dot(q, a)) * 1000000
         IN  VAbs(s) <= 1001 /\ SgnSq(s - 1) * n <= d /\ d <= SgnSq(s + 1) * n
SqrtIs(s, x) == \* s (milli) is sqrt(x)
    s >= 0 /\ s < 40000 /\ (IF s = 0 THEN 0 ELSE (s - 1) * (s - 1)) <= x * 1000000 /\ x * 1000000 <= (s + 1) * (s + 1)
ScoreIs(sim, s, q, a) ==
    CASE sim = "cosine" -> CosIs(s, q, a)
      [] sim = "dot"    -> VAbs(s - 1000 * Dot(q, a)) <= 1
      [] sim = "euclid" -> s <= 0 /\ SqrtIs(-s, Dist2(q, a))

(* similarity of q and a is at least t/1000 (t not on a boundary) *)
SimAtLeast(sim, t, q, a) ==
    CASE sim = "cosine" -> IF VAbs(t) > 1001 THEN t < 0 ELSE IF Norm2(q) = 0 \/ Norm2(a) = 0 THEN 0 >= t
                           ELSE SgnSq(Dot(q, a)) * 1000000 >= SgnSq(t) * (Norm2(q) * Norm2(a))
      [] sim = "dot"    -> 1000 * Dot(q, a) >= t
      [] sim = "euclid" -> IF t > 0 THEN FALSE ELSE Dist2(q, a) * 1000000 <= t * t

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
SeqSet(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(SeqSet(s)) = Len(s)
Without(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
Only(f, ks) == [x \in DOMAIN f \cap ks |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
EmptyFn == [x \in {} |-> 0]

(* ids is a correct answer "best k of elig, best first" when better(x, y)     *)
(* means x must precede y                                                     *)
TopK(ids, k, elig, Better(_, _)) ==
    /\ Distinct(ids)
    /\ SeqSet(ids) \subseteq elig
    /\ Len(ids) = MinOf(k, Cardinality(elig))
    /\ \A i \in 1..Len(ids) - 1 : ~Better(ids[i + 1], ids[i])
    /\ Len(ids) > 0 => \A x \in elig \ SeqSet(ids) : ~Better(x, ids[Len(ids)])
=============================================================================

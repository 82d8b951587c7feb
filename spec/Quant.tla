-------------------------------- MODULE Quant --------------------------------
(* Vector compression.  A quantizer is what its last successful training (or load) made it: for the
   scalar quantizer the range of every dimension, for the binary one the mean of every dimension, for the
   product quantizer the centroids.  Vectors are small integers; decoded components and distances are in
   thousandths.  What the codes look like is left open, except that they are a function of the vector, that
   decoding is a function of the codes, and what the decoded vector is. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES q,      \* the quantizer in use
          saved,  \* what was last serialised
          mem     \* <<vector, codes, decoded>> seen since the last training
qvars == <<q, saved, mem>>
None == [kind |-> "none", dim |-> 0, a |-> 0, b |-> 0, trained |-> FALSE, lo |-> <<>>, hi |-> <<>>, n |-> 1, book |-> <<>>]
Init0 == q = None /\ saved = None /\ mem = {}
Fresh == q' = None /\ saved' = None /\ mem' = {}
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumTo(f, i - 1)
Pow2(k) == 2 ^ k
Top == Pow2(q.a) - 1                       \* highest code of a scalar quantizer
Legal(kind, dim, a, b) == CASE kind = "sq" -> a \in 1..8 /\ dim >= 0
                            [] kind = "pq" -> dim > 0 /\ a > 0 /\ b \in 1..256 /\ dim % a = 0
                            [] OTHER -> TRUE
New(kind, dim, a, b, ok) ==
  /\ ok = Legal(kind, dim, a, b)
  /\ IF ok THEN q' = [None EXCEPT !.kind = kind, !.dim = dim, !.a = a, !.b = b] /\ mem' = {} ELSE UNCHANGED <<q, mem>>
  /\ UNCHANGED saved
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Col(vs, d) == {vs[i][d] : i \in DOMAIN vs}
SubDim == q.dim \div q.a
BookShape(book) == Len(book) = q.a /\ \A m \in DOMAIN book : Len(book[m]) = q.b /\ \A k \in DOMAIN book[m] : Len(book[m][k]) = SubDim
Trainable(vs) == /\ \A i \in DOMAIN vs : Len(vs[i]) = q.dim
                 /\ IF q.kind = "pq" THEN Len(vs) >= q.a * q.b ELSE Len(vs) > 0
Train(vs, ok, book) ==
  /\ ok = Trainable(vs)
  /\ IF ~ok THEN UNCHANGED <<q, mem>>
     ELSE /\ mem' = {}
          /\ CASE q.kind = "sq" -> q' = [q EXCEPT !.trained = TRUE, !.lo = [d \in 1..q.dim |-> MinOf(Col(vs, d))], !.hi = [d \in 1..q.dim |-> MaxOf(Col(vs, d))]]
               [] q.kind = "bq" -> q' = [q EXCEPT !.trained = TRUE, !.n = Len(vs), !.lo = [d \in 1..q.dim |-> SumTo([i \in DOMAIN vs |-> vs[i][d]], Len(vs))]]
               [] OTHER -> /\ BookShape(book)        \* centroids lie among the training vectors
                           /\ \A m \in 1..q.a, k \in 1..q.b, d \in 1..SubDim : LET c == Col(vs, (m - 1) * SubDim + d) IN
                                book[m][k][d] \in (1000 * MinOf(c) - 1)..(1000 * MaxOf(c) + 1)
                           /\ q' = [q EXCEPT !.trained = TRUE, !.book = book]
  /\ UNCHANGED saved
SetBook(book, ok, seen) ==     \* the centroids handed over in serialised form
  /\ ok /\ seen = [m \in DOMAIN book |-> [k \in DOMAIN book[m] |-> [d \in DOMAIN book[m][k] |-> 1000 * book[m][k][d]]]]
  /\ q' = [q EXCEPT !.trained = TRUE, !.book = seen, !.a = Len(book), !.b = Len(book[1]), !.dim = Len(book) * Len(book[1][1])] /\ mem' = {} /\ UNCHANGED saved
CodeLen == CASE q.kind = "sq" -> (q.dim * q.a + 7) \div 8 [] q.kind = "bq" -> (q.dim + 7) \div 8 [] OTHER -> q.a
Sub(v, m) == SubSeq(v, (m - 1) * SubDim + 1, m * SubDim)
SqDist(x, y) == SumTo([d \in DOMAIN x |-> (x[d] - y[d]) * (x[d] - y[d])], Len(x))
Times(v) == [d \in DOMAIN v |-> 1000 * v[d]]
(* what decoding the codes of v may give *)
Faithful(v, codes, back) ==
  CASE q.kind = "sq" -> \A d \in 1..q.dim :
         IF v[d] <= q.lo[d] THEN Abs(back[d] - 1000 * q.lo[d]) <= 1
         ELSE IF v[d] >= q.hi[d] THEN Abs(back[d] - 1000 * q.hi[d]) <= 1
         ELSE (Abs(back[d] - 1000 * v[d]) - 1) * Top <= 1000 * (q.hi[d] - q.lo[d])
    [] q.kind = "bq" -> \A d \in 1..q.dim :
         Abs(back[d] * q.n - 1000 * q.lo[d] - (IF v[d] * q.n > q.lo[d] THEN 500 ELSE -500) * q.n) <= 2 * q.n
    [] OTHER -> \A m \in 1..q.a : LET s == Sub(Times(v), m)  c == Sub(back, m) IN
         /\ codes[m] < q.b /\ c = q.book[m][codes[m] + 1]
         /\ \A k \in 1..q.b : SqDist(s, c) <= SqDist(s, q.book[m][k]) + 70000
Known(codes, back) == \A t \in mem : t[2] = codes => t[3] = back
Encode(v, ok, codes, back) ==
  /\ ok = (q.trained /\ Len(v) = q.dim)
  /\ IF ~ok THEN UNCHANGED mem
     ELSE /\ Len(codes) = CodeLen /\ Len(back) = q.dim
          /\ Faithful(v, codes, back)
          /\ Known(codes, back) /\ \A t \in mem : t[1] = v => t[2] = codes
          /\ mem' = mem \cup {<<v, codes, back>>}
  /\ UNCHANGED <<q, saved>>
Decodable(codes) == CASE q.kind = "sq" -> Len(codes) >= CodeLen      \* bytes past the end are ignored
                      [] q.kind = "bq" -> Len(codes) = CodeLen
                      [] OTHER -> Len(codes) = q.a /\ \A m \in DOMAIN codes : codes[m] < q.b
Decode(codes, ok, back) ==
  /\ ok = (q.trained /\ Decodable(codes))
  /\ IF ~ok THEN TRUE
     ELSE /\ Len(back) = q.dim /\ Known(codes, back)
          /\ CASE q.kind = "sq" -> \A d \in 1..q.dim : {c \in 0..Top : Abs((back[d] - 1000 * q.lo[d]) * Top - 1000 * c * (q.hi[d] - q.lo[d])) <= 2 * Top} # {}
               [] q.kind = "bq" -> \A d \in 1..q.dim : Abs(Abs(back[d] * q.n - 1000 * q.lo[d]) - 500 * q.n) <= 2 * q.n
               [] OTHER -> \A m \in 1..q.a : Sub(back, m) = q.book[m][codes[m] + 1]
  /\ UNCHANGED qvars
RECURSIVE Ones(_)
Ones(x) == IF x = 0 THEN 0 ELSE (x % 2) + Ones(x \div 2)
RECURSIVE Xor(_, _)
Xor(x, y) == IF x = 0 /\ y = 0 THEN 0 ELSE (IF x % 2 = y % 2 THEN 0 ELSE 1) + 2 * Xor(x \div 2, y \div 2)
Hamming(x, y) == SumTo([i \in DOMAIN x |-> Ones(Xor(x[i], y[i]))], Len(x))
(* the codes of two encoded vectors differ in exactly the dimensions where the vectors lie on different sides of the mean *)
Sides(v, w) == Cardinality({d \in 1..q.dim : (v[d] * q.n > q.lo[d]) # (w[d] * q.n > q.lo[d])})
HammingOK(x, y, d) ==
  /\ d = IF Len(x) # Len(y) THEN -1 ELSE Hamming(x, y)
  /\ \A t, u \in mem : t[2] = x /\ u[2] = y => d = Sides(t[1], u[1])
PQBack(codes) == [i \in 1..q.dim |-> LET m == ((i - 1) \div SubDim) + 1 IN q.book[m][codes[m] + 1][((i - 1) % SubDim) + 1]]
PQOK(codes, v, d) == Abs(d * d - SqDist(Times(v), PQBack(codes))) <= 200000
Distance(codes, codes2, v, ok, d) ==
  /\ IF q.kind = "bq" THEN ok /\ HammingOK(codes, codes2, d)
     ELSE /\ ok = (q.trained /\ Len(v) = q.dim /\ Decodable(codes))
          /\ ok => PQOK(codes, v, d)
  /\ UNCHANGED qvars
LeMax(x, y) == IF x < y THEN x ELSE y
Search(codes, v, db, k, n, r) ==
  LET any == q.kind = "bq" \/ (q.trained /\ Len(v) = q.dim)
      el == IF ~any THEN {} ELSE {i \in DOMAIN db : IF q.kind = "bq" THEN Len(db[i]) = Len(codes) ELSE Decodable(db[i])}
      kk == IF k < 0 THEN 0 ELSE LeMax(k, Cardinality(el))
      got == {r[j].i + 1 : j \in DOMAIN r}
      D(i) == IF q.kind = "bq" THEN Hamming(codes, db[i]) ELSE SqDist(Times(v), PQBack(db[i])) IN
  /\ n = Len(r) /\ Len(r) = kk /\ got \subseteq el /\ Cardinality(got) = Len(r)
  /\ \A j \in DOMAIN r : IF q.kind = "bq" THEN r[j].d = D(r[j].i + 1) ELSE PQOK(db[r[j].i + 1], v, r[j].d)
  /\ \A j \in 1..(Len(r) - 1) : r[j].d <= r[j + 1].d
  /\ kk > 0 => \A i \in el \ got : D(r[kk].i + 1) <= D(i) + (IF q.kind = "bq" THEN 0 ELSE 200000)
  /\ UNCHANGED qvars
Save(ok, n) ==
  /\ ok /\ saved' = IF q.kind = "pq" /\ ~q.trained THEN None ELSE q
  /\ (n = 0) = (saved' = None) /\ UNCHANGED <<q, mem>>
(* a load either gives the saved quantizer back or refuses and changes nothing *)
Load(how, ok, book) ==
  /\ ok = (saved.kind = q.kind /\ (how = "ok" \/ (how = "pad" /\ q.kind # "pq")))
  /\ IF ok THEN q' = saved /\ mem' = (IF q' = q THEN mem ELSE {}) /\ book = saved.book
     ELSE /\ UNCHANGED <<q, mem>> /\ (q.trained => book = q.book)
  /\ UNCHANGED saved
Ratio(n) ==
  /\ LET den == IF q.kind = "bq" THEN 1 ELSE q.a  num == IF q.kind = "pq" THEN 4000 * q.dim ELSE 32000 IN Abs(n * den - num) <= den
  /\ UNCHANGED qvars
Project(in, out, v, vs, ok, n, same, opp) ==
  /\ ok = (Len(vs) > 0) /\ (ok => n = out /\ same /\ opp)
  /\ UNCHANGED qvars
=============================================================================

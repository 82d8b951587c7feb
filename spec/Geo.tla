-------------------------------- MODULE Geo --------------------------------
(* The geographic index: identified points on the globe.  Coordinates and     *)
(* angles (great-circle distances and radii) are in twentieths of a degree.   *)
(* Hav is 10^8 times the haversine of a distance, computed from a table of    *)
(* cosines to within Tol; a point within Tol of a circle may count either way.*)
EXTENDS VecMath, GeoTable
VARIABLES pts   \* id -> [lat, lng, tag]
gvars == <<pts>>
Init0 == pts = EmptyFn
Fresh == pts' = EmptyFn
Valid(c) == c.lat \in -1800..1800 /\ c.lng \in -3600..3600

Tol == 6
C(x) == LET m == VAbs(x) % 7200 IN Cos20[(IF m > 3600 THEN 7200 - m ELSE m) + 1]
S2(x) == (100000000 - C(x)) \div 2                 \* squared sine of half the angle
Mul(a, b) == LET ah == a \div 10000 al == a % 10000 bh == b \div 10000 bl == b % 10000
             IN  ah * bh + (ah * bl + al * bh) \div 10000
Hav(p, c) == LET dp == p.lat - c.lat sp == p.lat + c.lat IN
             S2(dp) + Mul((C(dp) + C(sp)) \div 2, S2(p.lng - c.lng))
Nearer(x, y, c) == Hav(pts[x], c) + Tol < Hav(pts[y], c)

(* ---- changes ---- *)
Insert(p, ok) == /\ ok = (p.id # "" /\ Valid(p))
                 /\ pts' = (IF ok THEN With(pts, p.id, [lat |-> p.lat, lng |-> p.lng, tag |-> p.tag]) ELSE pts)
Delete(id, ok) == ok = (id \in DOMAIN pts) /\ pts' = Without(pts, {id})
Clear == pts' = EmptyFn

(* ---- reads ---- *)
Ids(res) == [i \in 1..Len(res) |-> res[i].id]
Faithful(res) == \A i \in 1..Len(res) : res[i].id \in DOMAIN pts /\ [lat |-> res[i].lat, lng |-> res[i].lng, tag |-> res[i].tag] = pts[res[i].id]
(* each distance is the great-circle distance: lo <= angle <= hi *)
True(res, c) == \A i \in 1..Len(res) :
    LET h == Hav(pts[res[i].id], c) IN S2(res[i].lo) - Tol <= h /\ h <= S2(res[i].hi) + Tol
Ordered(res) == \A i \in 1..Len(res) - 1 : res[i].m <= res[i + 1].m
Inside(r, c, always) == {x \in DOMAIN pts : LET h == Hav(pts[x], c) IN
                           IF r >= 3600 THEN TRUE ELSE IF always THEN h <= S2(r) - Tol ELSE h <= S2(r) + Tol}
Radius(c, r, ok, res) ==
    /\ ok = (Valid(c) /\ r > 0)
    /\ ok => /\ Faithful(res) /\ Distinct(Ids(res)) /\ True(res, c) /\ Ordered(res)
             /\ Inside(r, c, TRUE) \subseteq SeqSet(Ids(res)) /\ SeqSet(Ids(res)) \subseteq Inside(r, c, FALSE)
Nearest(c, k, ok, res) ==
    /\ ok = (Valid(c) /\ k > 0)
    /\ ok => Faithful(res) /\ True(res, c) /\ Ordered(res) /\ TopK(Ids(res), k, DOMAIN pts, LAMBDA x, y : Nearer(x, y, c))
ValidBox(b) == b.lat0 >= -1800 /\ b.lat1 <= 1800 /\ b.lng0 >= -3600 /\ b.lng1 <= 3600 /\ b.lat0 <= b.lat1 /\ b.lng0 <= b.lng1
Box(b, ok, res) ==
    /\ ok = ValidBox(b)
    /\ ok => /\ Faithful(res) /\ Distinct(Ids(res))
             /\ SeqSet(Ids(res)) = {x \in DOMAIN pts : pts[x].lat \in b.lat0..b.lat1 /\ pts[x].lng \in b.lng0..b.lng1}
(* polygons, by the even-odd rule; a point on an edge may count either way *)
Edge(pg, i) == <<pg[i], pg[(i % Len(pg)) + 1]>>
Cross(a, b, p) == (b.lng - a.lng) * (p.lat - a.lat) - (b.lat - a.lat) * (p.lng - a.lng)
Between(x, y, z) == (x <= y /\ y <= z) \/ (z <= y /\ y <= x)
OnEdge(a, b, p) == Cross(a, b, p) = 0 /\ Between(a.lat, p.lat, b.lat) /\ Between(a.lng, p.lng, b.lng)
Crosses(a, b, p) == (a.lng > p.lng) # (b.lng > p.lng) /\ (IF b.lng > a.lng THEN Cross(a, b, p) < 0 ELSE Cross(a, b, p) > 0)
InPoly(pg, p) == Cardinality({i \in 1..Len(pg) : LET e == Edge(pg, i) IN Crosses(e[1], e[2], p)}) % 2 = 1
Border(pg, p) == \E i \in 1..Len(pg) : LET e == Edge(pg, i) IN OnEdge(e[1], e[2], p)
Polygon(pg, ok, res) ==
    /\ ok = (Len(pg) >= 3)
    /\ ok => /\ Faithful(res) /\ Distinct(Ids(res))
             /\ \A x \in DOMAIN pts : ~Border(pg, pts[x]) => (x \in SeqSet(Ids(res))) = InPoly(pg, pts[x])
Get(id, ok, p) == ok = (id \in DOMAIN pts) /\ (ok => [lat |-> p.lat, lng |-> p.lng, tag |-> p.tag] = pts[id])
Size(n) == n = Cardinality(DOMAIN pts)
=============================================================================

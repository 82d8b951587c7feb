------------------------------ MODULE Trace_Geo ------------------------------
EXTENDS Geo, TraceLib
vars == <<gvars, l>>
Read(p) == IF p THEN UNCHANGED gvars ELSE FALSE
Step(e) ==
  CASE e.op = "seg"         -> e.ok /\ Fresh
    [] e.op = "geo_put"     -> Insert(e.p, e.ok)
    [] e.op = "geo_del"     -> Delete(e.id, e.ok)
    [] e.op = "geo_clear"   -> e.ok /\ Clear
    [] e.op = "geo_radius"  -> Read(Radius(e.c, e.r, e.ok, e.res))
    [] e.op = "geo_knn"     -> Read(Nearest(e.c, e.k, e.ok, e.res))
    [] e.op = "geo_box"     -> Read(Box(e.b, e.ok, e.res))
    [] e.op = "geo_poly"    -> Read(Polygon(e.pg, e.ok, e.res))
    [] e.op = "geo_get"     -> Read(Get(e.id, e.ok, e.p))
    [] e.op = "geo_size"    -> Read(Size(e.n))
Init == Init0 /\ l = 1
Next == l <= Len(Trace) /\ Sane(Ev) /\ Step(Ev) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceInv == \A x \in DOMAIN pts : Valid(pts[x])
=============================================================================

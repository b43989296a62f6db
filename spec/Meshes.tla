------------------------------- MODULE Meshes --------------------------------
(***************************************************************************)
(* Triangulations of grid points and of polygons with grid vertices.       *)
(* A triangulation is a chain: its triangles, oriented counterclockwise,   *)
(* traverse each directed edge at most once, and the directed edges not    *)
(* traversed backwards form the boundary.  When the boundary is that of    *)
(* the region to be triangulated, every point of the region off the edges  *)
(* is wound around exactly once, i.e. lies in exactly one triangle, and    *)
(* every other point in none.                                              *)
(***************************************************************************)
EXTENDS Values

\* > 0 iff d is strictly inside of the circle through the CCW a, b, c.
InCircle(a, b, c, d) ==
  LET ax == a[1] - d[1]  ay == a[2] - d[2]
      bx == b[1] - d[1]  by == b[2] - d[2]
      cx == c[1] - d[1]  cy == c[2] - d[2]
      a2 == ax * ax + ay * ay
      b2 == bx * bx + by * by
      c2 == cx * cx + cy * cy
  IN a2 * (bx * cy - cx * by) - b2 * (ax * cy - cx * ay) + c2 * (ax * by - bx * ay)

CCW(t) == IF Orient(t[1], t[2], t[3]) > 0 THEN t ELSE <<t[1], t[3], t[2]>>

DirectedEdges(ts) == UNION {{<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>} : t \in ts}

ChainBoundary(D) == {e \in D : <<e[2], e[1]>> \notin D}

\* Clauses common to both kinds: triangles are a sequence of <<p, q, r>>.
TrianglesClause(tris, P) ==
  IF \E t \in Range(tris) : Len(t) # 3 \/ \E i \in 1..3 : t[i] \notin P
  THEN "triangle-foreign-vertex"
  ELSE IF \E t \in Range(tris) : Orient(t[1], t[2], t[3]) = 0 THEN "triangle-degenerate"
  ELSE IF Cardinality(DirectedEdges({CCW(t) : t \in Range(tris)})) # 3 * Len(tris)
       THEN "triangles-overlap"
  ELSE ""

\* Vertices of the convex hull of a set of grid points.
HullVertices(P) ==
  {p \in P :
     \E q \in P \ {p} :
       \* p -> q supports P from the right and p is an end of that side
       /\ \A r \in P : Orient(p, q, r) >= 0
       /\ \A r \in P : Orient(p, q, r) = 0 =>
            (r[1] - p[1]) * (q[1] - p[1]) + (r[2] - p[2]) * (q[2] - p[2]) >= 0}

AllCollinear(P) == \A p, q, r \in P : Orient(p, q, r) = 0

DelaunayClause(points, tris, border) ==
  LET P == Range(points)
      c == TrianglesClause(tris, P)
  IN IF AllCollinear(P)
     THEN IF tris = <<>> THEN "" ELSE "triangles-of-collinear-points"
     ELSE IF c # "" THEN c
     ELSE
     LET ts == {CCW(t) : t \in Range(tris)}
         D == DirectedEdges(ts)
         B == ChainBoundary(D)
     IN IF {t[i] : t \in ts, i \in 1..3} # P THEN "point-not-used"
        ELSE IF B = {} \/ \E e \in B : \E p \in P : Orient(e[1], e[2], p) < 0
             THEN "hull-not-covered"
        ELSE IF \E t \in ts : \E p \in P : InCircle(t[1], t[2], t[3], p) > 0
             THEN "circumcircle-not-empty"
        ELSE IF border.t # "C" THEN "border-raised"
        ELSE IF Range(border.c) # HullVertices(P)
                \/ Len(border.c) # Cardinality(HullVertices(P))
                \/ ~ValidContour(border.c)
             THEN "border-not-hull"
        ELSE ""

\* Edges of the polygon, cut at the vertices lying on them, interior to the left.
PolygonBoundary(g) ==
  LET E == Edges(g)
      V == Vertices(g)
      cut == UNION {Chain(SortedPoints({p \in V : OnEdge(e, p)})) : e \in E}
  IN {LET s == Sides(E, Probe(f), TRUE)
          \* upper side is to the left of p < q, but to the right for vertical
          left == IF EqX(f[1], f[2]) THEN s[2] ELSE s[1]
      IN IF left THEN f ELSE <<f[2], f[1]>> : f \in cut}

Apex(ts, e) ==  \* third vertex of the triangle with the directed edge e
  LET t == CHOOSE t \in ts : e \in {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
  IN CHOOSE p \in Range(t) : p # e[1] /\ p # e[2]

ConstrainedClause(g, tris, border) ==
  LET P == Vertices(g)
      c == TrianglesClause(tris, P)
  IN IF c # "" THEN c
     ELSE
     LET ts == {CCW(t) : t \in Range(tris)}
         D == DirectedEdges(ts)
         B == ChainBoundary(D)
         inner == {e \in D : <<e[2], e[1]>> \in D /\ LtP(e[1], e[2])}
     IN IF B # PolygonBoundary(g) THEN "boundary-not-polygon's"
        ELSE IF \E e \in inner :
                  LET p == Apex(ts, e)  q == Apex(ts, <<e[2], e[1]>>)
                  IN InCircle(e[1], e[2], p, q) > 0
             THEN "not-locally-delaunay"
        ELSE IF border.t # "C" THEN "border-raised"
        ELSE IF ~SameRing(border.c, g.c[1]) THEN "border-not-polygon's"
        ELSE ""

=============================================================================

------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* The library's values.  A geometry is a record [t |-> tag, c |-> parts]: *)
(*   "E"  Empty          c = <<>>                                          *)
(*   "S"  Segment        c = <<p, q>>                                      *)
(*   "M"  Multisegment   c = << <<p, q>>, ... >>                           *)
(*   "C"  Contour        c = <<p1, ..., pn>>                               *)
(*   "P"  Polygon        c = <<border, hole, ...>> (rings as in "C")       *)
(*   "MP" Multipolygon   c = <<polygon, ...>>                              *)
(*   "X"  a raised exception, c = name of its class                        *)
(***************************************************************************)
EXTENDS Geometry

Linear == {"S", "M", "C"}
Shaped == {"P", "MP"}
Compound == {"E"} \cup Linear \cup Shaped

Dim(g) == IF g.t \in Linear THEN 1 ELSE IF g.t \in Shaped THEN 2 ELSE 0

RingPairs(r) == {<<r[i], r[(i % Len(r)) + 1]>> : i \in 1..Len(r)}
RingEdges(r) == {MkEdge(r[i], r[(i % Len(r)) + 1]) : i \in 1..Len(r)}

\* All the rings of a shaped geometry, and the indices of their polygons.
Polys(g) == IF g.t = "P" THEN <<g.c>> ELSE IF g.t = "MP" THEN g.c ELSE <<>>
Rings(g) == FlattenSeq(Polys(g))

Edges(g) ==
  CASE g.t = "E" -> {}
    [] g.t = "S" -> {MkEdge(g.c[1], g.c[2])}
    [] g.t = "M" -> {MkEdge(s[1], s[2]) : s \in Range(g.c)}
    [] g.t = "C" -> RingEdges(g.c)
    [] g.t \in Shaped -> UNION {RingEdges(r) : r \in Range(Rings(g))}

\* Sequence of <<start, end>> pairs, multiplicity kept.
EdgePairs(g) ==
  LET RP(r) == [i \in 1..Len(r) |-> <<r[i], r[(i % Len(r)) + 1]>>]
  IN CASE g.t = "E" -> <<>>
       [] g.t = "S" -> <<g.c>>
       [] g.t = "M" -> g.c
       [] g.t = "C" -> RP(g.c)
       [] g.t \in Shaped -> FlattenSeq([i \in 1..Len(Rings(g)) |-> RP(Rings(g)[i])])

Vertices(g) == UNION {{s[1], s[2]} : s \in Range(EdgePairs(g))}

-----------------------------------------------------------------------------
(* Well-formedness of the values as data. *)

IsPoint(p) == p[3] > 0

\* Number of components each type must at least have, and no trivial edges.
WellFormed(g) ==
  CASE g.t = "E" -> TRUE
    [] g.t = "S" -> g.c[1] # g.c[2]
    [] g.t = "M" -> Len(g.c) >= 2 /\ \A s \in Range(g.c) : s[1] # s[2]
    [] g.t = "C" -> Len(g.c) >= 3 /\ \A s \in RingPairs(g.c) : s[1] # s[2]
    [] g.t \in Shaped ->
         /\ g.t = "MP" => Len(g.c) >= 2
         /\ \A p \in Range(Polys(g)) : Len(p) >= 1
         /\ \A r \in Range(Rings(g)) :
              Len(r) >= 3 /\ \A s \in RingPairs(r) : s[1] # s[2]
    [] OTHER -> FALSE

\* No vertex of the ring is collinear with its neighbours.
NoStraightVertex(r) ==
  \A i \in 1..Len(r) :
    LET p == r[i]
        q == r[(i % Len(r)) + 1]
        n == r[((i + 1) % Len(r)) + 1]
    IN  p # q /\ Side(MkEdge(p, q), n) # 0

\* Edges of a ring meet only at common vertices of neighbours.
SimpleRing(r) ==
  /\ Len(r) >= 3
  /\ Cardinality(Range(r)) = Len(r)
  /\ LET n == Len(r)
         e == [i \in 1..n |-> MkEdge(r[i], r[(i % n) + 1])]
     IN \A i \in 1..n : \A j \in (i + 1)..n :
          IF j = i + 1 \/ (i = 1 /\ j = n)
          THEN ~EdgesOverlap(e[i], e[j])
          ELSE ~EdgesMeet(e[i], e[j])

\* What the library calls a valid contour / multisegment.
ValidContour(r) ==
  /\ Len(r) >= 3
  /\ \A s \in RingPairs(r) : s[1] # s[2]
  /\ NoStraightVertex(r)
  /\ SimpleRing(r)

Meeting(e, f) == CutPoints(e, f) \cup CutPoints(f, e)

ValidSegments(pairs) ==
  /\ \A i \in 1..Len(pairs) : pairs[i][1] # pairs[i][2]
  /\ LET e == [i \in 1..Len(pairs) |-> MkEdge(pairs[i][1], pairs[i][2])]
     IN \A i \in 1..Len(pairs) : \A j \in (i + 1)..Len(pairs) :
          /\ ~EdgesOverlap(e[i], e[j])
          /\ Meeting(e[i], e[j])
               \subseteq ({e[i][1], e[i][2]} \cap {e[j][1], e[j][2]})

=============================================================================

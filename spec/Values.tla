------------------------------- MODULE Values --------------------------------
(***************************************************************************)
(* Geometries as values: equality, order, orientation, bounding boxes and  *)
(* relations of boxes, and the read-only sequence views of their parts.    *)
(* Besides the geometries of Shapes there are values tagged                *)
(*   "PT" a point     "B" a box <<min x, max x, min y, max y>> of <<n, d>> *)
(*   "I"  an integer  "N" a name (a bool or a member of an enumeration)    *)
(*   "L"  a sequence of values            "X" a raised exception           *)
(***************************************************************************)
EXTENDS Shapes

\* The same outcome (tags are compared first: the rest may be incomparable).
Identical(a, b) == a.t = b.t /\ a.c = b.c

Rotations(r) == {[i \in 1..Len(r) |-> r[((i + k - 2) % Len(r)) + 1]] : k \in 1..Len(r)}

\* The cyclic sequence of vertices up to its start and direction.
SameRing(r, q) ==
  Len(r) = Len(q) /\ (q \in Rotations(r) \/ Reverse(q) \in Rotations(r))

SameSets(S, T, Eqv(_, _)) ==
  /\ \A a \in S : \E b \in T : Eqv(a, b)
  /\ \A b \in T : \E a \in S : Eqv(a, b)

SamePolygon(p, q) ==
  /\ SameRing(p[1], q[1])
  /\ Len(p) = Len(q)
  /\ SameSets(Range(Tail(p)), Range(Tail(q)), SameRing)

\* When two values are equal in the library.
Same(A, B) ==
  A.t = B.t /\
  CASE A.t = "E" -> TRUE
    [] A.t = "PT" -> A.c = B.c
    [] A.t = "B" -> A.c = B.c
    [] A.t = "S" -> Range(A.c) = Range(B.c)
    [] A.t = "M" -> {Range(s) : s \in Range(A.c)} = {Range(s) : s \in Range(B.c)}
    [] A.t = "C" -> SameRing(A.c, B.c)
    [] A.t = "P" -> SamePolygon(A.c, B.c)
    [] A.t = "MP" -> SameSets(Range(A.c), Range(B.c), SamePolygon)
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Orientation of a simple ring: the turn at its least vertex. *)

RingOrientation(r) ==
  LET n == Len(r)
      i == CHOOSE i \in 1..n : \A j \in 1..n : LeP(r[i], r[j])
      p == r[((i + n - 2) % n) + 1]
      q == r[(i % n) + 1]
      o == Orient(p, r[i], q)
  IN IF o > 0 THEN "COUNTERCLOCKWISE" ELSE IF o < 0 THEN "CLOCKWISE" ELSE "COLLINEAR"

-----------------------------------------------------------------------------
(* Boxes.  Coordinates are reduced fractions <<n, d>>, d > 0. *)

LtQ(p, q) == p[1] * q[2] < q[1] * p[2]
LeQ(p, q) == ~LtQ(q, p)
RatOf(n, d) == LET g == GCD(Abs(n), d) IN <<n \div g, d \div g>>
MinQ(S) == CHOOSE p \in S : \A q \in S : LeQ(p, q)
MaxQ(S) == CHOOSE p \in S : \A q \in S : LeQ(q, p)

BoundingBox(g) ==
  LET V == IF g.t = "P" THEN Range(g.c[1])
           ELSE IF g.t = "MP" THEN UNION {Range(p[1]) : p \in Range(g.c)}
           ELSE Vertices(g)
      xs == {RatOf(p[1], p[3]) : p \in V}
      ys == {RatOf(p[2], p[3]) : p \in V}
  IN <<MinQ(xs), MaxQ(xs), MinQ(ys), MaxQ(ys)>>

\* Boxes as closed point sets.
BoxValid(b) == LeQ(b[1], b[2]) /\ LeQ(b[3], b[4])
BoxSubset(a, b) == LeQ(b[1], a[1]) /\ LeQ(a[2], b[2]) /\ LeQ(b[3], a[3]) /\ LeQ(a[4], b[4])
\* a lies in the interior of b
BoxWithin(a, b) == LtQ(b[1], a[1]) /\ LtQ(a[2], b[2]) /\ LtQ(b[3], a[3]) /\ LtQ(a[4], b[4])
BoxDisjoint(a, b) == LtQ(a[2], b[1]) \/ LtQ(b[2], a[1]) \/ LtQ(a[4], b[3]) \/ LtQ(b[4], a[3])
\* common interior points
BoxInteriorsMeet(a, b) == LtQ(a[1], b[2]) /\ LtQ(b[1], a[2]) /\ LtQ(a[3], b[4]) /\ LtQ(b[3], a[4])
BoxEnclosed(a, b) == BoxSubset(a, b) /\ a # b /\ ~BoxWithin(a, b)

BoxRelation(a, b) ==
  IF a = b THEN "EQUAL"
  ELSE IF BoxWithin(a, b) THEN "WITHIN"
  ELSE IF BoxWithin(b, a) THEN "COVER"
  ELSE IF BoxSubset(a, b) THEN "ENCLOSED"
  ELSE IF BoxSubset(b, a) THEN "ENCLOSES"
  ELSE IF BoxDisjoint(a, b) THEN "DISJOINT"
  ELSE IF BoxInteriorsMeet(a, b) THEN "OVERLAP"
  ELSE "TOUCH"

BoxNonDegenerate(b) == LtQ(b[1], b[2]) /\ LtQ(b[3], b[4])

B2N(b) == IF b THEN "True" ELSE "False"

\* Specified outcomes of the methods of boxes.
BoxMethod(m, a, b) ==
  CASE m = "covers" -> B2N(BoxWithin(b, a))
    [] m = "within" -> B2N(BoxWithin(a, b))
    [] m = "encloses" -> B2N(BoxEnclosed(b, a))
    [] m = "enclosed_by" -> B2N(BoxEnclosed(a, b))
    [] m = "equals_to" -> B2N(a = b)
    [] m = "disjoint_with" -> B2N(BoxDisjoint(a, b))
    [] m = "touches" -> B2N(~BoxDisjoint(a, b) /\ ~BoxInteriorsMeet(a, b))
    [] m = "overlaps" -> B2N(BoxInteriorsMeet(a, b)
                             /\ ~BoxSubset(a, b) /\ ~BoxSubset(b, a))
    [] m = "relate_to" -> BoxRelation(a, b)

-----------------------------------------------------------------------------
(* Views: immutable sequences with Python's indexing and slicing. *)

Parts(g, w) ==
  LET Pt(p) == [t |-> "PT", c |-> p]
      Sg(s) == [t |-> "S", c |-> s]
      Cn(r) == [t |-> "C", c |-> r]
      Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
  IN CASE w = "vertices" -> Map(Pt, g.c)
       [] w = "segments" -> Map(Sg, EdgePairs(g))
       [] w = "holes" -> Map(Cn, Tail(g.c))
       [] w = "polygons" -> Map(LAMBDA p : [t |-> "P", c |-> p], g.c)

SameParts(s, q) == Len(s) = Len(q) /\ \A i \in 1..Len(s) : Same(s[i], q[i])
IdenticalParts(s, q) == Len(s) = Len(q) /\ \A i \in 1..Len(s) : Identical(s[i], q[i])

\* Python's normalisation of the bounds of a slice; "n" is None.
Clamp(i, n, lo, hi) == LET j == IF i < 0 THEN i + n ELSE i IN
                       IF j < lo THEN lo ELSE IF j > hi THEN hi ELSE j

\* i, j, k are sequences: empty for None, or of one integer.
Slice(s, i, j, k) ==
  LET n == Len(s)
      step == IF k = <<>> THEN 1 ELSE k[1]
      lo == IF step > 0 THEN 0 ELSE -1
      hi == IF step > 0 THEN n ELSE n - 1
      from == IF i = <<>> THEN (IF step > 0 THEN lo ELSE hi) ELSE Clamp(i[1], n, lo, hi)
      to == IF j = <<>> THEN (IF step > 0 THEN hi ELSE lo) ELSE Clamp(j[1], n, lo, hi)
      len == IF step > 0 THEN (IF from < to THEN ((to - from - 1) \div step) + 1 ELSE 0)
             ELSE (IF to < from THEN ((from - to - 1) \div (-step)) + 1 ELSE 0)
  IN [m \in 1..len |-> s[from + (m - 1) * step + 1]]

\* First index (from zero) of v in s between the bounds, -1 if there is none.
IndexOf(s, v, i, j) ==
  LET n == Len(s)
      from == IF i = <<>> THEN 0 ELSE Clamp(i[1], n, 0, n)
      to == IF j = <<>> THEN n ELSE Clamp(j[1], n, 0, n)
      hits == {m \in from..(to - 1) : Same(s[m + 1], v)}
  IN IF hits = {} THEN -1 ELSE CHOOSE m \in hits : \A l \in hits : m <= l

\* One query of a view s (other is the view of the second object).
ViewQueryClause(s, other, q) ==
  LET r == q.r
      Is(b) == r.t = "N" /\ r.c = B2N(b)
  IN CASE q.m = "len" -> IF r.t = "I" /\ r.c = Len(s) THEN "" ELSE "view-len"
       [] q.m = "iter" -> IF r.t = "L" /\ IdenticalParts(r.c, s) THEN "" ELSE "view-iter"
       [] q.m = "reversed" ->
            IF r.t = "L" /\ IdenticalParts(r.c, Reverse(s)) THEN "" ELSE "view-reversed"
       [] q.m = "get" ->
            LET j == IF q.i < 0 THEN q.i + Len(s) ELSE q.i
            IN IF j < 0 \/ j >= Len(s)
               THEN IF r.t = "X" /\ r.c = "IndexError" THEN "" ELSE "view-get-range"
               ELSE IF Identical(r, s[j + 1]) THEN "" ELSE "view-get"
       [] q.m = "slice" ->
            IF q.k = <<0>>
            THEN IF r.t = "X" /\ r.c = "ValueError" THEN "" ELSE "view-slice-zero"
            ELSE IF r.t = "L" /\ IdenticalParts(r.c, Slice(s, q.i, q.j, q.k))
                 THEN "" ELSE "view-slice"
       [] q.m = "count" ->
            IF r.t = "I" /\ r.c = Cardinality({i \in 1..Len(s) : Same(s[i], q.v)})
            THEN "" ELSE "view-count"
       [] q.m = "index" ->
            LET i == IndexOf(s, q.v, q.i, q.j)
            IN IF i < 0 THEN IF r.t = "X" /\ r.c = "ValueError" THEN "" ELSE "view-index-missing"
               ELSE IF r.t = "I" /\ r.c = i THEN "" ELSE "view-index"
       [] q.m = "contains" ->
            IF Is(\E i \in 1..Len(s) : Same(s[i], q.v)) THEN "" ELSE "view-contains"
       [] q.m = "eq" -> IF Is(SameParts(s, other)) THEN "" ELSE "view-eq"
       [] q.m = "ne" -> IF Is(~SameParts(s, other)) THEN "" ELSE "view-ne"
       [] q.m = "hasheq" ->
            IF r.t = "N" /\ (SameParts(s, other) => r.c = "True") THEN "" ELSE "view-hash"

=============================================================================

------------------------------- MODULE Tilings -------------------------------
(***************************************************************************)
(* The library seen through a fixed tiling of a part of the plane by       *)
(* triangles.  A shaped value is a set of tiles, a linear one a set of     *)
(* sides of tiles; operations are set algebra and relations are finite     *)
(* combinatorics: no arrangements, sides or parities are involved.  This   *)
(* is a second, independent semantics of the library on all the values     *)
(* that a tiling can express.                                              *)
(*                                                                         *)
(* An abstract value is [k |-> dimension, s |-> set]: of tiles <<p, q, r>> *)
(* (counterclockwise) for k = 2, of sides <<p, q>> (p < q) for k = 1, and  *)
(* [k |-> 0, s |-> {}] is the empty geometry.                              *)
(***************************************************************************)
EXTENDS Semantics

P1(x, y) == <<x, y, 1>>

\* A square of four tiles with the lower left corner <<x, y>> and half-side h.
Crossed(x, y, h) ==
  LET a == P1(x, y)  b == P1(x + 2 * h, y)
      c == P1(x + 2 * h, y + 2 * h)  d == P1(x, y + 2 * h)
      m == P1(x + h, y + h)
  IN {<<a, b, m>>, <<b, c, m>>, <<c, d, m>>, <<d, a, m>>}

\* A square cut by a diagonal: rising or falling.
Halved(x, y, h, rising) ==
  LET a == P1(x, y)  b == P1(x + h, y)
      c == P1(x + h, y + h)  d == P1(x, y + h)
  IN IF rising THEN {<<a, b, c>>, <<a, c, d>>} ELSE {<<a, b, d>>, <<b, c, d>>}

\* Triangles around m with consecutive points of the ring r on the outside.
Around(m, r) == {<<r[i], r[(i % Len(r)) + 1], m>> : i \in 1..Len(r)}

Tiling(name) ==
  CASE name = "crossed" -> Crossed(0, 0, 1)
    [] name = "strip" -> Crossed(0, 0, 1) \cup Crossed(2, 0, 1)
    [] name = "fan" ->
         Around(P1(2, 2), <<P1(0, 0), P1(2, 0), P1(4, 0), P1(4, 2),
                            P1(4, 4), P1(2, 4), P1(0, 4), P1(0, 2)>>)
    [] name = "two" -> Halved(0, 0, 2, TRUE) \cup Halved(2, 0, 2, FALSE)
    [] name = "nest" ->
         LET a == P1(0, 0)  b == P1(9, 0)  c == P1(0, 9)  p == P1(2, 2)  q == P1(4, 2)
         IN {<<a, b, q>>, <<a, q, p>>, <<a, p, c>>, <<b, c, q>>, <<q, c, p>>}
    [] name = "column" -> UNION {Halved(0, y, 1, Odd(y)) : y \in 0..3}
    [] name = "board" ->
         UNION {Halved(3 * x, 3 * y, 3, Odd(x + y)) : x \in 0..2, y \in 0..2}
    [] name = "slats" ->
         UNION {Halved(4 * x, 4 * y, 4, TRUE) : x \in 0..3, y \in 0..3}
    [] name = "quilt" ->
         UNION {Crossed(4 * x, 4 * y, 2) : x \in 0..2, y \in 0..2}
    [] name = "skew" ->
         \* no two lines through inner points parallel to an axis
         LET r == <<P1(0, 3), P1(5, 0), P1(11, 1), P1(16, 6), P1(14, 13), P1(7, 16), P1(1, 11)>>
             q == <<P1(4, 5), P1(7, 3), P1(11, 5), P1(12, 9), P1(9, 12), P1(5, 12), P1(3, 8)>>
             n == 7
         IN Around(P1(8, 8), q)
            \cup UNION {{<<r[i], r[(i % n) + 1], q[i]>>,
                         <<r[(i % n) + 1], q[(i % n) + 1], q[i]>>} : i \in 1..n}

-----------------------------------------------------------------------------

Turned(p, q) == IF LtP(p, q) THEN <<p, q>> ELSE <<q, p>>
TileArcs(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
TileSides(t) == {Turned(e[1], e[2]) : e \in TileArcs(t)}
SidesOf(T) == UNION {TileSides(t) : t \in T}

\* A tiling is one: tiles are proper and only meet in common sides and ends.
IsTiling(T) ==
  /\ \A t \in T : Orient(t[1], t[2], t[3]) > 0
  /\ \A t \in T, u \in T : t # u => TileArcs(t) \cap TileArcs(u) = {}
  /\ \A e \in SidesOf(T), f \in SidesOf(T) : e # f =>
       LET d == MkEdge(e[1], e[2])  g == MkEdge(f[1], f[2])
       IN ~EdgesOverlap(d, g) /\ Meeting(d, g) \subseteq {e[1], e[2]} \cap {f[1], f[2]}

\* Sides on the boundary of a set of tiles: those of exactly one of them.
Rim(S) == LET arcs == UNION {TileArcs(t) : t \in S}
          IN {Turned(e[1], e[2]) : e \in {a \in arcs : <<a[2], a[1]>> \notin arcs}}

Nothing == [k |-> 0, s |-> {}]
Mk(k, s) == IF s = {} THEN Nothing ELSE [k |-> k, s |-> s]
Boundary1(v) == IF v.k = 2 THEN Rim(v.s) ELSE v.s

-----------------------------------------------------------------------------
(* Operations *)

SetOp(op, S, T) ==
  CASE op = "and" -> S \cap T
    [] op = "or" -> S \cup T
    [] op = "sub" -> S \ T
    [] op = "xor" -> (S \ T) \cup (T \ S)

\* Is the operation on values of these dimensions defined?
Defined(op, a, b) ==
  a.k = 0 \/ b.k = 0 \/ a.k = b.k \/ op = "and" \/ (op = "sub" /\ a.k = 1)

Apply(op, a, b) ==
  IF a.k = 0 \/ b.k = 0 \/ a.k = b.k
  THEN Mk(Max2(a.k, b.k), SetOp(op, a.s, b.s))
  ELSE LET l == IF a.k = 1 THEN a ELSE b
           r == IF a.k = 1 THEN b ELSE a
       IN Mk(1, SetOp(op, l.s, SidesOf(r.s)))

-----------------------------------------------------------------------------
(* Relations *)

Cross3(u, v) == u[1] * v[2] - u[2] * v[1]
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
\* Is the direction w strictly inside the counterclockwise sector from u to v?
InSector(u, v, w) ==
  LET uv == Cross3(u, v)  uw == Cross3(u, w)  wv == Cross3(w, v)
  IN IF uv > 0 THEN uw > 0 /\ wv > 0
     ELSE IF uv < 0 THEN uw > 0 \/ wv > 0 \/ (uw = 0 /\ Dot(u, w) < 0 )
     ELSE \* opposite directions
          uw > 0

RaysAt(S, p) == {<<e[2][1] - e[1][1], e[2][2] - e[1][2]>> : e \in {f \in S : f[1] = p}}
                \cup {<<e[1][1] - e[2][1], e[1][2] - e[2][2]>> : e \in {f \in S : f[2] = p}}

CrossesAt(S, T, p) ==
  \E u \in RaysAt(S, p), v \in RaysAt(S, p) : u # v /\
    \E w \in RaysAt(T, p), z \in RaysAt(T, p) : InSector(u, v, w) /\ InSector(v, u, z)

TileRelation(a, b) ==
  LET A == Boundary1(a)  B == Boundary1(b)
      meet == Ends(A) \cap Ends(B) # {}
  IN IF a.k = 0 \/ b.k = 0 THEN (IF a = b THEN "EQUAL" ELSE "DISJOINT")
     ELSE IF a.k = 1 /\ b.k = 1
     THEN IF A = B THEN "EQUAL"
          ELSE IF A \subseteq B THEN "COMPONENT"
          ELSE IF B \subseteq A THEN "COMPOSITE"
          ELSE IF A \cap B # {} THEN "OVERLAP"
          ELSE IF \E p \in Ends(A) \cap Ends(B) : CrossesAt(A, B, p) THEN "CROSS"
          ELSE IF meet THEN "TOUCH" ELSE "DISJOINT"
     ELSE IF a.k = 2 /\ b.k = 2
     THEN IF a.s = b.s THEN "EQUAL"
          ELSE IF a.s \subseteq b.s
               THEN IF ~meet THEN "WITHIN" ELSE IF A \subseteq B THEN "COMPONENT" ELSE "ENCLOSED"
          ELSE IF b.s \subseteq a.s
               THEN IF ~meet THEN "COVER" ELSE IF B \subseteq A THEN "COMPOSITE" ELSE "ENCLOSES"
          ELSE IF a.s \cap b.s # {} THEN "OVERLAP"
          ELSE IF meet THEN "TOUCH" ELSE "DISJOINT"
     ELSE LET L == IF a.k = 1 THEN A ELSE B
              R == IF a.k = 1 THEN B ELSE A
              S == IF a.k = 1 THEN b.s ELSE a.s
              within == L \cap (SidesOf(S) \ R)
              outside == L \ SidesOf(S)
              w == IF outside = {}
                   THEN IF within = {} THEN "COMPONENT"
                        ELSE IF meet THEN "ENCLOSED" ELSE "WITHIN"
                   ELSE IF within # {} THEN "CROSS"
                   ELSE IF meet THEN "TOUCH" ELSE "DISJOINT"
          IN IF a.k = 1 THEN w ELSE Complement(w)

-----------------------------------------------------------------------------
(* Locations of corners of tiles, middles of sides and inner points. *)

Halfway(e) == Reduce(e[1][1] + e[2][1], e[1][2] + e[2][2], 2)
Inner(t) == Reduce(t[1][1] + t[2][1] + t[3][1], t[1][2] + t[2][2] + t[3][2], 3)

\* Location of the corner c / the middle of the side e / inside of the tile t.
AtCorner(v, c) ==
  IF v.k = 0 THEN "EXTERIOR"
  ELSE IF c \in Ends(Boundary1(v)) THEN "BOUNDARY"
  ELSE IF v.k = 2 /\ \E t \in v.s : c \in Range(t) THEN "INTERIOR" ELSE "EXTERIOR"
AtSide(v, e) ==
  IF v.k = 0 THEN "EXTERIOR"
  ELSE IF e \in Boundary1(v) THEN "BOUNDARY"
  ELSE IF v.k = 2 /\ e \in SidesOf(v.s) THEN "INTERIOR" ELSE "EXTERIOR"
AtTile(v, t) == IF v.k = 2 /\ t \in v.s THEN "INTERIOR" ELSE "EXTERIOR"

-----------------------------------------------------------------------------
(* Do values of the library denote abstract ones? *)

EdgesOf(S) == {MkEdge(e[1], e[2]) : e \in S}

\* r denotes the value [k, s].
DenotesClause(r, k, s) ==
  IF r.t = "X" THEN "raised-" \o r.c
  ELSE IF k = 0 THEN IF r.t = "E" THEN "" ELSE "not-empty"
  ELSE IF r.t \notin (IF k = 2 THEN Shaped ELSE Linear) THEN "result-type"
  ELSE IF ~WellFormed(r) THEN "result-ill-formed"
  ELSE
  LET rim == EdgesOf(IF k = 2 THEN Rim(s) ELSE s)
      dec == Decompose(EdgePairs(r), {<<e[1], e[2]>> : e \in rim})
      covered == UNION Range(dec[2])
  IN IF dec[1] # "" THEN dec[1]
     ELSE IF SumCard(dec[2]) # Cardinality(covered) THEN "edges-overlap"
     ELSE IF covered # {<<e[1], e[2]>> : e \in rim} THEN "edges-missing"
     ELSE IF k = 2 THEN
          LET F == {<<e[1], e[2]>> : e \in rim}
          IN RegionClause(r, dec[2], F, [f \in F |-> Sides(rim, Probe(f), TRUE)])
     ELSE ""

=============================================================================

------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Exact plane geometry over the rationals, in TLC's 32-bit integers.      *)
(*                                                                         *)
(* A point is a reduced homogeneous triple <<X, Y, D>>, D > 0, standing    *)
(* for (X/D, Y/D).  An edge is <<p, q, a, b, c>>: endpoints p < q (in the  *)
(* lexicographic order) and the primitive integer line a*x + b*y + c = 0   *)
(* through them, oriented so that it is positive to the left of p -> q.    *)
(*                                                                         *)
(* All inputs lie on the integer grid 0..16 (the harness maps every        *)
(* recorded coordinate back there); then every edge of every result lies   *)
(* on a line through two grid points: |a|,|b| <= 16, |c| <= 256, every     *)
(* vertex has D <= 512 and |X|,|Y| <= 16*D, and no expression below leaves *)
(* the 32-bit range (worst case: the side test of the middle of two        *)
(* vertices, 3*16*16*2*512*512 < 2^29).                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x < y THEN y ELSE x
Odd(n) == n % 2 = 1

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

Reduce(X, Y, D) ==
  LET s == IF D < 0 THEN -1 ELSE 1
      g == GCD(GCD(Abs(D), Abs(X)), Abs(Y))
  IN  <<(s * X) \div g, (s * Y) \div g, (s * D) \div g>>

-----------------------------------------------------------------------------
(* Points *)

LtX(p, q) == p[1] * q[3] < q[1] * p[3]
LtY(p, q) == p[2] * q[3] < q[2] * p[3]
EqX(p, q) == p[1] * q[3] = q[1] * p[3]
EqY(p, q) == p[2] * q[3] = q[2] * p[3]
\* The library's total order on points: by x, then by y.
LtP(p, q) == LET u == p[1] * q[3]  v == q[1] * p[3]
             IN  u < v \/ (u = v /\ p[2] * q[3] < q[2] * p[3])
LeP(p, q) == p = q \/ LtP(p, q)

\* Orientation of r with respect to p -> q; exact only for points whose
\* denominators are small (grid points), other tests go through edges' lines.
Orient(p, q, r) ==
  Sgn(  (p[2] * q[3] - q[2] * p[3]) * r[1]
      + (q[1] * p[3] - p[1] * q[3]) * r[2]
      + (p[1] * q[2] - q[1] * p[2]) * r[3])

Middle(p, q) == <<p[1] * q[3] + q[1] * p[3], p[2] * q[3] + q[2] * p[3],
                  2 * p[3] * q[3]>>

-----------------------------------------------------------------------------
(* Edges *)

LineThrough(p, q) ==
  LET a == p[2] * q[3] - q[2] * p[3]
      b == q[1] * p[3] - p[1] * q[3]
      c == p[1] * q[2] - q[1] * p[2]
  IN  IF p[3] = 1 /\ q[3] = 1 THEN <<a, b, c>>
      ELSE LET g == GCD(GCD(Abs(a), Abs(b)), Abs(c))
           IN  <<a \div g, b \div g, c \div g>>

MkEdge(p, q) ==
  IF LtP(p, q) THEN LET l == LineThrough(p, q) IN <<p, q, l[1], l[2], l[3]>>
  ELSE LET l == LineThrough(q, p) IN <<q, p, l[1], l[2], l[3]>>

Side(e, m) == e[3] * m[1] + e[4] * m[2] + e[5] * m[3]
OnEdge(e, m) == Side(e, m) = 0 /\ LeP(e[1], m) /\ LeP(m, e[2])
IsVertical(e) == e[4] = 0

\* Points of e at which it meets f: the crossing or touching point, or for
\* collinear edges those endpoints of f that e contains.
CutPoints(e, f) ==
  IF LtX(e[2], f[1]) \/ LtX(f[2], e[1]) THEN {}
  ELSE
  LET o1 == Sgn(Side(e, f[1]))
      o2 == Sgn(Side(e, f[2]))
  IN IF o1 = 0 /\ o2 = 0 THEN
          {r \in {f[1], f[2]} : LeP(e[1], r) /\ LeP(r, e[2])}
     ELSE IF o1 * o2 > 0 THEN {}
     ELSE
     LET o3 == Sgn(Side(f, e[1]))
         o4 == Sgn(Side(f, e[2]))
     IN IF o3 * o4 > 0 THEN {}
        ELSE IF o1 = 0 THEN {f[1]}
        ELSE IF o2 = 0 THEN {f[2]}
        ELSE IF o3 = 0 THEN {e[1]}
        ELSE IF o4 = 0 THEN {e[2]}
        ELSE {Reduce(e[4] * f[5] - f[4] * e[5],
                     e[5] * f[3] - f[5] * e[3],
                     e[3] * f[4] - f[3] * e[4])}

EdgesMeet(e, f) == CutPoints(e, f) # {} \/ CutPoints(f, e) # {}
EdgesOverlap(e, f) ==
  /\ Side(e, f[1]) = 0
  /\ Side(e, f[2]) = 0
  /\ LtP(e[1], f[2])
  /\ LtP(f[1], e[2])

-----------------------------------------------------------------------------
(* Arrangements: an edge is cut into fragments <<p, q>>, p < q. *)

SortedPoints(S) == SetToSortSeq(S, LtP)

Chain(s) == {<<s[i], s[i + 1]>> : i \in 1..(Len(s) - 1)}

FragmentsOf(e, all) ==
  LET cuts == UNION {CutPoints(e, f) : f \in all} \ {e[1], e[2]}
  IN  IF cuts = {} THEN {<<e[1], e[2]>>}
      ELSE Chain(<<e[1]>> \o SortedPoints(cuts) \o <<e[2]>>)

\* Fragments of the edges of E in the arrangement of the edges of all.
Fragments(E, all) == UNION {FragmentsOf(e, all) : e \in E}

Ends(F) == {f[1] : f \in F} \cup {f[2] : f \in F}

\* <<middle point, is vertical>> of a fragment.
Probe(f) == <<Middle(f[1], f[2]), EqX(f[1], f[2])>>

\* Number of edges of E strictly above the probe (to the right of it, if the
\* probe lies on a vertical fragment): an infinitesimal shift of the probe off
\* the line that carries it to that ("upper") side is inside the region with
\* boundary E iff that number is odd.
UpperCount(E, probe) ==
  LET m == probe[1] IN
  IF probe[2]
  THEN Cardinality({e \in E :
         \/ e[3] < 0 /\ ~LtY(m, e[1]) /\ LtY(m, e[2]) /\ Side(e, m) > 0
         \/ e[3] > 0 /\ ~LtY(m, e[2]) /\ LtY(m, e[1]) /\ Side(e, m) < 0})
  ELSE Cardinality({e \in E :
         ~LtX(m, e[1]) /\ LtX(m, e[2]) /\ Side(e, m) < 0})

\* <<upper side inside, lower side inside>> for the region bounded by E, at
\* the fragment f with the given probe; bounding says if f lies on E.
Sides(E, probe, bounding) ==
  LET u == Odd(UpperCount(E, probe))
  IN  <<u, u # bounding>>

\* Is the point strictly inside the region with boundary E? (m not on E)
InsideRegion(E, m) ==
  Odd(Cardinality({e \in E : ~LtX(m, e[1]) /\ LtX(m, e[2]) /\ Side(e, m) < 0}))

=============================================================================

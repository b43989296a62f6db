----------------------------- MODULE Semantics ------------------------------
(***************************************************************************)
(* What the operations of the library mean, as postconditions over their   *)
(* operands and result.  Every X...Clause operator returns "" if the       *)
(* recorded outcome is the specified one and otherwise the name of the     *)
(* first broken clause; it is total, also for ill-formed outcomes.         *)
(*                                                                         *)
(* The plane is cut by the edges of the operands into faces; every bounded *)
(* face and the unbounded one are adjacent to fragments of edges, so a     *)
(* statement about all points of the plane off the edges is a statement    *)
(* about both sides of every fragment.                                     *)
(***************************************************************************)
EXTENDS Shapes

-----------------------------------------------------------------------------
(* Boolean operations *)

BoolOp(op, x, y) ==
  CASE op = "and" -> x /\ y
    [] op = "or" -> x \/ y
    [] op = "sub" -> x /\ ~y
    [] op = "xor" -> x # y

\* The arrangement of operands A and B:
\*   fa, fb   fragments of the edges of each
\*   side     fragment -> <<A up, A down, B up, B down>>: which side of the
\*            fragment lies inside of a shaped operand
Arrangement(EA, EB, shapedA, shapedB) ==
  LET all == EA \cup EB
      fa == Fragments(EA, all)
      fb == Fragments(EB, all)
  IN [fa |-> fa, fb |-> fb,
      side |-> TLCEval([f \in fa \cup fb |->
         LET pr == Probe(f)
             sa == IF shapedA THEN Sides(EA, pr, f \in fa) ELSE <<FALSE, FALSE>>
             sb == IF shapedB THEN Sides(EB, pr, f \in fb) ELSE <<FALSE, FALSE>>
         IN <<sa[1], sa[2], sb[1], sb[2]>>])]

\* Fragments of F on the edge e.
On(F, e) == {f \in F : Side(e, f[1]) = 0 /\ Side(e, f[2]) = 0
                       /\ LeP(e[1], f[1]) /\ LeP(f[2], e[2])}

\* Does the set of fragments G of a line cover the edge e without gaps?
Covers(G, e) ==
  LET starts == {f[1] : f \in G}
      ends == {f[2] : f \in G}
  IN  e[1] \in starts /\ e[2] \in ends
      /\ starts \ {e[1]} = ends \ {e[2]}

\* Decomposition of the edges of a result (as a sequence of <<p, q>>) into
\* fragments of F: <<"clause", {}>> or <<"", sequence of sets of fragments>>.
Decompose(pairs, F) ==
  LET V == Ends(F)
  IN IF \E s \in Range(pairs) : s[1] = s[2] THEN <<"trivial-edge", <<>>>>
     ELSE IF \E s \in Range(pairs) : s[1] \notin V \/ s[2] \notin V
          THEN <<"foreign-vertex", <<>>>>
     ELSE LET parts == TLCEval([i \in 1..Len(pairs) |->
                LET e == MkEdge(pairs[i][1], pairs[i][2]) IN
                IF <<e[1], e[2]>> \in F THEN {<<e[1], e[2]>>} ELSE On(F, e)])
          IN IF \E i \in 1..Len(pairs) :
                  ~Covers(parts[i], MkEdge(pairs[i][1], pairs[i][2]))
             THEN <<"edge-off-operands", <<>>>>
             ELSE <<"", parts>>

SumCard(parts) == FoldLeft(LAMBDA n, s : n + Cardinality(s), 0, parts)

\* The fragments that must form the boundary of the shaped result.
ExpectedBoundary(op, arr) ==
  {f \in DOMAIN arr.side :
     LET s == arr.side[f]
     IN  BoolOp(op, s[1], s[3]) # BoolOp(op, s[2], s[4])}

\* Is the value r a set of disjoint valid polygons covering exactly the faces
\* where inside(f, upper) says so?  edges of r are decomposed into parts.
RegionClause(r, parts, F, inside) ==
  LET polys == Polys(r)
      rings == Rings(r)
      total == UNION Range(parts)
      \* fragments of each ring, in the order of Rings(r)
      offs == TLCEval([i \in 1..Len(rings) |->
                 FoldLeft(LAMBDA n, q : n + Len(q), 0, SubSeq(rings, 1, i - 1))])
      frs == TLCEval([i \in 1..Len(rings) |->
                UNION {parts[offs[i] + j] : j \in 1..Len(rings[i])}])
      edges == TLCEval([i \in 1..Len(rings) |-> RingEdges(rings[i])])
      pofs == TLCEval([k \in 1..Len(polys) |->
                 FoldLeft(LAMBDA n, q : n + Len(q), 0, SubSeq(polys, 1, k - 1))])
      \* <<upper, lower>> side inside of ring i at f
      at == TLCEval([f \in F |->
              LET pr == Probe(f)
              IN  [i \in 1..Len(rings) |-> Sides(edges[i], pr, f \in frs[i])]])
      \* the rings that are borders, and the polygon of each ring
      borders == {pofs[k] + 1 : k \in 1..Len(polys)}
      of == TLCEval([i \in 1..Len(rings) |->
              CHOOSE k \in 1..Len(polys) :
                pofs[k] < i /\ i <= pofs[k] + Len(polys[k])])
      \* the rings around each side of f: borders and holes
      around == TLCEval([f \in F |-> [h \in 1..2 |->
                  LET row == at[f]
                      in == {i \in 1..Len(rings) : row[i][h]}
                      hs == in \ borders
                  IN [borders |-> {of[i] : i \in in \cap borders},
                      holes |-> {of[i] : i \in hs}, n |-> Cardinality(hs)]]])
      Owners(f, h) == around[f][h].borders \ around[f][h].holes
  IN IF SumCard(parts) # Cardinality(total) THEN "edges-overlap"
     ELSE IF \E i \in 1..Len(rings) : Cardinality(Ends(frs[i])) # Cardinality(frs[i])
          THEN "ring-not-simple"
     ELSE IF \E i \in 1..Len(rings) : ~NoStraightVertex(rings[i])
          THEN "ring-straight-vertex"
     ELSE IF \E f \in F : \E h \in 1..2 :
               around[f][h].n # Cardinality(around[f][h].holes)
          THEN "holes-overlap"
     ELSE IF \E f \in F : \E h \in 1..2 :
               ~(around[f][h].holes \subseteq around[f][h].borders)
          THEN "hole-outside-border"
     ELSE IF \E f \in F : \E h \in 1..2 : Cardinality(Owners(f, h)) > 1
          THEN "polygons-overlap"
     ELSE IF \E f \in F : \E h \in 1..2 :
               inside[f][h] /\ Owners(f, h) = {}
          THEN "region-missing"
     ELSE IF \E f \in F : \E h \in 1..2 :
               ~inside[f][h] /\ Owners(f, h) # {}
          THEN "region-extra"
     ELSE ""

\* Shaped (or empty) operands, shaped (or empty) result.
ShapedOpClause(op, A, B, arr, r) ==
  IF r.t = "X" THEN "raised-" \o r.c
  ELSE IF r.t \notin {"E"} \cup Shaped THEN "result-type"
  ELSE IF ~WellFormed(r) THEN "result-ill-formed"
  ELSE
  LET F == DOMAIN arr.side
      dec == Decompose(EdgePairs(r), F)
      inside == TLCEval([f \in F |->
         LET s == arr.side[f]
         IN <<BoolOp(op, s[1], s[3]), BoolOp(op, s[2], s[4])>>])
  IN IF dec[1] # "" THEN dec[1] ELSE RegionClause(r, dec[2], F, inside)

\* Linear results: expected set of fragments, each covered once.
LineClause(r, F, expected) ==
  IF r.t = "X" THEN "raised-" \o r.c
  ELSE IF r.t \notin {"E"} \cup Linear THEN "result-type"
  ELSE IF ~WellFormed(r) THEN "result-ill-formed"
  ELSE
  LET dec == Decompose(EdgePairs(r), F)
      total == UNION Range(dec[2])
  IN IF dec[1] # "" THEN dec[1]
     ELSE IF SumCard(dec[2]) # Cardinality(total) THEN "edges-overlap"
     ELSE IF ~(expected \subseteq total) THEN "points-missing"
     ELSE IF ~(total \subseteq expected) THEN "points-extra"
     ELSE ""

LinearOpClause(op, A, B, arr, r) ==
  LET F == DOMAIN arr.side
      MA(f) == IF A.t \in Shaped THEN arr.side[f][1] \/ arr.side[f][2] ELSE f \in arr.fa
      MB(f) == IF B.t \in Shaped THEN arr.side[f][3] \/ arr.side[f][4] ELSE f \in arr.fb
  IN LineClause(r, F, {f \in F : BoolOp(op, MA(f), MB(f))})

\* Operand types for which an operation is not defined: TypeError.
Unsupported(op, A, B) ==
  \/ op \in {"or", "xor"} /\ Dim(A) # Dim(B) /\ Dim(A) # 0 /\ Dim(B) # 0
  \/ op = "sub" /\ ((Dim(A) = 2 /\ Dim(B) = 1) \/ (A.t = "S" /\ Dim(B) = 2))

\* The arrangement two operands are compared in.
ArrangementOf(A, B) ==
  Arrangement(Edges(A), Edges(B), A.t \in Shaped, B.t \in Shaped)

OpClauseIn(op, A, B, arr, r) ==
  IF Unsupported(op, A, B)
  THEN IF r.t = "X" /\ r.c = "TypeError" THEN "" ELSE "unsupported-accepted"
  ELSE IF Dim(A) = 1 \/ Dim(B) = 1 THEN LinearOpClause(op, A, B, arr, r)
  ELSE ShapedOpClause(op, A, B, arr, r)

OpClause(op, A, B, r) == OpClauseIn(op, A, B, ArrangementOf(A, B), r)

-----------------------------------------------------------------------------
(* Relations *)

Complement(rel) ==
  CASE rel = "COMPONENT" -> "COMPOSITE" [] rel = "COMPOSITE" -> "COMPONENT"
    [] rel = "COVER" -> "WITHIN"        [] rel = "WITHIN" -> "COVER"
    [] rel = "ENCLOSED" -> "ENCLOSES"   [] rel = "ENCLOSES" -> "ENCLOSED"
    [] OTHER -> rel

\* Quadrant of the direction <<x, y>>, counterclockwise from the positive x.
Quadrant(d) == IF d[1] > 0 /\ d[2] >= 0 THEN 0
               ELSE IF d[1] <= 0 /\ d[2] > 0 THEN 1
               ELSE IF d[1] < 0 /\ d[2] <= 0 THEN 2 ELSE 3
AngleLt(c, d) ==
  LET i == Quadrant(c)  j == Quadrant(d)
  IN  i < j \/ (i = j /\ c[1] * d[2] - c[2] * d[1] > 0)

\* Directions in which the edges of E leave the point m lying on them.
Directions(E, m) ==
  UNION {(IF m # e[2] THEN {<<e[4], -e[3]>>} ELSE {})
         \cup (IF m # e[1] THEN {<<-e[4], e[3]>>} ELSE {}) :
         e \in {x \in E : OnEdge(x, m)}}
Primitive(d) == LET g == GCD(Max2(Abs(d[1]), Abs(d[2])), Min2(Abs(d[1]), Abs(d[2])))
                IN <<d[1] \div g, d[2] \div g>>

\* Do the rays of the two sets interleave around their common start, i.e. is
\* there a cyclic subsequence a b a b?
RaysInterleave(RA, RB) ==
  LET seq == SetToSortSeq(RA \cup RB, AngleLt)
      n == Len(seq)
  IN Cardinality({i \in 1..n :
        (seq[i] \in RA) # (seq[(i % n) + 1] \in RA)}) >= 4

RelateLinear(EA, EB, arr) ==
  LET fa == arr.fa
      fb == arr.fb
      common == Ends(fa) \cap Ends(fb)
      CrossAt(m) ==
        LET RA == {Primitive(d) : d \in Directions(EA, m)}
            RB == {Primitive(d) : d \in Directions(EB, m)}
        IN  RaysInterleave(RA, RB)
  IN IF fa = fb THEN "EQUAL"
     ELSE IF fa \subseteq fb THEN "COMPONENT"
     ELSE IF fb \subseteq fa THEN "COMPOSITE"
     ELSE IF fa \cap fb # {} THEN "OVERLAP"
     ELSE IF common = {} THEN "DISJOINT"
     ELSE IF \E m \in common : CrossAt(m) THEN "CROSS"
     ELSE "TOUCH"

\* Relation of the linear operand to the shaped one: fl and fs are fragments
\* of their edges and In(f) = <<upper, lower>> sides of f in the shaped one.
RelateLinearToShaped(fl, fs, In(_)) ==
  LET meet == Ends(fl) \cap Ends(fs) # {}
      in == \E f \in fl : In(f)[1] /\ In(f)[2]
      out == \E f \in fl : ~In(f)[1] /\ ~In(f)[2]
  IN IF out THEN (IF in THEN "CROSS" ELSE IF meet THEN "TOUCH" ELSE "DISJOINT")
     ELSE IF in THEN (IF meet THEN "ENCLOSED" ELSE "WITHIN")
     ELSE "COMPONENT"

RelateShaped(arr) ==
  LET F == DOMAIN arr.side
      meet == Ends(arr.fa) \cap Ends(arr.fb) # {}
      Some(x, y) == \E f \in F : LET s == arr.side[f] IN
                      (s[1] = x /\ s[3] = y) \/ (s[2] = x /\ s[4] = y)
      Part(f1, f2) == IF ~meet THEN "WITHIN"
                      ELSE IF f1 \subseteq f2 THEN "COMPONENT" ELSE "ENCLOSED"
  IN IF ~Some(TRUE, FALSE)
     THEN IF ~Some(FALSE, TRUE) THEN "EQUAL" ELSE Part(arr.fa, arr.fb)
     ELSE IF ~Some(FALSE, TRUE) THEN Complement(Part(arr.fb, arr.fa))
     ELSE IF Some(TRUE, TRUE) THEN "OVERLAP"
     ELSE IF meet THEN "TOUCH" ELSE "DISJOINT"

RelateIn(A, B, arr) ==
  IF A.t = "E" \/ B.t = "E" THEN (IF A.t = B.t THEN "EQUAL" ELSE "DISJOINT")
  ELSE CASE Dim(A) = 1 /\ Dim(B) = 1 -> RelateLinear(Edges(A), Edges(B), arr)
         [] Dim(A) = 1 /\ Dim(B) = 2 ->
              LET In(f) == <<arr.side[f][3], arr.side[f][4]>>
              IN  RelateLinearToShaped(arr.fa, arr.fb, In)
         [] Dim(A) = 2 /\ Dim(B) = 1 ->
              LET In(f) == <<arr.side[f][1], arr.side[f][2]>>
              IN  Complement(RelateLinearToShaped(arr.fb, arr.fa, In))
         [] OTHER -> RelateShaped(arr)

Relate(A, B) == RelateIn(A, B, ArrangementOf(A, B))

-----------------------------------------------------------------------------
(* Location of a point *)

Locate(g, p) ==
  LET E == Edges(g)
  IN IF \E e \in E : OnEdge(e, p) THEN "BOUNDARY"
     ELSE IF g.t \in Shaped /\ InsideRegion(E, p) THEN "INTERIOR"
     ELSE "EXTERIOR"

=============================================================================

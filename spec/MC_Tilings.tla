------------------------------ MODULE MC_Tilings ------------------------------
(***************************************************************************)
(* The two semantics of the library agree: for all pairs of values of a    *)
(* tiling, what Semantics says about their boundaries as sets of merged    *)
(* edges is what Tilings says about sets of tiles; and the relations obey  *)
(* the laws of relations.                                                  *)
(***************************************************************************)
EXTENDS Tilings

CONSTANTS Name, KA, KB   \* tiling; dimensions of the operands

Tiles == Tiling(Name)
Universe(k) == IF k = 2 THEN Tiles ELSE SidesOf(Tiles)
Values(k) == {Mk(k, s) : s \in SUBSET Universe(k)}

VARIABLES a, b
None == [k |-> -1, s |-> {}]

Init == a \in Values(KA) /\ b = None
Next == b = None /\ b' \in Values(KB) /\ UNCHANGED a

\* Sides merged into longest edges at straight corners nothing else meets.
RECURSIVE Merged(_)
Merged(S) ==
  LET straight == {p \in Ends(S) :
         LET at == {e \in S : p \in {e[1], e[2]}}
         IN Cardinality(at) = 2 /\
            LET e == CHOOSE e \in at : TRUE
                f == CHOOSE f \in at : f # e
                o == IF f[1] = p THEN f[2] ELSE f[1]
            IN Side(MkEdge(e[1], e[2]), o) = 0}
  IN IF straight = {} THEN S
     ELSE LET p == CHOOSE p \in straight : TRUE
              at == {e \in S : p \in {e[1], e[2]}}
              ends == UNION {{e[1], e[2]} : e \in at} \ {p}
              q == CHOOSE q \in ends : TRUE
              r == CHOOSE r \in ends : r # q
          IN Merged((S \ at) \cup {Turned(q, r)})

Geometry1(v) == EdgesOf(Merged(Boundary1(v)))

\* A set of fragments as the set of sides they cover.
Spread(F) == Fragments({MkEdge(f[1], f[2]) : f \in F}, EdgesOf(SidesOf(Tiles)))

OpsAgree ==
  b # None =>
  LET arr == Arrangement(Geometry1(a), Geometry1(b), a.k = 2, b.k = 2)
      F == DOMAIN arr.side
      M(v, f, i) == IF v.k = 2 THEN arr.side[f][i] \/ arr.side[f][i + 1]
                    ELSE f \in (IF i = 1 THEN arr.fa ELSE arr.fb)
  IN \A op \in {"and", "or", "sub", "xor"} :
       Defined(op, a, b) =>
         LET want == Boundary1(Apply(op, a, b))
             got == IF a.k # 1 /\ b.k # 1 THEN ExpectedBoundary(op, arr)
                    ELSE {f \in F : BoolOp(op, M(a, f, 1), M(b, f, 3))}
         IN Spread(got) = want

RelationOfBoundaries ==
  LET arr == Arrangement(Geometry1(a), Geometry1(b), a.k = 2, b.k = 2)
      T(v) == [t |-> CASE v.k = 0 -> "E" [] v.k = 1 -> "M" [] v.k = 2 -> "MP", c |-> <<>>]
      InA(f) == <<arr.side[f][1], arr.side[f][2]>>
      InB(f) == <<arr.side[f][3], arr.side[f][4]>>
  IN IF a.k = 0 \/ b.k = 0 THEN (IF a = b THEN "EQUAL" ELSE "DISJOINT")
     ELSE IF a.k = 1 /\ b.k = 1 THEN RelateLinear(Geometry1(a), Geometry1(b), arr)
     ELSE IF a.k = 1 THEN RelateLinearToShaped(arr.fa, arr.fb, InB)
     ELSE IF b.k = 1 THEN Complement(RelateLinearToShaped(arr.fb, arr.fa, InA))
     ELSE RelateShaped(arr)

RelationsAgree == b # None => RelationOfBoundaries = TileRelation(a, b)

\* Laws of relations.
Laws ==
  b # None =>
  LET w == TileRelation(a, b)
  IN /\ Complement(TileRelation(b, a)) = w
     /\ Complement(Complement(w)) = w
     /\ (w = "EQUAL") <=> (a = b)
     /\ a.k = b.k => (w \in {"COMPONENT", "ENCLOSED", "WITHIN"} <=>
                        (a.s \subseteq b.s /\ a # b /\ a.k # 0))
     /\ a.k = b.k /\ w \in {"DISJOINT", "TOUCH", "CROSS"} => a.s \cap b.s = {}
     \* the operations and the relation tell the same
     /\ a.k = b.k => LET i == Apply("and", a, b) IN
          /\ (w = "OVERLAP" => i # Nothing /\ i # a /\ i # b)
          /\ (w \in {"COMPONENT", "ENCLOSED", "WITHIN"} => i = a)
          /\ (w \in {"COMPOSITE", "ENCLOSES", "COVER"} => i = b)
     /\ Apply("xor", a, a) = Nothing
     /\ a.k = b.k =>
          /\ Apply("or", Apply("sub", a, b), Apply("and", a, b)) = a
          /\ Apply("xor", a, b) = Apply("sub", Apply("or", a, b), Apply("and", a, b))

\* Points of all sorts are located as their tiles are.
LocationsAgree ==
  b = None => \* once for each value
    LET E == Geometry1(a)
        At(p) == IF \E e \in E : OnEdge(e, p) THEN "BOUNDARY"
                 ELSE IF a.k = 2 /\ InsideRegion(E, p) THEN "INTERIOR" ELSE "EXTERIOR"
    IN /\ \A t \in Tiles : At(Inner(t)) = AtTile(a, t)
       /\ \A e \in SidesOf(Tiles) : At(Halfway(e)) = AtSide(a, e)
       /\ \A p \in Ends(SidesOf(Tiles)) : At(p) = AtCorner(a, p)

Proper == IsTiling(Tiles)
ASSUME Proper
=============================================================================

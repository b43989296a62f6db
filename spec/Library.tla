------------------------------- MODULE Library -------------------------------
(***************************************************************************)
(* The library as a state machine.  Its state is the heap of the values    *)
(* a program holds; all values are immutable, so the only transition that  *)
(* changes the state is one that appends a new value.  A transition is a   *)
(* step [a |-> action, ...arguments..., r |-> outcome]; StepClause says    *)
(* which outcomes are allowed in a heap ("" or the broken clause), and     *)
(* Produced which values the step adds to the heap.                        *)
(***************************************************************************)
EXTENDS Tilings, Meshes

IsName(r, n) == r.t = "N" /\ r.c = n

-----------------------------------------------------------------------------
(* Construction: values are what they are built from. *)

\* Exception of constructing a geometry with too few parts, "" if none.
ConstructionError(g) ==
  CASE g.t = "M" -> IF Len(g.c) < 2 THEN "ValueError" ELSE ""
    [] g.t = "C" -> IF Len(g.c) < 3 THEN "ValueError" ELSE ""
    [] g.t = "MP" -> IF Len(g.c) < 2 THEN "ValueError" ELSE ""
    [] OTHER -> ""

NewClause(g, r) ==
  LET e == ConstructionError(g)
  IN IF e # "" THEN IF r.t = "X" /\ r.c = e THEN "" ELSE "construction-accepted"
     ELSE IF Identical(r, g) THEN "" ELSE "construction"

-----------------------------------------------------------------------------
(* Evaluation of nested expressions: <<"x">> is the operand number x,      *)
(* <<op, l, r>> an operation; m is the membership of the operands.         *)

RECURSIVE Eval(_, _), Leaves(_)
Eval(e, m) ==
  IF e.o = "x" THEN m[e.x] ELSE BoolOp(e.o, Eval(e.l, m), Eval(e.r, m))
Leaves(e) == IF e.o = "x" THEN {e.x} ELSE Leaves(e.l) \cup Leaves(e.r)

\* The value r of an expression over shaped operands, on any history of
\* intermediate results, is the Boolean combination of the operands.
TreeClause(heap, e, r) ==
  LET xs == Leaves(e)
      E == [x \in xs |-> Edges(heap[x])]
      all == UNION {E[x] : x \in xs}
      F == Fragments(all, all)
      frs == [x \in xs |-> Fragments(E[x], all)]
      shaped == \A x \in xs : heap[x].t \in {"E"} \cup Shaped
      sides == [f \in F |-> LET pr == Probe(f) IN
                 [x \in xs |-> IF heap[x].t \in Shaped THEN Sides(E[x], pr, f \in frs[x])
                               ELSE <<f \in frs[x], f \in frs[x]>>]]
      inside == [f \in F |->
                 <<Eval(e, [x \in xs |-> sides[f][x][1]]),
                   Eval(e, [x \in xs |-> sides[f][x][2]])>>]
  IN IF r.t = "X" THEN "raised-" \o r.c
     ELSE IF shaped
     THEN IF r.t \notin {"E"} \cup Shaped THEN "result-type"
          ELSE IF ~WellFormed(r) THEN "result-ill-formed"
          ELSE LET dec == Decompose(EdgePairs(r), F)
               IN IF dec[1] # "" THEN dec[1] ELSE RegionClause(r, dec[2], F, inside)
     ELSE LineClause(r, F, {f \in F :
            Eval(e, [x \in xs |-> sides[f][x][1] \/ sides[f][x][2]])})

-----------------------------------------------------------------------------

LocationsClause(g, ps, r, ins) ==
  LET E == Edges(g)
      At(p) == IF \E e \in E : OnEdge(e, p) THEN "BOUNDARY"
               ELSE IF g.t \in Shaped /\ InsideRegion(E, p) THEN "INTERIOR"
               ELSE "EXTERIOR"
      bad == {i \in 1..Len(ps) : ~IsName(r[i], At(ps[i]))}
      badIn == {i \in 1..Len(ps) : ~IsName(ins[i], B2N(At(ps[i]) # "EXTERIOR"))}
  IN IF bad # {} THEN LET i == CHOOSE i \in bad : TRUE IN
                      "location-" \o ToString(i) \o "-not-" \o At(ps[i])
     ELSE IF badIn # {} THEN "contains-" \o ToString(CHOOSE i \in badIn : TRUE)
     ELSE ""

ValidClause(g, r) ==
  LET v == CASE g.t = "C" -> ValidContour(g.c)
             [] g.t = "M" -> ValidSegments(g.c)
             [] g.t = "B" -> BoxValid(g.c)
  IN IF IsName(r, B2N(v)) THEN "" ELSE "valid-not-" \o B2N(v)

\* Results of operations on valid operands are valid in the library's own view.
EqualityClause(A, B, r) ==
  LET s == Same(A, B)
  IN IF ~IsName(r.eq, B2N(s)) \/ ~IsName(r.qe, B2N(s)) THEN "eq-not-" \o B2N(s)
     ELSE IF ~IsName(r.ne, B2N(~s)) THEN "ne-not-" \o B2N(~s)
     ELSE IF s /\ ~IsName(r.hash, "True") THEN "hash-differs"
     ELSE ""

OrderClause(p, q, r) ==
  IF IsName(r.lt, B2N(LtP(p, q))) /\ IsName(r.le, B2N(LeP(p, q)))
     /\ IsName(r.gt, B2N(LtP(q, p))) /\ IsName(r.ge, B2N(LeP(q, p)))
  THEN "" ELSE "order"

BoxClause(a, b, r) ==
  LET bad == {m \in DOMAIN r :
                ~((m = "relate_to" /\ ~(BoxNonDegenerate(a) /\ BoxNonDegenerate(b)))
                  \/ IsName(r[m], BoxMethod(m, a, b)))}
  IN IF bad = {} THEN "" ELSE "box-" \o CHOOSE m \in bad : TRUE

PairOps == <<"and", "or", "sub", "xor">>

\* All the operations on, and both relations of, a pair of operands at once.
PairClause(A, B, st) ==
  LET arr == ArrangementOf(A, B)
      cs == [i \in 1..4 |-> IF PairOps[i] \in DOMAIN st
                            THEN LET c == OpClauseIn(PairOps[i], A, B, arr, st[PairOps[i]])
                                 IN IF c = "" THEN "" ELSE PairOps[i] \o ":" \o c
                            ELSE ""]
      bad == {i \in 1..4 : cs[i] # ""}
      w == RelateIn(A, B, arr)
  IN IF bad # {} THEN cs[CHOOSE i \in bad : TRUE]
     ELSE IF "rel" \notin DOMAIN st THEN ""
     ELSE IF ~IsName(st.rel, w) THEN "relation-not-" \o w
     ELSE IF "rev" \in DOMAIN st /\ ~IsName(st.rev, Complement(w))
          THEN "reverse-relation-not-" \o Complement(w)
     ELSE ""

StepClause(heap, steps, st) ==
  CASE st.a = "new" -> NewClause(st.g, st.r)
    [] st.a = "raw" -> ""
    [] st.a = "scramble" -> ""  \* the lists values were built from change, values do not
    [] st.a = "args" -> IF st.r = st.w THEN "" ELSE "argument-changed"
    [] st.a = "op" -> OpClause(st.op, heap[st.x], heap[st.y], st.r)
    [] st.a = "pair" -> PairClause(heap[st.x], heap[st.y], st)
    [] st.a = "rel" -> LET w == Relate(heap[st.x], heap[st.y])
                       IN IF IsName(st.r, w) THEN "" ELSE "relation-not-" \o w
    [] st.a = "tree" -> TreeClause(heap, st.e, st.r)
    [] st.a = "denotes" -> DenotesClause(heap[st.x], st.k, Range(st.s))
    [] st.a = "found" ->
         LET bad == {i \in 1..Len(st.w) : ~IsName(st.r[i], st.w[i])}
         IN IF bad = {} THEN "" ELSE "location-not-" \o st.w[CHOOSE i \in bad : TRUE]
    [] st.a = "complement" ->
         IF IsName(st.r, Complement(st.w)) THEN "" ELSE "complement-not-" \o Complement(st.w)
    [] st.a = "locs" -> LocationsClause(heap[st.x], st.ps, st.r, st.ins)
    [] st.a = "valid" -> ValidClause(heap[st.x], st.r)
    [] st.a = "isvalid" -> IF IsName(st.r, "True") THEN "" ELSE "result-invalid"
    [] st.a = "eq" -> EqualityClause(heap[st.x], heap[st.y], st.r)
    [] st.a = "cmp" -> OrderClause(heap[st.x].c, heap[st.y].c, st.r)
    [] st.a = "peek" -> IF Identical(st.r, heap[st.x]) THEN "" ELSE "value-changed"
    [] st.a = "repr" -> IF Identical(st.r, heap[st.x]) THEN "" ELSE "repr-not-value"
    [] st.a = "str" -> IF Identical(st.r, heap[st.x]) THEN "" ELSE "str-not-value"
    [] st.a = "again" -> IF Identical(st.r, steps[st.of].r) THEN "" ELSE "not-deterministic"
    [] st.a = "orientation" ->
         LET w == RingOrientation(heap[st.x].c)
         IN IF IsName(st.r, w) THEN "" ELSE "orientation-not-" \o w
    [] st.a = "bbox" ->
         IF st.r.t = "B" /\ st.r.c = BoundingBox(heap[st.x]) THEN "" ELSE "bounding-box"
    [] st.a = "box" -> BoxClause(heap[st.x].c, heap[st.y].c, st.r)
    [] st.a = "view" ->
         LET s == IF "sx" \in DOMAIN st     \* slices are views, too
                  THEN Slice(Parts(heap[st.x], st.w), st.sx.i, st.sx.j, st.sx.k)
                  ELSE Parts(heap[st.x], st.w)
             o == IF "sy" \in DOMAIN st
                  THEN Slice(Parts(heap[st.y], st.w), st.sy.i, st.sy.j, st.sy.k)
                  ELSE Parts(heap[st.y], st.w)
             cs == [i \in 1..Len(st.q) |-> ViewQueryClause(s, o, st.q[i])]
             bad == {i \in 1..Len(st.q) : cs[i] # ""}
         IN IF bad = {} THEN "" ELSE cs[CHOOSE i \in bad : TRUE]
    [] st.a = "delaunay" ->
         IF st.r.t # "T" THEN "raised-" \o st.r.c
         ELSE DelaunayClause(st.ps, st.r.c, st.r.b)
    [] st.a = "constrained" ->
         IF st.r.t # "T" THEN "raised-" \o st.r.c
         ELSE ConstrainedClause(heap[st.x], st.r.c, st.r.b)
    [] st.a = "raises" -> IF st.r.t = "X" /\ st.r.c = st.w THEN "" ELSE "not-raised-" \o st.w
    [] st.a = "is" -> IF IsName(st.r, st.w) THEN "" ELSE "not-" \o st.w

Produced(st) ==
  CASE st.a \in {"new", "op", "raw"} -> <<st.r>>
    [] st.a = "pair" -> SelectSeq([i \in 1..4 |-> IF PairOps[i] \in DOMAIN st THEN st[PairOps[i]]
                                                  ELSE [t |-> "-", c |-> <<>>]],
                                  LAMBDA v : v.t # "-")
    [] st.a = "bbox" -> <<st.r>>
    [] OTHER -> <<>>

=============================================================================

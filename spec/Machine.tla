------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* The library as an abstract machine over a tiling: programs make values, *)
(* combine them and ask about them, in any order.  The heap holds abstract *)
(* values; log is the program so far, with the outcomes it must have.      *)
(* Behaviours of this machine are replayed on the implementation.          *)
(***************************************************************************)
EXTENDS Tilings, Randomization

CONSTANTS Name,     \* of the tiling
          Depth     \* steps of a behaviour

Tiles == Tiling(Name)
AllSides == SidesOf(Tiles)
Corners == Ends(AllSides)

VARIABLES heap, log
vars == <<heap, log>>

Steps == Len(log)
Do(step) == log' = Append(log, step)

\* A new shaped or linear value.
Make(k, s) ==
  /\ s # {}
  /\ heap' = Append(heap, Mk(k, s))
  /\ Do([a |-> "make", k |-> k, s |-> s])

Combine(op, x, y) ==
  /\ IF Defined(op, heap[x], heap[y])
     THEN LET v == Apply(op, heap[x], heap[y])
          IN /\ heap' = Append(heap, v)
             /\ Do([a |-> "op", op |-> op, x |-> x, y |-> y, k |-> v.k, s |-> v.s])
     ELSE UNCHANGED heap /\ Do([a |-> "bad", op |-> op, x |-> x, y |-> y])

Compare(x, y) ==
  /\ UNCHANGED heap
  /\ Do([a |-> "relate", x |-> x, y |-> y, w |-> TileRelation(heap[x], heap[y])])

Find(x, ps) ==
  /\ UNCHANGED heap
  /\ Do([a |-> "locate", x |-> x, ps |-> ps])

Init == heap = <<>> /\ log = <<>>

\* Points with their locations, of each sort.
Places(v) ==
  {<<c, AtCorner(v, c)>> : c \in Corners}
  \cup {<<Halfway(e), AtSide(v, e)>> : e \in AllSides}
  \cup {<<Inner(t), AtTile(v, t)>> : t \in Tiles}

\* Random subsets, large and small.
Some(S) == RandomSubset(RandomElement(1..Cardinality(S)), S)

Random ==
  IF Steps < 3
  THEN \/ Make(2, Some(Tiles))
       \/ Make(1, Some(AllSides))
       \/ Make(2, Some(Tiles))
  ELSE \E x \in {RandomElement(1..Len(heap))} :
       \E y \in {RandomElement(1..Len(heap))} :
          \/ \E op \in {"and", "or", "sub", "xor"} : Combine(op, x, y)
          \/ Compare(x, y)
          \/ Find(x, RandomSubset(6, Places(heap[x])))
          \/ Steps < 6 /\ Make(2, Some(Tiles))
          \/ Steps < 6 /\ Make(1, Some(AllSides))

End == Steps = Depth /\ UNCHANGED heap /\ Do([a |-> "end"])

Next == (Steps < Depth /\ Random) \/ End
Spec == Init /\ [][Next]_vars

=============================================================================

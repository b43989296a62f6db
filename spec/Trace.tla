------------------------------- MODULE Trace ---------------------------------
(***************************************************************************)
(* Are the histories recorded from the implementation behaviours of the    *)
(* library's state machine?  The file named by TRACE has one session per   *)
(* line, a record with the sequence s of steps.  A step whose outcome the  *)
(* machine does not allow is printed (all of them are looked for).         *)
(***************************************************************************)
EXTENDS Library, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sess, pos, heap
vars == <<sess, pos, heap>>

Init == sess \in 1..Len(Sessions) /\ pos = 0 /\ heap = <<>>

Next ==
  /\ pos < Len(Sessions[sess].s)
  /\ LET steps == Sessions[sess].s
         st == steps[pos + 1]
         c == StepClause(heap, steps, st)
     IN IF c = ""
        THEN pos' = pos + 1 /\ heap' = heap \o Produced(st)
        ELSE /\ PrintT(<<"BAD", sess, pos + 1, c>>)
             /\ pos' = Len(steps)  \* the rest of the history is not judged
             /\ heap' = heap
  /\ UNCHANGED sess

Spec == Init /\ [][Next]_vars
=============================================================================

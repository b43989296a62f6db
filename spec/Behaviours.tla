----------------------------- MODULE Behaviours ------------------------------
(***************************************************************************)
(* Random behaviours of the machine, printed for replay (tlc -simulate).   *)
(***************************************************************************)
EXTENDS Machine, Json

Printed == Steps > Depth => PrintT("RUN " \o ToJson(log))
=============================================================================

----------------------------- MODULE LayoutGen ------------------------------
(***************************************************************************)
(* Writes the layout tables of QRLayout to JSON, one version per state, so *)
(* that trace validation does not compute them again in every run.         *)
(* tools/mklayout.sh runs it; the thorough tier recomputes and compares.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, QRTables, QRLayout
VARIABLES ver, done
Init == ver \in Versions /\ done = FALSE
Write == /\ ~done
         /\ done' = TRUE
         /\ UNCHANGED ver
         /\ LET kk == KindTab(ver)
            IN  JsonSerialize(IOEnv.VERIF_OUT \o "/" \o ToString(ver) \o ".json",
                              [kinds |-> kk, order |-> DataOrder(ver, kk)])
Spec == Init /\ [][Write]_<<ver, done>>
=============================================================================

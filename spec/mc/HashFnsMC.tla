------------------------------- MODULE HashFnsMC -------------------------------
(***************************************************************************)
(* All hash functions on three left and three right keys, for the harness. *)
(***************************************************************************)
EXTENDS TwoTables, TLC, Json
Init == hl \in HashFns(3) /\ hr \in HashFns(3)
Next == UNCHANGED <<hl, hr>>
ExportH == PrintT("H " \o ToJson(<<hl, hr>>))
=============================================================================

------------------------------ MODULE NRandom ------------------------------
(***************************************************************************)
(* Groups of larger patterns, chosen at random by tools/rand.py and read   *)
(* from a file.  Their outcomes are computed by NSem like all others.      *)
(***************************************************************************)
EXTENDS NSem, Json, IOUtils

RandGroups ==
    LET raw == JsonDeserialize(IOEnv.RANDOM_GROUPS)
    IN <<>> \o [g \in 1..Len(raw) |->
         [raw[g] EXCEPT !.ops = {raw[g].ops[i] : i \in 1..Len(raw[g].ops)}, !.ps = SelectSeq(raw[g].ps, WF)]]
TheRandom == RandGroups
=============================================================================

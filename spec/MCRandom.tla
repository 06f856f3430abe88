----------------------------- MODULE MCRandom ------------------------------
(* model-checking instance of NCases for random programs; the laws are the *)
(* same as for the enumerated families                                     *)
EXTENDS NLaws, NRandom
=============================================================================

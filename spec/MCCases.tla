------------------------------ MODULE MCCases ------------------------------
(* model-checking instance of NCases for one property, see tools/check.py *)
EXTENDS NFamilies, NLaws
=============================================================================

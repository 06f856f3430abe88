----------------------------- MODULE MCSession ------------------------------
EXTENDS NSessFam, NSession
=============================================================================

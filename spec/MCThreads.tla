------------------------------ MODULE MCThreads -----------------------------
EXTENDS NThrFam, NThreads
=============================================================================

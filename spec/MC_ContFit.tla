----------------------------- MODULE MC_ContFit -----------------------------
EXTENDS ContFit
=============================================================================

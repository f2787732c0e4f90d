---------------------------- MODULE ArrayHist ----------------------------
EXTENDS ArraySpec, Hist
InvRefines == Refines(s)
InvCap == CapOK(s)
=============================================================================

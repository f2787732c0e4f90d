----------------------------- MODULE StrHist -----------------------------
EXTENDS StrSpec, Hist
InvFits == Fits(s)
=============================================================================

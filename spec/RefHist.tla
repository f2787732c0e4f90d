----------------------------- MODULE RefHist -----------------------------
EXTENDS RefSpec, Hist
InvAlive == Alive(s)
InvWeak == WeakSound(s)
=============================================================================

----------------------------- MODULE MapHist -----------------------------
EXTENDS MapSpec, Hist
InvIndex == IndexOK(s)
InvFind == FindOK(s)
InvKeys == KeysOnce(s)
\* in the generator every offered operation acts on the abstract map as it does on buffers and index
InvAgrees == \A op \in MOps(s) : Agrees(s, op)
=============================================================================

-------------------------- MODULE IteratorOrderMC ---------------------------
EXTENDS IteratorOrderSM
=============================================================================

----------------------------- MODULE IteratorMC ------------------------------
EXTENDS IteratorSM
=============================================================================

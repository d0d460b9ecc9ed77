---------------------------- MODULE HashTableMC ------------------------------
EXTENDS HashTableSM
View == <<l, r, paired>>
=============================================================================

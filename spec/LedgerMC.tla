------------------------------ MODULE LedgerMC ------------------------------
EXTENDS Ledger
Holds == {<<0, 0>>, <<1, 0>>, <<2, 1>>}
One == {<<1, 0>>}
=============================================================================

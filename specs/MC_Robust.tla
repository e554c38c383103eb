------------------------------ MODULE MC_Robust ------------------------------
EXTENDS Robust
Spec == RInit /\ [][RNext]_rvars
=============================================================================

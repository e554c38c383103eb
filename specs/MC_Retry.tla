------------------------------ MODULE MC_Retry ------------------------------
EXTENDS Retry
Spec == RInit /\ [][RNext]_rvars
=============================================================================

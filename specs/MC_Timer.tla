------------------------------ MODULE MC_Timer ------------------------------
EXTENDS Timer
Spec == MInit /\ [][MNext]_mvars
Small == fired <= 4
=============================================================================

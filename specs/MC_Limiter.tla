----------------------------- MODULE MC_Limiter -----------------------------
EXTENDS Limiter
Init == \E c \in Caps : LInit(c)
Spec == Init /\ [][LNext]_lvars /\ LFair
=============================================================================

----------------------------- MODULE MC_Combine -----------------------------
EXTENDS Combine
Spec == /\ op = [n \in Ops |-> NoOp] /\ joined = [c \in Callers |-> 0] /\ pend = [c \in Callers |-> 0]
        /\ [][CNext]_cvars
=============================================================================

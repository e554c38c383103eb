----------------------------- MODULE MC_Counters -----------------------------
EXTENDS Counters
Spec == CInit /\ [][CNext]_cvars
Small == \A p \in DOMAIN cnt : cnt[p].total <= 6 /\ cnt[p].resets <= 3
MCPaths == {<<"g", "a">>, <<"g", "t", "a">>}
=============================================================================

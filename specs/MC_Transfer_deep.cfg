CONSTANTS
  MaxBlock = 2
  Stall = 2
  Settle = 1
  MaxNow = 4
  MaxReq = 2
  MaxUp = 2
  Devs = {"a"}
SPECIFICATION MCSpec
CONSTRAINT Bounded
INVARIANTS OnceOnly NoLateProgress ServedRight Turned NeverStuck
CHECK_DEADLOCK FALSE

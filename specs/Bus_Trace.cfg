CONSTANTS
  Objs = {"app", "dev1", "dev2", "cluster1", "cluster2", "group1", "groups", "ep1", "zdo1"}
  Lsts <- AllLsts
  Names = {"e", "f", "g"}
  ArgVals = {}
  Handles <- TrHandles
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Judge
CHECK_DEADLOCK FALSE

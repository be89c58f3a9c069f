CONSTANTS Kinds = {"tmp", "part", "grow", "soft"}
          MaxLen = 3
          MaxTries = 1
          Bug = "forget"
SPECIFICATION Spec
INVARIANTS NoCrash Whole Nothing
PROPERTIES Ample Ends
CHECK_DEADLOCK FALSE

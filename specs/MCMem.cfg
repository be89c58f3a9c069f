CONSTANTS Kinds = {"tmp", "part", "grow", "soft"}
          MaxLen = 4
          MaxTries = 2
          Bug = "none"
SPECIFICATION Spec
INVARIANTS NoCrash Whole Nothing
PROPERTIES Ample Ends
CHECK_DEADLOCK FALSE

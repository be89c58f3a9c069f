CONSTANTS Kinds = {"tmp", "part", "grow", "soft"}
          MaxLen = 6
          MaxTries = 3
          Bug = "none"
SPECIFICATION Spec
INVARIANTS NoCrash Whole Nothing
PROPERTIES Ample Ends
CHECK_DEADLOCK FALSE

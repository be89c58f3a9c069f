CONSTANTS Bits = {0, 1, 7, 8, 100, 155, 162}
INIT Init
NEXT Next
INVARIANTS NamedSound NamedRead Different StillSound
CHECK_DEADLOCK FALSE

CONSTANTS
 Kinds = {"p12"}
 Curves <- CvDef
 Contents <- ConSmall
 Passwords <- PwDef
 Damage <- DmgSmall
 Certs <- CertDef
INIT Init
NEXT Next
INVARIANTS RoundTrip NoOther Sealed NothingLost
CHECK_DEADLOCK FALSE

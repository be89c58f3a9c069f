CONSTANTS
 Kinds = {"p12"}
 Curves <- CvDef
 Contents <- ConBig
 Passwords <- PwDef
 Damage <- DmgBig
 Certs <- CertDef
INIT Init
NEXT Next
INVARIANTS RoundTrip NoOther Sealed NothingLost
CHECK_DEADLOCK FALSE

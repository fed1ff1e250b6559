SPECIFICATION Spec
VIEW V
CONSTANTS
  Fresh <- PFresh
  Reasons <- PReasons
  Effect <- PEffect
  AtEnd <- PEnd
CHECK_DEADLOCK FALSE

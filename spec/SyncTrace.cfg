SPECIFICATION Spec
VIEW V
CONSTANTS
  Fresh <- SFresh
  Reasons <- SReasons
  Effect <- SEffect
  AtEnd <- SEnd
CHECK_DEADLOCK FALSE

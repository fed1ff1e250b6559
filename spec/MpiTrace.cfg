SPECIFICATION Spec
VIEW V
CONSTANTS
  Fresh <- MFresh
  Reasons <- MReasons
  Effect <- MEffect
  AtEnd <- MEnd
CHECK_DEADLOCK FALSE

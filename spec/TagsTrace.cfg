SPECIFICATION Spec
VIEW V
CONSTANTS
  Fresh <- TFresh
  Reasons <- TReasons
  Effect <- TEffect
  AtEnd <- TEnd
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
VIEW V
CONSTANTS
  Fresh <- GFresh
  Reasons <- GReasons
  Effect <- GEffect
  AtEnd <- GEnd
CHECK_DEADLOCK FALSE

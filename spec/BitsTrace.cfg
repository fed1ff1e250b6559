SPECIFICATION Spec
VIEW V
CONSTANTS
  Fresh <- BFresh
  Reasons <- BReasons
  Effect <- BEffect
  AtEnd <- BEnd
CHECK_DEADLOCK FALSE

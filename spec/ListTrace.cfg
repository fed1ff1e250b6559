SPECIFICATION Spec
VIEW V
CONSTANTS
  Fresh <- LFresh
  Reasons <- LReasons
  Effect <- LEffect
  AtEnd <- LEnd
CHECK_DEADLOCK FALSE

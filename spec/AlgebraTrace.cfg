SPECIFICATION Spec
VIEW V
CONSTANTS
  MAX = 9
  Fresh <- AFresh
  Reasons <- AReasons
  Effect <- AEffect
  AtEnd <- AEnd
CHECK_DEADLOCK FALSE

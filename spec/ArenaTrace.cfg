SPECIFICATION Spec
VIEW V
CONSTANTS
  Fresh <- AFresh
  Reasons <- AReasons
  Effect <- AEffect
  AtEnd <- AEnd
CHECK_DEADLOCK FALSE

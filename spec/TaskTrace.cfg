SPECIFICATION Spec
VIEW V
CHECK_DEADLOCK FALSE

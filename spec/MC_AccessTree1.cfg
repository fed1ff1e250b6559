SPECIFICATION Spec
CONSTANTS MAX = 4
 Kind = 1
INVARIANTS Symmetric Reflexive Transitive Antisymmetric Monotone SyncAll Meaning Lists
CHECK_DEADLOCK FALSE

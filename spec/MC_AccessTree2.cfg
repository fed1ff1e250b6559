SPECIFICATION Spec
CONSTANTS MAX = 3
 Kind = 2
INVARIANTS Symmetric Reflexive Transitive Antisymmetric Monotone SyncAll Meaning Lists
CHECK_DEADLOCK FALSE

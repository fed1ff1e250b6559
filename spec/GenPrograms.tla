----------------------------- MODULE GenPrograms -----------------------------
(* writes the family of programs to the file OUT, for the real library          *)
EXTENDS Programs, SequencesExt, Json, IOUtils
ASSUME /\ ndJsonSerialize(IOEnv.OUT, SetToSeq(Programs))
       /\ PrintT(<<"PROGRAMS", Cardinality(Programs)>>)
VARIABLE x
Init == x = 0
Next == FALSE /\ UNCHANGED x
=============================================================================

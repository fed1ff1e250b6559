----------------------------- MODULE ArenaTrace ----------------------------
(* A memory arena as its callers and the system see it.                        *)
(*  live[id]  blocks in use: region, first and last byte                       *)
(*  reg       regions obtained from the system, with their length              *)
EXTENDS TraceLib
AFresh(t) == [live |-> <<>>, reg |-> <<>>, chunk |-> t.arg[1], T |-> t.n, sysf |-> FALSE]
\* the block given out by the event
Blk(e) == [r |-> e[5], lo |-> e[6], hi |-> e[6] + (IF e[7] > e[4] THEN e[7] ELSE e[4]) - 1]
Disjoint(a, b) == a.r # b.r \/ a.hi < b.lo \/ b.hi < a.lo
\* memory that has to be there for the blocks in use, and what may be kept beyond it
Used(s) == Cardinality({s.live[k].r : k \in DOMAIN s.live})
AReasons(s, e) ==
  CASE e[1] = "AllocR" -> R("block.size", e[7] >= e[4])
                          \cup R("block.outside", e[5] \in DOMAIN s.reg /\ e[9] = 1 /\ Blk(e).hi < e[8])
                          \cup R("block.overlap", \A k \in DOMAIN s.live : Disjoint(s.live[k], Blk(e)))
    [] e[1] = "AllocF" -> R("block.refused", e[4] > s.chunk \div 4 \/ s.sysf)
    [] e[1] = "Free"   -> R("block.damaged", e[4] = 1)
    [] e[1] = "Sys"    -> IF e[2] = 0 THEN R("sys.twice", e[3] \notin DOMAIN s.reg)
                          ELSE R("sys.live", \A k \in DOMAIN s.live : s.live[k].r # e[3]) \cup R("sys.unknown", e[3] \in DOMAIN s.reg)
    [] e[1] = "Quiet"  -> R("memory.kept", e[2] <= Used(s) + 2 + s.T)
    [] e[1] = "Mem"    -> R("memory.bound", e[2] <= 2)
    [] e[1] = "Gone"   -> R("memory.leak", e[2] = 0)
    [] OTHER -> {}
AEffect(s, e) ==
  CASE e[1] = "AllocR" -> [s EXCEPT !.live = (e[3] :> Blk(e)) @@ @]
    [] e[1] = "Free"   -> [s EXCEPT !.live = [k \in DOMAIN @ \ {e[3]} |-> @[k]]]
    [] e[1] = "Sys"    -> [s EXCEPT !.reg = IF e[2] = 0 THEN (e[3] :> e[4]) @@ @ ELSE [k \in DOMAIN @ \ {e[3]} |-> @[k]]]
    [] e[1] = "SysF"   -> [s EXCEPT !.sysf = TRUE]
    [] e[1] = "Quiet"  -> [s EXCEPT !.sysf = FALSE]
    [] OTHER -> s
AEnd(s) == R("end.blocks", DOMAIN s.live = {})
=============================================================================

------------------------------ MODULE ModelBase ------------------------------
(* Exhaustive exploration of a component's specification: all histories of at  *)
(* most Depth calls.  With Emit = TRUE every maximal history is printed, so    *)
(* that it can be stepped through the real code.                               *)
EXTENDS Base, Json
CONSTANTS MInits,        \* set of <<cfg, abstract state>>
          MCalls(_, _),  \* MCalls(cfg, st): the calls [op |-> , a |-> ] explored from st
          MDo(_, _),     \* MDo(st, call): outcome
          Depth, Emit
VARIABLES cfg, st, h, last
mvars == <<cfg, st, h, last>>
ModelInit == \E p \in MInits : cfg = p[1] /\ st = p[2] /\ h = <<>> /\ last = [x |-> "", r |-> NONE]
ModelNext == /\ Len(h) < Depth
             /\ \E c \in MCalls(cfg, st) :
                  LET o == MDo(st, c) IN
                    /\ st' = o.st
                    /\ h' = Append(h, <<c.op>> \o c.a)
                    /\ last' = [x |-> o.x, r |-> o.r]
             /\ UNCHANGED cfg
ModelSpec == ModelInit /\ [][ModelNext]_mvars
EmitScenario == (Emit /\ Len(h) = Depth) => PrintT("@@" \o ToJson([cfg |-> cfg, ops |-> h]))
StView == <<cfg, st, Len(h)>>
=============================================================================

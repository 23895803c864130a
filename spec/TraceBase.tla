------------------------------ MODULE TraceBase ------------------------------
(* Validation of recorded traces.  Each behaviour of this specification walks  *)
(* one trace: it starts in the abstract state the component's specification    *)
(* prescribes and takes one step per recorded event, through the component's   *)
(* own step operator.  The verdict is total: `bad' names the clause that       *)
(* rejects the event, and a rejected trace takes no further step.              *)
EXTENDS Base, Json, IOUtils

CONSTANTS TInit(_),      \* TInit(cfg): abstract initial state
          TStep(_, _)    \* TStep(st, e): [st |-> next abstract state, bad |-> "" or clause]

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr, i, st, bad
vars == <<tr, i, st, bad>>

TraceInit == /\ tr \in 1 .. Len(Traces)
             /\ i = 0
             /\ st = TInit(Traces[tr].cfg)
             /\ bad = ""

Died(e) == e.x \in {"HANG", "CRASH"}

TraceNext ==
  /\ bad = ""
  /\ i < Len(Traces[tr].ev)
  /\ LET e == Traces[tr].ev[i + 1]
         r == IF Died(e) THEN [st |-> st, bad |-> e.op \o ": the call must return (" \o e.x \o ")"]
              ELSE TStep(st, e)
     IN /\ i' = i + 1
        /\ st' = r.st
        /\ bad' = r.bad
        /\ (r.bad # "" => PrintT("REJECT|" \o ToString(tr) \o "|" \o ToString(i + 1) \o "|" \o r.bad))
  /\ UNCHANGED tr

TraceSpec == TraceInit /\ [][TraceNext]_vars

\* deterministic components: TStep from the outcome `o' and the verdict on the observation
StepDet(o, e, obad) ==
  [st |-> o.st,
   bad |-> IF e.x # o.x THEN e.op \o ": raises (specified: " \o (IF o.x = "" THEN "no exception" ELSE o.x) \o ", observed: " \o (IF e.x = "" THEN "no exception" ELSE e.x) \o ")"
           ELSE IF e.x = "" /\ e.r # o.r THEN e.op \o ": result"
           ELSE IF obad # "" THEN e.op \o ": " \o obad ELSE ""]
=============================================================================

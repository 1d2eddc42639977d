---------------------------- MODULE TraceDriver ----------------------------
(* Trace validation.  Every line of the ndjson file named by the environment variable TRACE is one
   recorded execution  [id |-> n, ev |-> <<event, ...>>].  The specification being bound supplies
     TInit(tr)      the abstract state in which execution tr starts
     TApply(s, e)   the abstract state after action e (the specification's transition)
     TConf(s, e)    the set of names of the clauses that event e, observed in state s, breaks
   One behaviour per execution; one step per recorded event.  The verdict is total: a broken clause is
   reported through PrintT and ends only that execution. *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC

CONSTANTS TInit(_), TApply(_, _), TConf(_, _)

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, st, fails
tvars == <<tid, l, st, fails>>

TraceInit == /\ tid \in 1..Len(Traces)
             /\ l = 0
             /\ st = TInit(Traces[tid])
             /\ fails = {}

Bad(e) == IF "bad" \in DOMAIN e THEN {"observation is not finite / not exactly representable"} ELSE
          IF "exc" \in DOMAIN e THEN {"unexpected exception: " \o e.exc} ELSE {}

TraceNext ==
    /\ fails = {}
    /\ l < Len(Traces[tid].ev)
    /\ LET e == Traces[tid].ev[l + 1]
           b == Bad(e)
           f == IF b # {} THEN b ELSE TConf(st, e)
       IN  /\ fails' = f
           /\ st' = IF f = {} THEN TApply(st, e) ELSE st
           /\ l' = l + 1
           /\ tid' = tid

TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* always TRUE; prints a report line when a clause is broken *)
Report == fails = {} \/ PrintT("TRACEFAIL " \o ToJson([tid |-> tid, l |-> l, fails |-> fails]))
=============================================================================

------------------------------ MODULE OctTrace -----------------------------
(***************************************************************************)
(* Common part of the trace specifications: reading a recorded trace,      *)
(* reporting what does not match, and the types of the registry.           *)
(* A mismatch is reported with the properties it violates; the model then  *)
(* continues from the observed state, so that the rest is judged as well.  *)
(***************************************************************************)
EXTENDS OctDerive, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Bad(cond, ps, why) == IF cond THEN {} ELSE {[p |-> p, w |-> why] : p \in ps}
Report(l, vs, expected) ==
  IF vs = {} THEN TRUE
  ELSE PrintT("@@V " \o ToJson([l |-> l, vs |-> vs, exp |-> expected]))
Known(l, key) == PrintT("@@K " \o ToJson([l |-> l, key |-> key]))
Done(l) == PrintT("@@END " \o ToString(l))
=============================================================================

----------------------------- MODULE TraceErr -----------------------------
(***************************************************************************)
(* Validates what the real errors show: their conversions, the end of      *)
(* their chain of sources and the numbers in their messages.               *)
(***************************************************************************)
EXTENDS OctTrace, OctError

VARIABLE l
Init == l = 1
P17 == {"C17"}
Judge(ev) ==
  IF ev.r # "ok" THEN Report(l, Bad(FALSE, P17, "panic in an error's methods"), 0)
  ELSE Report(l,
    Bad(ev.leaf = RootOf(ev.tree), P17, "root cause at the end of the chain of sources")
    \cup Bad(\A d \in DataOf(ev.tree) : Named(d, ev.nums), P17, "message does not name the data")
    \cup Bad(\A d \in Own(RootOf(ev.tree)) : Named(d, ev.lnums), P17, "message of the root cause does not name its data")
    \cup Bad(ev.gen = <<>> \/ ev.gen[1] = GenericOf(ev.tree), P17, "conversion to the generic error"),
    [leaf |-> RootOf(ev.tree), gen |-> GenericOf(ev.tree)])
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ Judge(Trace[l])
  /\ (l = Len(Trace) => Done(l))
Spec == Init /\ [][Next]_l
=============================================================================

---------------------------- MODULE TraceCells ----------------------------
(***************************************************************************)
(* Validates recorded histories of values behind locks, cells and lazy     *)
(* initialisers, and the outcome of unscheduled races.                     *)
(***************************************************************************)
EXTENDS OctTrace, OctCells

VARIABLES l, s
Init == l = 1 /\ s = Fresh("cell", <<0, 0>>, 0)
P14 == {"C14"}

\* The model continues from what was observed.
Follow(os, ev) ==
  LET m == {o \in os : o.x = ev.x /\ (ev.x \notin {"ok", "err"} \/ ev.op \notin {"start", "go"} \/ o.b = ev.b)}
      o == IF m # {} THEN CHOOSE o \in m : TRUE ELSE CHOOSE o \in os : TRUE
      t == o.s
  IN IF m # {} THEN t
     ELSE CASE ev.x = "got" -> IF ev.op = "wlock" THEN [t EXCEPT !.w = TRUE] ELSE [t EXCEPT !.rd = s.rd + 1]
            [] ev.x = "held" -> s
            [] ev.x = "enter" -> Enter(t)
            [] ev.x = "mid" -> [t EXCEPT !.enc = "mid", !.held = {t.v}]
            [] ev.x = "wait" -> [t EXCEPT !.enc = "wait"]
            [] ev.op \in {"start", "go"} -> [t EXCEPT !.enc = "idle", !.held = {}]
            [] ev.op \in {"wunlock", "wpanic"} -> [t EXCEPT !.enc = "idle", !.w = FALSE]
            [] OTHER -> t
Step(ev) ==
  LET os == Outcomes(s, ev.op, ev.n)
      t == Follow(os, ev)
      xs == {o.x : o \in os}
      fin == ev.op \in {"start", "go"} /\ ev.x \in {"ok", "err"}
  IN /\ s' = t
     /\ Report(l,
          Bad(ev.x \in xs, P14, IF ev.x = "wait" THEN "blocked although access is free"
                                ELSE IF "wait" \in xs THEN "did not wait for access"
                                ELSE IF ev.op \in {"wlock", "rlock"} /\ ev.x = "got" THEN "access given while encoding"
                                ELSE IF ev.op \in {"wlock", "rlock"} THEN "access not given back"
                                ELSE "result")
          \cup Bad(ev.x \notin xs \/ ~fin \/ ev.b \in {o.b : o \in os}, P14, "bytes are not of one value held during the call")
          \cup Bad(ev.x \notin xs \/ ~fin \/ <<ev.e.p, ev.e.c.k>> \in {<<o.p, o.k>> : o \in os}, P14 \cup {"C05", "C17"}, "error")
          \cup Bad(ev.w = -1 \/ Probe(t)[1] = -1 \/ ev.w = Probe(t)[1], P14, IF ev.w = 1 THEN "not held against writers while encoding" ELSE "not given back")
          \cup Bad(ev.rd = -1 \/ Probe(t)[2] = -1 \/ ev.rd = Probe(t)[2], P14, "readers kept out")
          \cup Bad(ev.inits = Inits(t), P14, "initialised not exactly once"),
          [x |-> xs, b |-> {o.b : o \in os}, probe |-> Probe(t), inits |-> Inits(t)])
Race(ev) ==
  LET vals == {ev.vals[i] : i \in DOMAIN ev.vals}
  IN /\ UNCHANGED s
     /\ Report(l,
          Bad(\A i \in DOMAIN ev.outs : ev.outs[i].x = "ok", P14, "encoding failed in a race")
          \cup Bad(\A i \in DOMAIN ev.outs : ev.outs[i].x # "ok" \/ ev.outs[i].b \in vals, P14, "bytes are not of one value held during the call")
          \cup Bad(ev.wr = 1, P14, "writer failed in a race")
          \cup Bad(ev.inits = (IF ev.kind = "lazylock" THEN 1 ELSE 0), P14, "initialised not exactly once"),
          [vals |-> vals])
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.ev = "cnew" -> s' = Fresh(ev.kind, ev.v, ev.ip)
       [] ev.ev = "c" -> Step(ev)
       [] OTHER -> Race(ev)
  /\ (l = Len(Trace) => Done(l))
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================

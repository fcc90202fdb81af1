----------------------------- MODULE TraceText ----------------------------
(***************************************************************************)
(* Validates histories over bounded strings recorded from the real code.   *)
(***************************************************************************)
EXTENDS OctTrace, OctText

VARIABLES l, regs
vars == <<l, regs>>
None2 == <<NoText, NoText>>
Init == l = 1 /\ regs = None2

B01(x) == IF x THEN 1 ELSE 0
P10 == {"C10"}

Views(ev, c) ==
  LET w == ev.w
      b == Utf8(c.cs)
      Off(j) == Len(Utf8(SubSeq(c.cs, 1, j - 1)))
  IN
  CASE ev.op = "view" ->
         Bad(w.len = Len(b) /\ w.cap = c.n /\ w.em = B01(b = <<>>) /\ w.fu = B01(Len(b) = c.n), P10, "length or capacity")
         \cup Bad(w.b = b /\ w.s = b /\ w.a = b /\ w.ab = b /\ w.os = b /\ w.pa = b /\ w.bo = b /\ w.de = b /\ w.ts = b /\ w.pt = 1, P10, "views of the text")
         \cup Bad(w.ch = c.cs /\ w.rc = Rev(c.cs) /\ w.ci = [j \in 1..Len(c.cs) |-> <<Off(j), c.cs[j]>>], P10, "characters of the text")
         \cup Bad(w.sock = 1, P10, "socket addresses of the text")
         \cup Bad(w.dis = c.cs /\ w.pad = Padded(c.cs), P10, "formatting")
         \cup Bad(w.dbg = w.sdbg /\ w.alt = w.sdbg /\ ((\A j \in 1..Len(c.cs) : Simple(c.cs[j])) => w.dbg = Debugged(c.cs)), P10, "debug formatting")
         \cup Bad(w.hb = w.hs /\ w.hd = 1, P10, "hash")
    [] ev.op = "cmp" ->
         LET q == TextCmp(c.cs, regs[ev.b + 1].cs) IN
         Bad(w.x = Rel(q), P10, "comparison of bounded strings")
         \cup Bad(w.oc = 8 \/ (w.oc = q /\ w.mm = 1), P10, "total order")
         \cup Bad(w.st = Rel(q) \o Rel(q), P10, "comparison with plain strings")
    [] ev.op = "cst" ->
         LET q == TextCmp(c.cs, ev.d) IN Bad(w.st = Rel(q) \o Rel(q), P10, "comparison with plain strings")
    [] OTHER -> {}

ObsReg(x) == IF x.k = "e" THEN NoText ELSE LET u == Utf8Dec(x.b) IN TextOf(x.n, IF u.ok THEN u.cs ELSE <<>>)
Do(ev) ==
  LET o == [op |-> ev.op, a |-> ev.a, b |-> ev.b, n |-> ev.n, d |-> ev.d]
      s == TStep(regs, o)
      obs == [j \in 1..2 |-> ObsReg(ev.regs[j])]
      ps == P10 \cup (CASE ev.op = "enc" -> {"C02"} [] ev.op = "dec" -> {"C04"} [] OTHER -> {})
      good == IF s.r = "err|panic" THEN ev.r \in {"err", "panic"} ELSE ev.r = s.r
      vs ==
        Bad(good, ps, "result of " \o ev.op)
        \cup (IF good /\ ev.r = "ok" THEN Bad(ev.x = s.x, ps, "what " \o ev.op \o " returned") ELSE {})
        \cup (IF good /\ ev.r = "err" THEN Bad(ev.e \in s.es, ps \cup {"C17"}, "error of " \o ev.op) ELSE {})
        \cup Bad(\A j \in 1..2 : ev.regs[j].g = 1 /\ Utf8Dec(ev.regs[j].b).ok, P10, "not UTF-8, over capacity or other memory changed")
        \cup (IF good THEN Bad(obs = s.regs, ps, "text after " \o ev.op) ELSE {})
        \cup Bad(ev.heap = 0, P10, "allocator misused in " \o ev.op)
        \cup (IF ev.op \in {"view", "cmp", "cst"} /\ ev.r = "ok" THEN Views(ev, regs[ev.a + 1]) ELSE {})
  IN /\ Report(l, vs, [r |-> s.r, x |-> s.x, es |-> s.es, regs |-> s.regs])
     /\ regs' = obs

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.ev = "tnew" -> regs' = None2
       [] ev.ev = "t" -> Do(ev)
       [] ev.ev = "tend" -> Report(l, Bad(ev.heap = 0, P10, "memory around a dropped string"), 0) /\ UNCHANGED regs
  /\ (l = Len(Trace) => Done(l))
Spec == Init /\ [][Next]_vars
Inv == \A j \in 1..2 : Len(Utf8(regs[j].cs)) <= regs[j].n
=============================================================================

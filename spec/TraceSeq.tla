------------------------------ MODULE TraceSeq -----------------------------
(***************************************************************************)
(* Validates histories over bounded slices and iterators recorded from     *)
(* the real code, with the ledger of every item's life.                    *)
(***************************************************************************)
EXTENDS OctTrace, OctSeq

VARIABLES l, regs, alive, ty
vars == <<l, regs, alive, ty>>

NoRegs == [j \in 1..4 |-> Empty]
Init == l = 1 /\ regs = NoRegs /\ alive = {} /\ ty = "t"

Start(ev) == regs' = NoRegs /\ alive' = {} /\ ty' = ev.ty

(* -------------------------------- ledger ------------------------------- *)
(* Events of an item's life: <<0, id, val>> created, <<1, source, id>>     *)
(* cloned, <<2, id, dead>> dropped (dead = 1: it already was), <<3, ..>>   *)
(* something that never was an item dropped.                               *)
RECURSIVE Ledger(_, _, _)
Ledger(log, j, s) ==
  IF j > Len(log) THEN s
  ELSE LET x == log[j] IN
    Ledger(log, j + 1,
      CASE x[1] = 0 -> [s EXCEPT !.alive = @ \cup {x[2]}, !.born = @ \cup {x[2]}]
        [] x[1] = 1 -> [s EXCEPT !.alive = @ \cup {x[3]}, !.born = @ \cup {x[3]},
                                 !.bad = @ \cup (IF x[2] \in s.alive THEN {} ELSE {"an item was cloned that was not alive"})]
        [] x[1] = 2 -> [s EXCEPT !.alive = @ \ {x[2]},
                                 !.bad = @ \cup (IF x[2] \in s.alive /\ x[3] = 0 THEN {} ELSE {"an item was dropped that was not alive"})]
        [] OTHER -> [s EXCEPT !.bad = @ \cup {"memory was dropped that never was an item"}])

(* ------------------------------- matching ------------------------------ *)
IsItem(x, y, born) == IF x[1] = 0 /\ ty = "t" THEN y[1] \in born /\ y[2] = x[2] ELSE x = y
AreItems(xs, ys, born) == Len(xs) = Len(ys) /\ \A j \in 1..Len(xs) : IsItem(xs[j], ys[j], born)
IsReg(x, y, born) == x.k = y.k /\ x.n = y.n /\ AreItems(x.it, y.it, born)
Owned(rs) == UNION {Ids(rs[j].it) : j \in 1..4} \ {0}
CountItems(rs) == SumSeq([j \in 1..4 |-> Cardinality({m \in 1..Len(rs[j].it) : rs[j].it[m][1] # 0})])

IterOps == {"prt", "nxt", "bck", "ivw", "lst", "cnt", "cll", "icol"}
PropOf(ev, c) ==
  CASE ev.op \in IterOps -> {"C11"}
    [] ev.op \in {"iter"} -> {"C11", "C09"}
    [] ev.op \in {"cln", "clf"} -> IF regs[ev.b + 1].k = "i" THEN {"C11"} ELSE {"C09"}
    [] ev.op = "rev" -> IF c.k = "i" THEN {"C11"} ELSE {"C09"}
    [] ev.op = "enc" -> {"C02", "C09"}
    [] ev.op = "dec" -> {"C04", "C09"}
    [] ev.op = "dct" -> {"C04", "C12"}
    [] ev.op = "zst" -> {"C09", "C11", "C12"}
    [] OTHER -> {"C09"}

Views(ev, c) ==
  LET w == ev.w
      vs == ValsOf(c.it)
      n == Len(vs)
  IN
  CASE ev.op = "view" ->
         Bad(w.len = n /\ w.cap = c.n /\ w.em = B01(n = 0) /\ w.fu = B01(n = c.n), {"C09"}, "length or capacity")
         \cup Bad(w.ar = c.it /\ w.bo = c.it /\ w.de = c.it /\ w.ii = c.it /\ w.di = c.it /\ w.pt = 1, {"C09"}, "views of the items")
         \cup Bad(w.dbg = DebugStr(vs) /\ w.alt = 1, {"C09"}, "formatting")
         \cup Bad(w.hash = 1 /\ w.hb = HashFeed(vs), {"C09"}, "hash")
    [] ev.op = "ivw" ->
         Bad(w.lo = n /\ w.hi = n /\ w.len = n, {"C11"}, "remaining length")
         \cup Bad(w.ar = c.it, {"C11"}, "remaining items")
    [] ev.op = "cmp" ->
         LET us == ValsOf(regs[ev.b + 1].it)
             q == SeqEq(vs, us)
             p == SeqCmp(vs, us, PCmp)
         IN Bad(w.eq = B01(q) /\ w.ne = B01(~q) /\ w.es = B01(q) /\ w.ev = B01(q) /\ w.ea = B01(q), {"C09"}, "equality")
            \cup Bad(w.pc = p /\ w.ps = p /\ w.pv = p /\ w.pa = p /\ w.lt = B01(p = -1) /\ w.le = B01(p \in {-1, 0})
                     /\ w.gt = B01(p = 1) /\ w.ge = B01(p \in {0, 1}), {"C09"}, "partial order")
            \cup Bad(w.oc = 8 \/ w.oc = SeqCmp(vs, us, TCmp), {"C09"}, "total order")
    [] OTHER -> {}

Do(ev) ==
  LET o == [op |-> ev.op, a |-> ev.a, b |-> ev.b, n |-> ev.n, d |-> ev.d, cl |-> ty = "t"]
      c == regs[ev.a + 1]
      s == Step(regs, o)
      g == Ledger(ev.log, 1, [alive |-> alive, born |-> {}, bad |-> {}])
      obs == [j \in 1..4 |-> Con(ev.regs[j].k, ev.regs[j].n, ev.regs[j].it)]
      own == Owned(obs)
      lost == g.alive \ own
      ps == PropOf(ev, c)
      what == ev.op
      \* what becomes of the items an iterator passes over is part of iterating
      led == {"C12"} \cup (IF ev.op \in IterOps \cup {"clf"} /\ c.k = "i" THEN {"C11"} ELSE {})
      vs ==
        Bad(ev.r = s.r, ps, "result of " \o what)
        \cup (IF ev.r = "ok" /\ s.r = "ok"
              THEN Bad(IF ev.op \in {"dct", "trn", "rng"} THEN AreItems(s.x, ev.x, g.born) ELSE ev.x = s.x, ps, "what " \o what \o " returned")
              ELSE IF ev.r = "err" /\ s.r = "err" THEN Bad(ev.e = s.e, ps, "error of " \o what) ELSE {})
        \cup Bad(\A j \in 1..4 : IsReg(s.regs[j], obs[j], g.born), ps, "items after " \o what)
        \cup Bad(\A j \in 1..4 : ev.regs[j].g = 1 /\ Len(ev.regs[j].it) <= (IF ev.regs[j].k \in {"s", "i"} THEN ev.regs[j].n ELSE 99),
                 {"C09", "C12"}, "memory around a container or capacity")
        \cup Bad(\A j \in 1..4 : ev.regs[j].k # "s" \/ ev.regs[j].m = 1, {"C09"}, "mutable view after " \o what)
        \cup Bad(\A j \in 1..4 : ev.regs[j].k # "i" \/ ev.regs[j].m = 1, {"C11"}, "mutable view of the remaining items after " \o what)
        \cup UNION {Bad(FALSE, led, x \o " in " \o what) : x \in g.bad}
        \cup Bad(own \subseteq g.alive, led, "a container holds a dropped item after " \o what)
        \cup Bad(CountItems(obs) = Cardinality(own), led, "an item is in two places after " \o what)
        \cup Bad(lost \subseteq s.leak \cup (IF s.lf THEN g.born ELSE {}), led, "an item was neither kept nor handed out nor dropped in " \o what)
        \cup Bad(ev.heap = 0, {"C12", "C09"}, "allocator misused in " \o what)
        \cup (IF ev.op \in {"view", "ivw", "cmp"} THEN Views(ev, c) ELSE {})
  IN /\ Report(l, vs, [r |-> s.r, x |-> s.x, e |-> s.e, regs |-> s.regs])
     /\ regs' = obs /\ alive' = own /\ UNCHANGED ty

(* Skipping.  The library's nth is known to deviate (see known_findings):  *)
(* exactly that deviation is a known finding, anything else a violation.   *)
Nth(ev) ==
  LET rem == ev.len - ev.f - ev.b
      item(j) == 100 + j                       \* j counted from the very front
      RestFrom(p) == [j \in 1..(ev.len - ev.b - p) |-> item(p + j - 1)]
      good == IF ev.k < rem THEN ev.r = "ok" /\ ev.x = item(ev.f + ev.k) /\ ev.rest = RestFrom(ev.f + ev.k + 1)
              ELSE ev.r = "ok" /\ ev.x = -1 /\ ev.left = 0
      dev == CASE ev.k > rem -> ev.r = "ok" /\ ev.x = -1 /\ ev.rest = RestFrom(ev.f)
               [] ev.k = 0 -> ev.r \in {"panic", "abort"}
               [] OTHER -> \/ ev.r = "ok" /\ (ev.k >= ev.len \/ ev.x = item(ev.k)) /\ ev.rest = RestFrom(ev.f + ev.k)
                           \/ ev.k >= ev.len /\ ev.r \in {"panic", "abort"}
  IN /\ Report(l, Bad(good \/ dev, {"C11"}, "skipping items"), IF ev.k < rem THEN <<item(ev.f + ev.k)>> ELSE <<>>)
     /\ (~good /\ dev) => Known(l, "C11 nth")
     /\ UNCHANGED <<regs, alive, ty>>

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.ev = "qnew" -> Start(ev)
       [] ev.ev = "q" -> Do(ev)
       [] ev.ev = "qskip" -> UNCHANGED <<regs, alive, ty>>   \* not possible after an earlier mismatch
       [] ev.ev = "qnth" -> Nth(ev)
  /\ (l = Len(Trace) => Done(l))

Spec == Init /\ [][Next]_vars
Inv == Owned(regs) \subseteq alive
=============================================================================

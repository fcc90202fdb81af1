----------------------------- MODULE TraceSlot ----------------------------
(***************************************************************************)
(* Validates histories over slots recorded from the real code.             *)
(***************************************************************************)
EXTENDS OctTrace, OctSlot

VARIABLES l, s, t
vars == <<l, s, t>>

TypeFile == JsonDeserialize(IOEnv.TYPES)
Types == [n \in DOMAIN TypeFile |-> Resolve(TypeFile[n].ty)]
Init == l = 1 /\ s = [cap |-> 0, len |-> 0, mem |-> <<>>] /\ t = "u8"

RECURSIVE DbgR(_, _)
DbgR(b, j) == IF j > Len(b) THEN "" ELSE (IF j = 1 THEN "" ELSE ", ") \o ToString(b[j]) \o DbgR(b, j + 1)
Dbg(b) == "[" \o DbgR(b, 1) \o "]"

Obs(ev) == [cap |-> s.cap, len |-> Max2(0, Min2(ev.len, s.cap)),
            mem |-> IF Len(ev.mem) = s.cap THEN ev.mem ELSE s.mem]
(* After an operation that should have come to y.                          *)
After(ev, y, ps, what) ==
  Bad(ev.r \in y.r, ps, "result of " \o what)
  \cup Bad(ev.cap = s.cap /\ ev.ok = 1, {"C08"}, "buffer of the slot after " \o what)
  \cup Bad(ev.heap = 0, {"C08", "C16"}, "memory around the buffer after " \o what)
  \cup (IF ev.r \in y.r
        THEN Bad(ev.len = y.len, {"C08"}, "length after " \o what)
             \cup Bad(Fits(ev.mem, y.mem), {"C08"} \cup ps, "content after " \o what)
        ELSE {})

New(ev) ==
  LET max == MaxSize(Types[ev.t])
      cap == IF ev.want >= 0 THEN ev.want ELSE max
      raw == [j \in 1..ev.cap |-> ((j - 1) * 7 + 1) % 256]
  IN /\ Report(l, Bad(ev.cap = cap /\ ev.ok = 1 /\ ev.heap = 0, {"C08"} \cup (IF ev.want < 0 THEN {"C03"} ELSE {}), "capacity of a new slot")
                  \cup Bad(IF ev.how = "raw" THEN ev.mem = raw /\ ev.len = cap - cap \div 2
                           ELSE ev.len = 0 /\ \A j \in 1..Len(ev.mem) : ev.mem[j] # 174, {"C08"}, "content of a new slot"), cap)
     /\ s' = [cap |-> Len(ev.mem), len |-> Max2(0, Min2(ev.len, Len(ev.mem))), mem |-> ev.mem]
     /\ t' = ev.t

Write(ev) ==
  LET y == SlotWrite(s, Types[t], ev.v, ev.mem) IN
  /\ Report(l, After(ev, y, {"C08"}, "writing a value")
               \cup Bad("ok" \notin y.r \/ ev.r = "ok" \/ MaxSize(Types[t]) < 0 \/ s.cap < MaxSize(Types[t]), {"C03"}, "default capacity too small")
               \cup Bad(ev.r # "err" \/ "err" \notin y.r \/ ev.e = y.e, {"C08", "C17"}, "error of writing"), y)
  /\ s' = Obs(ev) /\ UNCHANGED t

Read(ev) ==
  LET d == SlotRead(s, Types[t])
      y == Res(s, CASE d.s = "ok" -> {"ok"} [] d.s = "err" -> (IF d.p = -1 THEN {"err", "panic"} ELSE {"err"}) [] OTHER -> {"panic"})
  IN /\ Report(l, After(ev, y, {"C08"}, "reading")
                  \cup Bad(ev.r # "ok" \/ d.s # "ok" \/ Same(Types[t], ev.v, d.v), {"C08"}, "value read")
                  \cup Bad(ev.r # "err" \/ d.s # "err" \/ ev.e = d.e, {"C08"}, "error of reading"), d)
     /\ s' = Obs(ev) /\ UNCHANGED t

Plain(ev, y, what) == Report(l, After(ev, y, {"C08"}, what), y) /\ s' = Obs(ev) /\ UNCHANGED t

View(ev) ==
  LET p == Part(s)
      w == ev.w
  IN /\ Report(l, Bad(w.s = p /\ w.a = p /\ w.bo = p /\ w.de = p /\ w.p = 1, {"C08"}, "views of the valid part")
                  \cup Bad(w.cmp = 1, {"C08"}, "comparison of the valid part")
                  \cup Bad(w.dbg = Dbg(p), {"C08"}, "formatting of the valid part")
                  \cup Bad(w.em = (IF p = <<>> THEN 1 ELSE 0) /\ w.fu = (IF Len(p) = s.cap THEN 1 ELSE 0), {"C08"}, "empty or full")
                  \cup After([ev EXCEPT !.ev = "sview"] @@ [r |-> "ok"], Res(s, {"ok"}), {"C08"}, "looking at the slot"), p)
     /\ s' = Obs(ev) /\ UNCHANGED t

Idx(ev) ==
  LET y == SlotIndex(s, ev.via, ev.a, ev.b) IN
  /\ Report(l, After(ev, y, {"C08"}, "indexing") \cup Bad(ev.r # "ok" \/ ev.x = y.x, {"C08"}, "bytes indexed"), y)
  /\ s' = Obs(ev) /\ UNCHANGED t

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.ev = "snew" -> New(ev)
       [] ev.ev = "swrite" -> Write(ev)
       [] ev.ev = "sread" -> Read(ev)
       [] ev.ev = "scopy" -> Plain(ev, SlotCopy(s, ev.d), "copying")
       [] ev.ev = "slen" -> Plain(ev, SlotSetLen(s, ev.n), "setting the length")
       [] ev.ev = "spoke" -> Plain(ev, SlotPoke(s, ev.at, ev.b), "changing a byte")
       [] ev.ev = "sview" -> View(ev)
       [] ev.ev = "sidx" -> Idx(ev)
       [] ev.ev = "send" -> Report(l, Bad(ev.heap = 0, {"C08"}, "memory around the buffer of a dropped slot"), 0) /\ UNCHANGED <<s, t>>
  /\ (l = Len(Trace) => Done(l))

Spec == Init /\ [][Next]_vars
Inv == s.len <= s.cap /\ Len(s.mem) = s.cap
=============================================================================

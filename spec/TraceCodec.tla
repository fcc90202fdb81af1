----------------------------- MODULE TraceCodec ----------------------------
(***************************************************************************)
(* Validates traces of stream sessions recorded from the real code:        *)
(* values encoded one after another on an output stream, mixed with raw    *)
(* writes, and bytes decoded from an input stream, mixed with raw reads.   *)
(***************************************************************************)
EXTENDS OctTrace, OctStream

VARIABLES l,        \* next event
          o,        \* output stream
          i,        \* input stream
          vals      \* values encoded in this session: [t, v, n]
vars == <<l, o, i, vals>>

TypeFile == JsonDeserialize(IOEnv.TYPES)
Types == TLCGet(7)
Tag(t, x) == \E j \in 1..Len(TypeFile[t].tags) : TypeFile[t].tags[j] = x
(* A type with mates shares its format with other types.                   *)
Mated(t) == IF Len(TypeFile[t].mates) > 0 THEN {"C15"} ELSE {}
Also(t) == (IF Tag(t, "derived") THEN {"C13"} ELSE {}) \cup (IF Tag(t, "wrap") THEN {"C15"} ELSE {})
           \cup (IF Tag(t, "cell") THEN {"C14"} ELSE {})

Init == TLCSet(7, TLCEval([n \in DOMAIN TypeFile |-> Resolve(TypeFile[n].ty)])) /\ l = 1 /\ o = OutNew(0) /\ i = InNew(<<>>) /\ vals = <<>>

(* --------------------------- output events ----------------------------- *)
ONew(ev) ==
  /\ Report(l, Bad(ev.pos = 0 /\ ev.rem = ev.cap /\ ev.capn = ev.cap, {"C06"}, "new output stream"), ev.cap)
  /\ o' = OutNew(ev.cap) /\ vals' = <<>> /\ UNCHANGED i

OWrite(ev) ==
  LET x == OutWrite(o, ev.d)
      vs == Bad(ev.r = x.r, {"C06", "C16"}, "result of write")
            \cup Bad(ev.pos = x.s.pos, {"C06"}, "position after write")
            \cup (IF ev.r = "ok" THEN Bad(ev.b = ev.d, {"C06"}, "bytes written")
                  ELSE Bad(ev.reg = RegOf(o), {"C06", "C16"}, "refused write changed memory")
                       \cup (IF ev.r = "err" THEN Bad(ev.e.c.v = x.e, {"C06"}, "data of the output error") ELSE {}))
  IN /\ Report(l, vs, [r |-> x.r, e |-> x.e, pos |-> x.s.pos])
     /\ o' = IF ev.r = "ok" /\ ev.pos = o.pos + Len(ev.b) /\ ev.pos <= o.cap THEN OutPut(o, ev.b)
             ELSE IF ev.r # "ok" THEN [o EXCEPT !.pos = Min2(ev.pos, o.cap), !.mem = MemIn(ev.reg, o.cap)]
             ELSE [o EXCEPT !.pos = Min2(ev.pos, o.cap)]
     /\ UNCHANGED <<i, vals>>

(* Errors of maps carry the index in iteration order, which is the order   *)
(* in which the harness lists the entries.                                 *)
OEnc(ev) ==
  LET t == Types[ev.t]
      x == OutEnc(o, t, ev.v)
      ok == IF ev.r = "ok" THEN IF x.x.ok /\ x.x.b = ev.b THEN TRUE ELSE IsEnc(t, ev.v, ev.b) ELSE FALSE
      max == MaxSize(t)
      vs ==
        Bad(ev.same = 1, {"C02", "C14"}, "encoding changed the value")
        \cup
        CASE x.r = "ok" ->
               IF ev.r = "ok" THEN
                 Bad(ok, {"C02", "C01"} \cup Also(ev.t) \cup Mated(ev.t), "bytes of the encoding")
                 \cup Bad(ok \/ Len(ev.b) = Len(x.x.b), {"C16"}, "length of the encoding")
                 \cup Bad(ev.pos = o.pos + Len(ev.b), {"C06"}, "position after encoding")
               ELSE Bad(FALSE, {"C05", "C02"} \cup Also(ev.t), "encodable value refused")
                    \cup Bad(ev.r # "panic", {"C16"}, "panic though the value fits")
          [] x.r = "err" ->
               Bad(ev.r = "err", {"C05", "C02"} \cup Also(ev.t), "value without an encoding accepted")
               \cup Bad(ev.r # "err" \/ ev.e = x.x.e, {"C05", "C17"} \cup Also(ev.t), "error of the encoding")
          [] x.r = "panic" ->
               Bad(ev.r = "panic" \/ (~x.x.ok /\ ev.r = "err" /\ ev.e = x.x.e), {"C16"} \cup Also(ev.t), "too small an output accepted")
        \cup Bad(ev.r # "ok" \/ max < 0 \/ Len(ev.b) <= max, {"C03"}, "encoding longer than the declared maximum")
        \cup Bad(ev.pos \in o.pos..o.cap, {"C16", "C06"}, "position out of range")
        \cup (IF ev.r # "ok"
              THEN Bad(GuardsOk(ev.reg, o.cap) /\ SubSeq(MemIn(ev.reg, o.cap), 1, o.pos) = OutPart(o),
                       {"C16", "C06"}, "failed encoding changed other bytes")
              ELSE {})
      good == ev.r = "ok" /\ ev.pos = o.pos + Len(ev.b) /\ ev.pos <= o.cap
  IN /\ Report(l, vs, [r |-> x.r, b |-> x.x.b, e |-> x.x.e])
     /\ o' = IF good THEN OutPut(o, ev.b)
             ELSE IF ev.r # "ok" THEN [o EXCEPT !.pos = Max2(0, Min2(ev.pos, o.cap)), !.mem = MemIn(ev.reg, o.cap)]
             ELSE [o EXCEPT !.pos = Min2(ev.pos, o.cap)]
     /\ vals' = Append(vals, [t |-> ev.t, v |-> ev.v, n |-> IF ev.r = "ok" THEN Len(ev.b) ELSE -1])
     /\ UNCHANGED i

OView(ev) ==
  LET w == OutPart(o)
      vs == Bad(ev.s = w /\ ev.a = w /\ ev.bo = w /\ ev.p = w, {"C06"}, "written part")
            \cup Bad(\A j \in 1..Len(ev.cmp) : ev.cmp[j] = 1, {"C06"}, "comparison of the written part")
            \cup Bad(ev.pos = o.pos /\ ev.capn = o.cap /\ ev.rem = o.cap - o.pos, {"C06"}, "position, capacity or remainder")
  IN /\ Report(l, vs, [w |-> w, pos |-> o.pos, cap |-> o.cap])
     /\ UNCHANGED <<o, i, vals>>

OEnd(ev) ==
  /\ Report(l, Bad(ev.reg = RegOf(o), {"C06", "C16"}, "memory at the end of the stream"), RegOf(o))
  /\ UNCHANGED <<o, i, vals>>

(* --------------------------- input events ------------------------------ *)
INew(ev) ==
  /\ Report(l, Bad(ev.pos = 0 /\ ev.rem = Len(ev.b) /\ ev.capn = Len(ev.b), {"C07"}, "new input stream")
               \cup Bad(ev.src # "out" \/ IsPre(OutPart(o), ev.b), {"C06"}, "written bytes"), <<>>)
  /\ i' = InNew(ev.b)
  /\ vals' = IF ev.src = "out" THEN vals ELSE <<>>
  /\ UNCHANGED o

Counts(ev, s, ps) ==
  Bad(ev.pos = s.pos, ps, "position of the input")
  \cup Bad(ev.pos + ev.rem = Len(i.b) /\ ev.capn = Len(i.b), {"C07"}, "remainder or capacity of the input")
Resync(ev) == i' = [i EXCEPT !.pos = Max2(0, Min2(ev.pos, Len(i.b)))]

IRead(ev) ==
  LET x == InRead(i, ev.n)
      vs == Bad(ev.r = x.r, {"C07"}, "result of read")
            \cup Counts(ev, x.s, {"C07"})
            \cup (IF ev.r = "ok" THEN Bad(x.r # "ok" \/ (ev.d = x.d /\ (ev.off = i.pos \/ ev.d = <<>>)), {"C07"}, "bytes read")
                  ELSE IF ev.r = "err" THEN Bad(ev.e = x.e /\ ev.ec = ev.n, {"C07"}, "data of the input error") ELSE {})
  IN Report(l, vs, [r |-> x.r, d |-> x.d, e |-> x.e]) /\ Resync(ev) /\ UNCHANGED <<o, vals>>

IInto(ev) ==
  LET x == InRead(i, Digits(ev.n, 8))
      dst == OutNew(ev.n)
      vs == Bad(ev.r = x.r, {"C07"}, "result of read_into")
            \cup Counts(ev, x.s, {"C07"})
            \cup Bad(ev.reg = RegOf(IF x.r = "ok" THEN OutPut(dst, x.d) ELSE dst), {"C07"}, "destination of read_into")
            \cup (IF ev.r = "err" THEN Bad(ev.e = Append(x.e, ev.n), {"C07"}, "data of the input error") ELSE {})
  IN Report(l, vs, [r |-> x.r, d |-> x.d, e |-> x.e]) /\ Resync(ev) /\ UNCHANGED <<o, vals>>

(* Whether an outcome of decoding is what the specification says (d).  A    *)
(* text beyond the capacity of a bounded string may be noticed before or   *)
(* after looking for its bytes (p = -1).                                   *)
Agrees(t, d, r, v, e, pos) ==
  CASE d.s = "ok" -> r = "ok" /\ Same(t, v, d.v) /\ pos = d.p
    [] d.s = "err" -> (r = "err" /\ e = d.e) \/ (d.p = -1 /\ r = "panic")
    [] d.s = "short" -> r = "panic"
    [] OTHER -> r # "ok"

IDec(ev) ==
  LET t == Types[ev.t]
      d == Dec(t, i.b, i.pos)
      ok == Agrees(t, d, ev.r, IF ev.r = "ok" THEN ev.v ELSE 0, IF ev.r = "err" THEN ev.e ELSE NoErr, ev.pos)
      org == IF ev.k > 0 /\ ev.k <= Len(vals) THEN vals[ev.k] ELSE [n |-> -1]
      rt == IF org.n < 0 THEN TRUE
            ELSE IF ev.x = 1 THEN ok
            ELSE LET u == Types[org.t] IN
                 ev.r = "ok" /\ ev.pos = i.pos + org.n /\ Same(u, ev.v, Norm(u, org.v))
      vs == Bad(ok, {"C04"} \cup Also(ev.t)
                    \cup (IF d.s = "err" /\ ev.r = "err" THEN {"C17"} ELSE {}), "result of decoding")
            \cup Bad(rt, IF ev.x = 1 THEN {"C15"} ELSE {"C01"} \cup Also(ev.t), "round trip")
            \cup Bad(ev.pos \in i.pos..Len(i.b), {"C07"}, "position of the input")
            \cup Bad(ev.pos + ev.rem = Len(i.b) /\ ev.capn = Len(i.b), {"C07"}, "remainder or capacity of the input")
  IN /\ Report(l, vs, d)
     /\ (d.s = "over" /\ ev.r = "panic") => Known(l, "C04 duration-overflow")
     /\ Resync(ev) /\ UNCHANGED <<o, vals>>

(* ------------------------------- sweeps -------------------------------- *)
(* Whole ranges of inputs in one event.                                    *)
Kind(r) == CASE r = 0 -> "ok" [] r = 1 -> "err" [] OTHER -> "panic"
SAgrees(t, d, x) == Agrees(t, d, Kind(x.r), x.v, x.e, x.p)
(* Encoding what was decoded gives the bytes it was decoded from, unless   *)
(* the order of entries is open or bytes stand for the same value.         *)
BackOk(t, d, b, x) ==
  \/ d.s # "ok" \/ x.r # 0 \/ x.bk = -1 \/ HasMap(t)
  \/ LET y == Enc(t, d.v) IN (x.bk = 1) <=> (y.ok /\ y.b = SubSeq(b, 1, d.p))

(* Every value of ev.w bytes between a prefix and a suffix.                *)
SAll(ev) ==
  LET t == TLCEval(Types[ev.t])
      n == IF ev.w = 1 THEN 256 ELSE 65536
      inp(x) == ev.pre \o (IF ev.w = 1 THEN <<x>> ELSE <<x % 256, x \div 256>>) \o ev.suf
      out(x) == ev.outs[ev.ix[x + 1]]
      \* 1: decoded differently, 2: encoded back differently, 4: position beyond the input
      code(x) == LET b == inp(x)
                     d == Dec(t, b, 0)
                     y == out(x)
                 IN (IF SAgrees(t, d, y) THEN 0 ELSE 1) + (IF BackOk(t, d, b, y) THEN 0 ELSE 2)
                    + (IF y.p \in 0..Len(b) THEN 0 ELSE 4)
      all == {x \in 0..n - 1 : code(x) # 0}
      dec == {x \in all : code(x) % 2 = 1}
      back == {x \in all : (code(x) \div 2) % 2 = 1}
      far == {x \in all : code(x) >= 4}
      e17 == {x \in dec : out(x).r = 1 /\ Dec(t, inp(x), 0).s = "err"}
  IN /\ Report(l, Bad(Len(ev.ix) = n /\ dec = {}, {"C04"} \cup Also(ev.t), "result of decoding")
                  \cup Bad(e17 = {}, {"C17"}, "result of decoding")
                  \cup Bad(far = {}, {"C07"}, "position of the input")
                  \cup Bad(back = {}, {"C01", "C02"} \cup Also(ev.t), "encoding of what was decoded"),
               IF dec = {} THEN (IF back = {} THEN <<>> ELSE inp(SetMin(back))) ELSE inp(SetMin(dec)))
     /\ UNCHANGED <<o, i, vals>>

(* Runs of equal behaviour.  A number is a pair of 16-bit halves.          *)
AddH(h, n) == IF h[2] + n > 65535 THEN <<h[1] + 1, h[2] + n - 65536>> ELSE <<h[1], h[2] + n>>
LessH(g, h) == g[1] < h[1] \/ (g[1] = h[1] /\ g[2] < h[2])
LeqH(g, h) == g = h \/ LessH(g, h)
Digits4(h) == <<h[1] \div 256, h[1] % 256, h[2] \div 256, h[2] % 256>>
(* The runs cover the range, each next to the one before it.               *)
Cover(ev, step) ==
  /\ Len(ev.rs) > 0 /\ ev.rs[1].lo = ev.from /\ ev.rs[Len(ev.rs)].hi = ev.to
  /\ \A j \in 1..Len(ev.rs) : LeqH(ev.rs[j].lo, ev.rs[j].hi)
  /\ \A j \in 2..Len(ev.rs) : ev.rs[j].lo = AddH(ev.rs[j - 1].hi, step)
(* Where the specification behaves differently than at the number before.  *)
Breaks(t) ==
  CASE t.k = "char" -> {<<0, 55296>>, <<0, 57344>>, <<17, 0>>}
    [] t.k = "nonzero" -> {<<0, 1>>}
    [] t.k = "usize" -> {<<1, 0>>}
    [] t.k = "isize" -> {<<15, 32768>>, <<16, 32768>>}    \* counted from -2^20
    [] OTHER -> {}
Broken(ev, bs) == \E j \in 1..Len(ev.rs) : \E b \in bs : LessH(ev.rs[j].lo, b) /\ LeqH(b, ev.rs[j].hi)

SRuns(ev) ==
  LET t == Types[ev.t]
      inp(h) == Rev(Digits4(h))
      good(h, x, r) == LET d == Dec(t, inp(h), 0) IN
        /\ SAgrees(t, d, x) /\ BackOk(t, d, inp(h), x)
        /\ r = (IF d.s = "ok" THEN 0 ELSE 1)
      bad == {j \in 1..Len(ev.rs) : ~(good(ev.rs[j].lo, ev.rs[j].a, ev.rs[j].r) /\ good(ev.rs[j].hi, ev.rs[j].z, ev.rs[j].r))}
      ok == bad = {} /\ Cover(ev, 1) /\ ~Broken(ev, Breaks(t))
  IN /\ Report(l, Bad(ok, {"C01", "C02", "C04"} \cup Also(ev.t), "behaviour over a range")
                  \cup Bad(ok \/ \E j \in bad : ev.rs[j].r # 1, {"C17"}, "behaviour over a range"),
               IF bad = {} THEN Breaks(t) ELSE {ev.rs[SetMin(bad)].lo})
     /\ UNCHANGED <<o, i, vals>>

SInts(ev) ==
  LET t == Types[ev.t]
      num(h) == IF t.k = "usize" THEN ZeroExt(Digits4(h), 8)
                ELSE IF h[1] >= 16 THEN ZeroExt(Digits4(<<h[1] - 16, h[2]>>), 8)
                ELSE <<255, 255, 255, 255, 255, 240 + h[1], h[2] \div 256, h[2] % 256>>
      good(h, x, r) == LET e == Enc(t, num(h)) IN
        /\ x.v = num(h)
        /\ IF e.ok THEN r = 0 /\ x.b = e.b ELSE r = 1 /\ x.e = e.e
      bad == {j \in 1..Len(ev.rs) : ~(good(ev.rs[j].lo, ev.rs[j].a, ev.rs[j].r) /\ good(ev.rs[j].hi, ev.rs[j].z, ev.rs[j].r))}
      ok == bad = {} /\ Cover(ev, 1) /\ ~Broken(ev, Breaks(t))
  IN /\ Report(l, Bad(ok, {"C01", "C02", "C05"}, "encoding over a range")
                  \cup Bad(ok \/ \E j \in bad : ev.rs[j].r # 1, {"C17"}, "encoding over a range"),
               IF bad = {} THEN Breaks(t) ELSE {ev.rs[SetMin(bad)].lo})
     /\ UNCHANGED <<o, i, vals>>

(* Lengths: up to 65535 items have an encoding.                            *)
SLens(ev) ==
  LET good(h, e, r) == LET x == EncLen(65536 * h[1] + h[2]) IN IF x.ok THEN r = 0 ELSE r = 1 /\ e = x.e
      bad == {j \in 1..Len(ev.rs) : ~(good(ev.rs[j].lo, ev.rs[j].a, ev.rs[j].r) /\ good(ev.rs[j].hi, ev.rs[j].z, ev.rs[j].r))}
      ok == bad = {} /\ Cover(ev, ev.step)
  IN /\ Report(l, Bad(ok, {"C01", "C02", "C05"}, "encoding over all lengths"),
               IF bad = {} THEN {} ELSE {ev.rs[SetMin(bad)].lo})
     /\ UNCHANGED <<o, i, vals>>

(* The declared maximum and the default capacity of a slot.                *)
TMax(ev) ==
  LET m == MaxSize(Types[ev.t]) IN
  /\ Report(l, Bad(ev.max = m, {"C03"} \cup Also(ev.t), "declared maximum")
               \cup Bad(ev.slot = m, {"C03", "C08"}, "default capacity of a slot"), m)
  /\ UNCHANGED <<o, i, vals>>

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.ev = "onew" -> ONew(ev)
       [] ev.ev = "owrite" -> OWrite(ev)
       [] ev.ev = "oenc" -> OEnc(ev)
       [] ev.ev = "oview" -> OView(ev)
       [] ev.ev = "oend" -> OEnd(ev)
       [] ev.ev = "inew" -> INew(ev)
       [] ev.ev = "iread" -> IRead(ev)
       [] ev.ev = "iinto" -> IInto(ev)
       [] ev.ev = "idec" -> IDec(ev)
       [] ev.ev = "tmax" -> TMax(ev)
       [] ev.ev = "all" -> SAll(ev)
       [] ev.ev = "runs" -> SRuns(ev)
       [] ev.ev = "ints" -> SInts(ev)
       [] ev.ev = "lens" -> SLens(ev)
  /\ (l = Len(Trace) => Done(l))

Spec == Init /\ [][Next]_vars

(* What the states of the model satisfy whatever the trace.                *)
Inv == /\ o.pos \in 0..o.cap /\ Len(o.mem) = o.cap
       /\ i.pos \in 0..Len(i.b)
=============================================================================

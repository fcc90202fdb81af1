------------------------------ MODULE OctStream ----------------------------
(***************************************************************************)
(* Output and input streams.                                               *)
(*                                                                         *)
(* An output stream is [cap, pos, mem]: the buffer's content byte by byte  *)
(* and how much of it has been written.  An input stream is [b, pos].      *)
(* The operators give the outcome the library must show: r the kind of     *)
(* result, e the data an error carries, s the state afterwards.            *)
(***************************************************************************)
EXTENDS OctTypes

(* What the harness fills fresh memory with (both around and inside the    *)
(* buffers), so that a stray write shows.                                  *)
GuardLen == 16
Pat(j) == (j * 37 + 101) % 256
Fresh(n) == [j \in 1..n |-> Pat(j - 1)]

OutNew(cap) == [cap |-> cap, pos |-> 0, mem |-> SubSeq(Fresh(GuardLen + cap), GuardLen + 1, GuardLen + cap)]
OutRoom(o) == o.cap - o.pos
OutPart(o) == SubSeq(o.mem, 1, o.pos)
OutPut(o, d) ==                       \* append d, which fits
  [o EXCEPT !.pos = @ + Len(d),
            !.mem = [j \in 1..o.cap |-> IF j > o.pos /\ j <= o.pos + Len(d) THEN d[j - o.pos] ELSE o.mem[j]]]

OutWrite(o, d) ==
  IF Len(d) <= OutRoom(o) THEN [r |-> "ok", e |-> <<>>, s |-> OutPut(o, d)]
  ELSE [r |-> "err", e |-> <<o.cap, o.pos, Len(d)>>, s |-> o]

(* What encoding value v of type t on this stream must come to.            *)
OutEnc(o, t, v) ==
  LET x == Enc(t, v) IN
  IF Len(x.b) > OutRoom(o) THEN [r |-> "panic", x |-> x]
  ELSE IF x.ok THEN [r |-> "ok", x |-> x]
  ELSE [r |-> "err", x |-> x]

(* The memory the harness allocates: guards around the buffer.             *)
RegOf(o) == SubSeq(Fresh(GuardLen), 1, GuardLen) \o o.mem
            \o SubSeq(Fresh(2 * GuardLen + o.cap), GuardLen + o.cap + 1, 2 * GuardLen + o.cap)
GuardsOk(reg, cap) ==
  /\ Len(reg) = cap + 2 * GuardLen
  /\ \A j \in 1..GuardLen : reg[j] = Pat(j - 1) /\ reg[GuardLen + cap + j] = Pat(GuardLen + cap + j - 1)
MemIn(reg, cap) == SubSeq(reg, GuardLen + 1, GuardLen + cap)

InNew(b) == [b |-> b, pos |-> 0]
InRoom(i) == Len(i.b) - i.pos
InRead(i, n) ==                       \* n: eight digits, it may be enormous
  IF IsZero(SubSeq(n, 1, 5)) /\ NatOf(SubSeq(n, 6, 8)) <= InRoom(i)
  THEN LET m == NatOf(SubSeq(n, 6, 8)) IN
       [r |-> "ok", d |-> Take(i.b, i.pos, m), e |-> <<>>, s |-> [i EXCEPT !.pos = @ + m]]
  ELSE [r |-> "err", d |-> <<>>, e |-> <<Len(i.b), i.pos>>, s |-> i]
=============================================================================

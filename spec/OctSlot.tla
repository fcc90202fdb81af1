------------------------------ MODULE OctSlot ------------------------------
(***************************************************************************)
(* A slot: a buffer of fixed capacity whose first len bytes are its        *)
(* message.  State [cap, len, mem]; every operation gives                  *)
(*   r   the kinds of result it may have                                   *)
(*   len the length afterwards                                             *)
(*   mem what is prescribed of the buffer afterwards: bytes, -1 being open *)
(*   x   what it returns, e the error it reports                           *)
(***************************************************************************)
EXTENDS OctStream

Free == -1
Part(s) == SubSeq(s.mem, 1, s.len)
Over(s, d) == [j \in 1..s.cap |-> IF j <= Len(d) THEN d[j] ELSE s.mem[j]]
Res(s, r) == [r |-> r, len |-> s.len, mem |-> s.mem, x |-> <<>>, e |-> NoErr]

(* The order of map entries is open: any encoding of the value.            *)
SlotWrite(s, t, v, obs) ==
  LET y == Enc(t, v)
      b == IF HasMap(t) /\ Len(obs) >= Len(y.b) THEN (IF IsEnc(t, v, SubSeq(obs, 1, Len(y.b))) THEN SubSeq(obs, 1, Len(y.b)) ELSE y.b) ELSE y.b
      open == [j \in 1..s.cap |-> Free]
  IN IF Len(b) > s.cap THEN [Res(s, {"panic"} \cup (IF y.ok THEN {} ELSE {"err"})) EXCEPT !.mem = open, !.e = y.e]
     ELSE IF ~y.ok THEN [Res(s, {"err"}) EXCEPT !.mem = open, !.e = y.e]
     ELSE [Res(s, {"ok"}) EXCEPT !.len = Len(b), !.mem = [j \in 1..s.cap |-> IF j <= Len(b) THEN b[j] ELSE Free]]

SlotRead(s, t) == Dec(t, Part(s), 0)

SlotCopy(s, d) ==
  IF Len(d) > s.cap THEN Res(s, {"panic"})
  ELSE [Res(s, {"ok"}) EXCEPT !.len = Len(d), !.mem = Over(s, d)]

SlotSetLen(s, n) == IF n > s.cap THEN Res(s, {"panic"}) ELSE [Res(s, {"ok"}) EXCEPT !.len = n]

(* Mutable views reach the whole buffer.                                   *)
SlotPoke(s, at, b) ==
  IF at >= s.cap THEN Res(s, {"panic"}) ELSE [Res(s, {"ok"}) EXCEPT !.mem[at + 1] = b]

SlotIndex(s, via, a, b) ==
  LET w == Part(s)
      n == Len(w)
      lo == IF via \in {1, 2} THEN a ELSE 0
      hi == IF via \in {1, 3} THEN b ELSE n
  IN IF via = 0 THEN (IF a < n THEN [Res(s, {"ok"}) EXCEPT !.x = <<w[a + 1]>>] ELSE Res(s, {"panic"}))
     ELSE IF lo <= hi /\ hi <= n THEN [Res(s, {"ok"}) EXCEPT !.x = SubSeq(w, lo + 1, hi)] ELSE Res(s, {"panic"})

Fits(mem, pat) == Len(mem) = Len(pat) /\ \A j \in 1..Len(mem) : pat[j] \in {Free, mem[j]}
=============================================================================

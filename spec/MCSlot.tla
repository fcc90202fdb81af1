------------------------------- MODULE MCSlot ------------------------------
(***************************************************************************)
(* All histories over one slot of a few types within small capacities.     *)
(* Every transition is printed as a history to replay in the real code.    *)
(***************************************************************************)
EXTENDS OctSlot, OctDerive, TLC, IOUtils, Json

CONSTANTS Alphabet
Deep == IOEnv.DEEP = "1"
TypeFile == JsonDeserialize(IOEnv.TYPES)
Names == {"u8", "u16", "()", "Option<u8>", "Vec<u8>", "String"}
Desc == [n \in Names |-> Resolve(TypeFile[n].ty)]
Caps == IF Deep THEN 0..4 ELSE 0..3

VARIABLES t, s, hist
vars == <<t, s, hist>>
View == <<t, s>>

(* Values, given by their encodings.                                       *)
Wires == [n \in Names |->
  CASE n = "u8" -> {<<x>> : x \in Alphabet}
    [] n = "u16" -> {<<x, y>> : x \in Alphabet, y \in Alphabet}
    [] n = "()" -> {<<>>}
    [] n = "Option<u8>" -> {<<0>>} \cup {<<1, x>> : x \in Alphabet}
    [] n = "Vec<u8>" -> {<<0, 0>>} \cup {<<1, 0, x>> : x \in Alphabet} \cup {<<2, 0, x, x>> : x \in Alphabet}
    [] n = "String" -> {<<0, 0>>, <<1, 0, 1>>, <<2, 0, 1, 2>>}]
Val(n, w) == Dec(Desc[n], w, 0).v
ASSUME \A n \in Names : \A w \in Wires[n] : LET d == Dec(Desc[n], w, 0) IN d.s = "ok" /\ d.p = Len(w) /\ Enc(Desc[n], d.v).b = w

RECURSIVE Words(_)
Words(x) == IF x = <<>> THEN "" ELSE " " \o ToString(Head(x)) \o Words(Tail(x))
Emit(h) == PrintT("@@S " \o h)

Init == \E n \in Names, c \in Caps \cup {-1}, how \in {0, 1} :
          LET m == MaxSize(Desc[n])
              cap == IF c < 0 THEN m ELSE c
          IN /\ (c < 0 => m >= 0)
             /\ t = n
             /\ s = [cap |-> cap, len |-> IF c >= 0 /\ how = 1 THEN cap - cap \div 2 ELSE 0,
                     mem |-> [j \in 1..cap |-> IF c >= 0 /\ how = 1 THEN ((j - 1) * 7 + 1) % 256 ELSE 0]]
             /\ hist = "N " \o n \o "|" \o ToString(c) \o "|" \o ToString(how)

(* What a failed write leaves in the buffer is open; here, what it was.    *)
Become(y) == s' = [s EXCEPT !.len = y.len, !.mem = [j \in 1..s.cap |-> IF y.mem[j] = Free THEN s.mem[j] ELSE y.mem[j]]]
Do(step, y) == Become(y) /\ hist' = hist \o ";" \o step /\ UNCHANGED t /\ Emit(hist')
N(x) == ToString(x)

Next ==
  \/ \E w \in Wires[t], by \in {0, 1} : Do("w " \o N(by) \o Words(w), SlotWrite(s, Desc[t], Val(t, w), <<>>))
  \/ Do("r", Res(s, {"ok"}))
  \/ Do("v", Res(s, {"ok"}))
  \/ \E k \in 0..(s.cap + 1) : \E d \in [1..k -> IF k <= 2 THEN Alphabet ELSE {2}] : Do("c" \o Words(d), SlotCopy(s, d))
  \/ \E n \in 0..(s.cap + 1) : Do("l " \o N(n), SlotSetLen(s, n))
  \/ \E n \in 0..s.cap : Do("u " \o N(n), SlotSetLen(s, n))
  \/ \E via \in 0..6, at \in 0..s.cap : Do("p " \o N(via) \o " " \o N(at) \o " 2", SlotPoke(s, at, 2))
  \/ \E via \in 0..4, a \in 0..s.cap, b \in 0..s.cap : Do("i " \o N(via) \o " " \o N(a) \o " " \o N(b), Res(s, {"ok"}))
Spec == Init /\ [][Next]_vars

TypeOK == s.len \in 0..s.cap /\ Len(s.mem) = s.cap
(* The default capacity holds every value; a value written is read back.   *)
Holds == \A w \in Wires[t] : LET y == SlotWrite(s, Desc[t], Val(t, w), <<>>) IN
  /\ (MaxSize(Desc[t]) >= 0 /\ s.cap >= MaxSize(Desc[t]) => y.r = {"ok"})
  /\ (y.r = {"ok"} <=> Len(w) <= s.cap)
  /\ LET z == [s EXCEPT !.len = y.len, !.mem = [j \in 1..s.cap |-> IF y.mem[j] = Free THEN s.mem[j] ELSE y.mem[j]]] IN
     IF y.r = {"ok"} THEN SlotRead(z, Desc[t]).s = "ok" /\ SlotRead(z, Desc[t]).v = Val(t, w) /\ Part(z) = w
     ELSE z = s
(* Changing the length only moves the boundary.                            *)
Moves == \A n \in 0..s.cap : LET y == SlotSetLen(s, n) IN y.mem = s.mem /\ y.len = n
=============================================================================

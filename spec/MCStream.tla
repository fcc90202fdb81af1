------------------------------ MODULE MCStream -----------------------------
(***************************************************************************)
(* All histories over one output stream, and over one input stream, of     *)
(* raw bytes and values of a few types within small capacities.  Every     *)
(* transition is printed as a history to replay in the real code.          *)
(***************************************************************************)
EXTENDS OctStream, OctDerive, TLC, IOUtils, Json

Deep == IOEnv.DEEP = "1"
TypeFile == JsonDeserialize(IOEnv.TYPES)
Names == {"u8", "u16", "()", "bool", "NonZero<u8>", "Option<u8>", "Vec<u8>", "String", "(u8, u16)"}
         \cup (IF Deep THEN {"Result<u8, ()>", "char"} ELSE {})
Desc == [n \in Names |-> Resolve(TypeFile[n].ty)]
Caps == 0..(IF Deep THEN 4 ELSE 3)

(* Values, given by their encodings; raw bytes.                            *)
Wires == [n \in Names |->
  CASE n = "u8" -> {<<7>>}
    [] n = "u16" -> {<<1, 2>>}
    [] n = "()" -> {<<>>}
    [] n = "bool" -> {<<1>>}
    [] n = "NonZero<u8>" -> {<<9>>}
    [] n = "Option<u8>" -> {<<0>>, <<1, 3>>}
    [] n = "Vec<u8>" -> {<<0, 0>>, <<2, 0, 4, 0>>}
    [] n = "String" -> {<<1, 0, 65>>}
    [] n = "(u8, u16)" -> {<<5, 1, 0>>}
    [] n = "char" -> {<<65, 0, 0, 0>>}
    [] n = "Result<u8, ()>" -> {<<0, 6>>, <<1>>}]
Raw == {<<>>, <<8>>, <<0, 1>>, <<2, 0, 255>>}
Val(n, w) == Dec(Desc[n], w, 0).v
ASSUME \A n \in Names : \A w \in Wires[n] : LET d == Dec(Desc[n], w, 0) IN d.s = "ok" /\ d.p = Len(w) /\ Enc(Desc[n], d.v).b = w
Alphabet == {0, 1, 2}
Most == IF Deep THEN 4 ELSE 3      \* longest input put to the code on its own

VARIABLES ph,      \* "out", "dead" (an encoding did not fit), "in"
          o, i,
          sent,    \* what the output stream accepted: [t, w], t = "" for raw bytes
          got,     \* what the input stream handed out
          last, hist
vars == <<ph, o, i, sent, got, last, hist>>
(* One history for each state and the kind of step that led there.         *)
View == <<ph, o, i, last>>

RECURSIVE Words(_)
Words(x) == IF x = <<>> THEN "" ELSE " " \o ToString(Head(x)) \o Words(Tail(x))
N(x) == ToString(x)
RECURSIVE Strs(_)
Strs(k) == IF k = 0 THEN {<<>>} ELSE Strs(k - 1) \cup {Append(x, a) : x \in {y \in Strs(k - 1) : Len(y) = k - 1}, a \in Alphabet}
Emit(h) == PrintT("@@S " \o h)

Init == /\ sent = <<>> /\ got = <<>> /\ last = ""
        /\ \/ \E c \in Caps : ph = "out" /\ o = OutNew(c) /\ i = InNew(<<>>) /\ hist = "O " \o N(c)
           \/ \E b \in Strs(Most) : ph = "in" /\ o = OutNew(0) /\ i = InNew(b) /\ hist = "I" \o (IF b = <<>> THEN " " ELSE "") \o Words(b)

(* ------------------------------- output -------------------------------- *)
Put(step, x, piece) ==
  /\ o' = x.s /\ sent' = (IF x.r = "ok" THEN Append(sent, piece) ELSE sent)
  /\ hist' = hist \o "~" \o step /\ Emit(hist' \o "~V~E")
  /\ UNCHANGED <<i, got>>
WriteStep == \E d \in Raw :
  /\ ph = "out" /\ ph' = "out" /\ last' = "W"
  /\ Put("W" \o Words(d), OutWrite(o, d), [t |-> "", w |-> d])
EncStep == \E n \in Names : \E w \in Wires[n] :
  LET x == OutEnc(o, Desc[n], Val(n, w))
      y == [r |-> x.r, s |-> IF x.r = "ok" THEN OutPut(o, w) ELSE o]
  IN /\ ph = "out" /\ ph' = (IF x.r = "ok" THEN "out" ELSE "dead") /\ last' = "P"
     /\ Put("P " \o n \o " |" \o Words(w), y, [t |-> n, w |-> w])
ViewStep == /\ ph = "out" /\ last # "V" /\ last' = "V" /\ hist' = hist \o "~V" /\ UNCHANGED <<ph, o, i, sent, got>>
(* Turn to reading what was written, in the order it was.                  *)
Turn == /\ ph = "out" /\ sent # <<>> /\ ph' = "in" /\ last' = "N" /\ hist' = hist \o "~E~N"
        /\ i' = InNew(OutPart(o)) /\ UNCHANGED <<o, sent, got>>

(* ------------------------------- input --------------------------------- *)
(* Positions after failed decodings are open; so that is the last step.    *)
Get(step, r, s) ==
  /\ ph = "in" /\ ph' = (IF r = "open" THEN "dead" ELSE "in") /\ i' = s /\ got' = got \o SubSeq(i.b, i.pos + 1, s.pos)
  /\ hist' = hist \o "~" \o step /\ Emit(hist')
  /\ UNCHANGED <<o, sent>>
ReadStep == \E k \in 0..(InRoom(i) + 1) : LET x == InRead(i, Digits(k, 8)) IN
  last' = "R" /\ Get("R " \o N(k), x.r, x.s)
HugeStep == /\ last' = "H" /\ Get("R 18446744073709551615", "err", i)
            /\ ~InRead(i, [k \in 1..8 |-> 255]).r = "ok"
IntoStep == \E k \in 0..(InRoom(i) + 1) : LET x == InRead(i, Digits(k, 8)) IN
  last' = "M" /\ Get("M " \o N(k), x.r, x.s)
DecStep == \E n \in Names : LET d == Dec(Desc[n], i.b, i.pos) IN
  /\ last' = "D"
  /\ Get("D " \o n, IF d.s = "ok" THEN "ok" ELSE "open", IF d.s = "ok" THEN [i EXCEPT !.pos = d.p] ELSE i)

Next == WriteStep \/ EncStep \/ ViewStep \/ Turn \/ ReadStep \/ HugeStep \/ IntoStep \/ DecStep
Spec == Init /\ [][Next]_vars

(* C06: the written part is what was accepted, in order, and nothing else. *)
RECURSIVE Cat(_)
Cat(x) == IF x = <<>> THEN <<>> ELSE Head(x).w \o Cat(Tail(x))
Written == OutPart(o) = Cat(sent) /\ o.pos + OutRoom(o) = o.cap
Untouched == \A j \in (o.pos + 1)..o.cap : o.mem[j] = OutNew(o.cap).mem[j]
(* C01: the pieces come back one after another.                            *)
RECURSIVE Back(_, _, _)
Back(b, p, x) ==
  IF x = <<>> THEN p = Len(b)
  ELSE IF Head(x).t = "" THEN Back(b, p + Len(Head(x).w), Tail(x))
  ELSE LET d == Dec(Desc[Head(x).t], b, p) IN
       d.s = "ok" /\ d.v = Val(Head(x).t, Head(x).w) /\ Back(b, d.p, Tail(x))
Carried == Back(OutPart(o), 0, sent)
(* C07: what was handed out is the beginning of the input, once.           *)
Consumed == got = SubSeq(i.b, 1, i.pos) /\ i.pos + InRoom(i) = Len(i.b)
=============================================================================

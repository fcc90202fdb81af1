------------------------------- MODULE MCText ------------------------------
(***************************************************************************)
(* All histories over two bounded strings of short texts made of           *)
(* characters of one, two and four bytes, and statements about texts for   *)
(* all short ones.  Every transition is printed as a history to replay.    *)
(***************************************************************************)
EXTENDS OctText, TLC, IOUtils

Deep == IOEnv.DEEP = "1"
Caps == IF Deep THEN {0, 1, 2, 3, 4} ELSE {0, 2, 4}
Chars == {97, 233, 128512}
Texts == UNION {[1..k -> Chars] : k \in 0..2}
VARIABLES regs, hist
vars == <<regs, hist>>

Init == regs = <<NoText, NoText>> /\ hist = ""
O(op, a, b, n, d) == [op |-> op, a |-> a, b |-> b, n |-> n, d |-> d]
Ops ==
  LET T == {a \in {0, 1} : regs[a + 1].k = "t"}
      len(a) == Len(Utf8(regs[a + 1].cs))
  IN    UNION {{O("new", a, 0, n, d), O("utf8", a, 0, n, Utf8(d)), O("col", a, 0, n, d), O("dec", a, 0, n, <<Len(Utf8(d)), 0>> \o Utf8(d))} : a \in {0, 1}, n \in Caps, d \in Texts}
   \cup UNION {{O("unc", a, IF d = <<>> THEN 2 ELSE 1, n, d)} : a \in {0, 1}, n \in Caps, d \in {x \in Texts : Len(Utf8(x)) <= 2}} 
   \cup {O("cln", a, b, 0, <<>>) : a \in {x \in {0, 1} : 1 - x \in T}, b \in {0}}
   \cup {O("cln", a, 1, 0, <<>>) : a \in {x \in T : 1 - x \in T /\ regs[1].n = regs[2].n}}
   \cup {O(op, a, 0, 0, <<>>) : op \in {"view", "enc", "drop"}, a \in T}
   \cup {O("cmp", a, b, 0, <<>>) : a \in T, b \in T}
   \cup {O("into", a, b, 0, <<>>) : a \in T, b \in 0..5}
   \cup UNION {{O("idx", a, b, n, <<m>>) : b \in 0..5, n \in 0..(len(a) + 1), m \in 0..(len(a) + 1)} : a \in T}
   \cup UNION {{O("mut", a, b, n, <<m, u>>) : b \in 0..7, n \in 0..(len(a) + 1), m \in 0..len(a), u \in {0, 1}} : a \in T}
Allowed(o) == (o.op = "unc" => Len(Utf8(o.d)) <= o.n) /\ (Deep \/ o.a = 0 \/ o.op \in {"new", "drop"})

RECURSIVE Words(_)
Words(s) == IF s = <<>> THEN "" ELSE " " \o ToString(Head(s)) \o Words(Tail(s))
Line(o) == o.op \o " " \o ToString(o.a) \o " " \o ToString(o.b) \o " " \o ToString(o.n) \o " |" \o Words(o.d)
Next == \E o \in {x \in Ops : Allowed(x)} :
          /\ regs' = TStep(regs, o).regs
          /\ hist' = hist \o (IF hist = "" THEN "" ELSE ";") \o Line(o)
          /\ PrintT("@@S " \o hist')
Spec == Init /\ [][Next]_vars
View == regs

Bounded == \A j \in 1..2 : LET c == regs[j] IN Len(Utf8(c.cs)) <= c.n /\ Utf8Dec(Utf8(c.cs)).ok /\ Utf8Dec(Utf8(c.cs)).cs = c.cs
Frame == [][\E j \in 1..2 : regs'[j] = regs[j]]_vars

RECURSIVE ByteCmp(_, _)
ByteCmp(a, b) ==
  IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1) ELSE IF b = <<>> THEN 1
  ELSE IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1 ELSE ByteCmp(Tail(a), Tail(b))
Marks == {97, 98, 233, 8364, 65535, 65536, 128512}
Short == UNION {[1..k -> Marks] : k \in 0..2}
(* Text order is byte order; the kept prefix is the longest one that fits. *)
ASSUME \A a, b \in Short : TextCmp(a, b) = ByteCmp(Utf8(a), Utf8(b))
ASSUME \A a \in Short, n \in 0..8 :
         LET p == Prefix(a, n) IN
         /\ IsPre(p, a) /\ Len(Utf8(p)) <= n
         /\ \A j \in 0..Len(a) : Len(Utf8(SubSeq(a, 1, j))) <= n => j <= Len(p)
ASSUME \A a \in Short : Utf8Dec(Utf8(a)).cs = a
=============================================================================

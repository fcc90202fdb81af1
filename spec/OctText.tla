------------------------------ MODULE OctText ------------------------------
(***************************************************************************)
(* Bounded strings: registers that hold nothing ("e") or a text ("t") of   *)
(* a capacity n, and what every operation must come to.  A text is its     *)
(* sequence of code points.                                                *)
(***************************************************************************)
EXTENDS OctStream

NoText == [k |-> "e", n |-> 0, cs |-> <<>>]
TextOf(n, cs) == [k |-> "t", n |-> n, cs |-> cs]

(* r: possible results; x: what is returned; es: the errors allowed.       *)
Ret(regs, x) == [r |-> "ok", x |-> x, es |-> {}, regs |-> regs]
Refuse(regs, es) == [r |-> "err", x |-> <<>>, es |-> es, regs |-> regs]
Panic(regs) == [r |-> "panic", x |-> <<>>, es |-> {}, regs |-> regs]
TooLong(n, l) == Err(<<-3>>, "len", <<n, l>>)

(* The longest prefix of whole characters that fits.                       *)
RECURSIVE Prefix(_, _)
Prefix(cs, n) ==
  IF cs = <<>> THEN <<>>
  ELSE IF Utf8Len(Head(cs)) > n THEN <<>>
  ELSE <<Head(cs)>> \o Prefix(Tail(cs), n - Utf8Len(Head(cs)))

(* Byte offsets at which a character starts, and the end.                  *)
Starts(cs) == {Len(Utf8(SubSeq(cs, 1, j))) : j \in 0..Len(cs)}
SliceOk(cs, lo, hi) == lo <= hi /\ lo \in Starts(cs) /\ hi \in Starts(cs)

Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c

(* Text order is the order of code points, the same as that of the bytes.  *)
RECURSIVE TextCmp(_, _)
TextCmp(a, b) ==
  IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
  ELSE IF b = <<>> THEN 1
  ELSE IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1 ELSE TextCmp(Tail(a), Tail(b))
Rel(c) == <<IF c = 0 THEN 1 ELSE 0, IF c = 0 THEN 0 ELSE 1, c, IF c < 0 THEN 1 ELSE 0, IF c <= 0 THEN 1 ELSE 0,
            IF c > 0 THEN 1 ELSE 0, IF c >= 0 THEN 1 ELSE 0>>

(* Formatting.  Which characters Debug escapes beyond these is up to the   *)
(* standard library's tables.                                              *)
Simple(c) == c \in {0, 9, 10, 13, 233, 8364, 128512} \/ c \in 32..126
Esc(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 0 -> <<92, 48>> [] c = 9 -> <<92, 116>>
            [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] OTHER -> <<c>>
Debugged(cs) == <<34>> \o Flat([j \in 1..Len(cs) |-> Esc(cs[j])]) \o <<34>>
PadL(cs, n) == Rep(32, Max2(0, n - Len(cs))) \o cs
PadR(cs, n, c) == cs \o Rep(c, Max2(0, n - Len(cs)))
First(cs, n) == SubSeq(cs, 1, Min2(n, Len(cs)))
Centred(cs, n) == LET m == Max2(0, n - Len(cs)) IN Rep(32, m \div 2) \o cs \o Rep(32, m - m \div 2)
Padded(cs) == PadL(cs, 6) \o <<124>> \o PadR(cs, 4, 95) \o <<124>> \o First(cs, 2) \o <<124>> \o Centred(First(cs, 1), 5)

TStep(regs, o) ==
  LET a == o.a + 1
      c == regs[a]
      Put(cs) == [regs EXCEPT ![a] = TextOf(o.n, cs)]
      Fit(cs) == IF Len(Utf8(cs)) <= o.n THEN Ret(Put(cs), <<>>) ELSE Refuse(regs, {TooLong(o.n, Len(Utf8(cs)))})
  IN
  CASE o.op = "new" -> Fit(o.d)
    [] o.op = "unc" -> Ret(Put(o.d), <<>>)
    [] o.op = "utf8" ->
         LET u == Utf8Dec(o.d)
             long == IF Len(o.d) > o.n THEN {TooLong(o.n, Len(o.d))} ELSE {}
             ill == IF u.ok THEN {} ELSE {Err(<<>>, "utf8", <<u.at, o.d[u.at + 1]>>)}
         IN IF long \cup ill = {} THEN Ret(Put(u.cs), <<>>) ELSE Refuse(regs, long \cup ill)
    [] o.op = "col" -> Ret(Put(Prefix(o.d, o.n)), <<>>)
    [] o.op = "dec" ->
         LET d == Dec([k |-> "sizedstr", cap |-> o.n], o.d, 0) IN
         CASE d.s = "ok" -> Ret(Put(d.v), <<d.p % 256, d.p \div 256>>)
           [] d.s = "err" -> [Refuse(regs, {d.e}) EXCEPT !.r = IF d.p = -1 THEN "err|panic" ELSE "err"]
           [] OTHER -> Panic(regs)
    [] o.op = "cln" -> Ret([regs EXCEPT ![a] = regs[3 - a]], <<>>)
    [] o.op = "mut" ->
         LET n == Len(Utf8(c.cs))
             m == IF Len(o.d) = 0 THEN 0 ELSE o.d[1]
             lo == IF o.b \in {4, 5} THEN o.n ELSE 0
             hi == IF o.b \in {4, 6} THEN m ELSE n
             up == Len(o.d) >= 2 /\ o.d[2] = 1
             At(j) == Len(Utf8(SubSeq(c.cs, 1, j - 1)))
         IN IF ~SliceOk(c.cs, lo, hi) THEN Panic(regs)
            ELSE Ret([regs EXCEPT ![a].cs = [j \in 1..Len(c.cs) |->
                   IF At(j) >= lo /\ At(j) < hi THEN (IF up THEN Upper(c.cs[j]) ELSE Lower(c.cs[j])) ELSE c.cs[j]]], <<>>)
    [] o.op = "idx" ->
         LET w == Utf8(c.cs)
             m == IF Len(o.d) = 0 THEN 0 ELSE o.d[1]
             lo == IF o.b \in {0, 1, 5} THEN o.n ELSE 0
             hi == IF o.b \in {0, 2} THEN m ELSE IF o.b \in {4, 5} THEN m + 1 ELSE Len(w)
         IN IF SliceOk(c.cs, lo, hi) THEN Ret(regs, SubSeq(w, lo + 1, hi)) ELSE Panic(regs)
    [] o.op = "into" -> Ret([regs EXCEPT ![a] = NoText], Utf8(c.cs))
    [] o.op = "enc" -> Ret(regs, Enc([k |-> "sizedstr", cap |-> c.n], c.cs).b)
    [] o.op = "drop" -> Ret([regs EXCEPT ![a] = NoText], <<>>)
    [] OTHER -> Ret(regs, <<>>)                       \* view cmp cst
=============================================================================

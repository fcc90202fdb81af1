---------------------------- MODULE OctSamples ----------------------------
(***************************************************************************)
(* Boundary values of every type, built from those of its parts, and byte  *)
(* strings around their encodings.                                         *)
(***************************************************************************)
EXTENDS OctTypes, TLC

Ints(w) == LET ramp == [i \in 1..w |-> 16 + i] IN
  IF w = 1 THEN <<<<7>>, <<0>>, <<1>>, <<127>>, <<128>>, <<255>>>>
  ELSE <<ramp, Rep(0, w), Rep(0, w - 1) \o <<1>>, <<1>> \o Rep(0, w - 1), Rep(255, w), <<128>> \o Rep(0, w - 1),
         <<127>> \o Rep(255, w - 1), Rep(255, w - 1) \o <<254>>, Rep(0, w - 2) \o <<1, 0>>>>
Sizes == <<Digits(258, 8), Digits(0, 8), Digits(1, 8), Digits(255, 8), Digits(256, 8), Digits(65535, 8)>>
ISizes == <<Digits(258, 8), Digits(0, 8), Rep(255, 8), Rep(255, 6) \o <<128, 0>>, Digits(32767, 8), Rep(255, 7) \o <<1>>>>
Chars == <<233, 0, 65, 127, 128, 2047, 2048, 55295, 57344, 65535, 65536, 1114111>>
Texts == <<<<233>>, <<>>, <<97>>, <<97, 0, 8364>>, <<65536, 97>>, <<127, 128, 2047, 2048, 65535, 1114111>>>>

\* At most n of a sequence.
Upto(s, n) == SubSeq(s, 1, Min2(Len(s), n))
\* All first samples, then each sample of each part with the others as in the base.
Vary(ss0) == LET ss == TLCEval(ss0) IN
  IF \E i \in 1..Len(ss) : ss[i] = <<>> THEN <<>>
  ELSE LET base == [i \in 1..Len(ss) |-> ss[i][1]] IN
       <<base>> \o Flat(TLCEval([i \in 1..Len(ss) |-> [j \in 1..(Len(ss[i]) - 1) |-> [base EXCEPT ![i] = ss[i][j + 1]]]]))
Lists(s) ==
  IF s = <<>> THEN <<<<>>>>
  ELSE <<<<s[1]>>, <<>>>> \o [j \in 1..(Len(s) - 1) |-> <<s[j + 1]>>]
       \o (IF Len(s) > 1 THEN <<<<s[1], s[2]>>, <<s[2], s[1], s[Len(s)]>>>> ELSE <<<<s[1], s[1]>>>>)

\* TLCEval: computed once, rather than at every access.
RECURSIVE Samples0(_), MaxVal0(_)
Samples(t) == TLCEval(Samples0(t))
MaxVal(t) == TLCEval(MaxVal0(t))
Samples0(t) ==
  CASE t.k = "int" -> Ints(t.w)
    [] t.k = "usize" -> Sizes
    [] t.k = "isize" -> ISizes
    [] t.k = "bool" -> <<1, 0>>
    [] t.k = "char" -> Chars
    [] t.k = "tuple" -> Vary([i \in 1..Len(t.ts) |-> Upto(TLCEval(Samples0(t.ts[i])), 6)])
    [] t.k = "array" ->
         LET s == Upto(TLCEval(Samples0(t.of)), 5) IN
         IF t.n = 0 THEN <<<<>>>> ELSE IF s = <<>> THEN <<>>
         ELSE [j \in 1..Len(s) |-> Rep(s[j], t.n)]
              \o (IF t.n > 1 /\ Len(s) > 1
                  THEN <<[i \in 1..t.n |-> IF i = 1 THEN s[2] ELSE s[1]], [i \in 1..t.n |-> IF i = t.n THEN s[2] ELSE s[1]],
                         [i \in 1..t.n |-> s[(i % Len(s)) + 1]]>> ELSE <<>>)
    [] t.k = "seq" -> Lists(Upto(TLCEval(Samples0(t.of)), 5))
    [] t.k = "sized" -> LET s == TLCEval(Samples0(t.of))
                            full == IF s = <<>> \/ t.cap > 300 THEN <<>> ELSE <<Rep(s[1], t.cap)>> \o (IF t.cap > 0 THEN <<Rep(s[1], t.cap - 1)>> ELSE <<>>)
                        IN SelectSeq(Lists(Upto(s, 5)), LAMBDA v : Len(v) <= t.cap) \o full
    [] t.k = "str" -> Texts
    [] t.k = "sizedstr" ->
         SelectSeq(Texts \o (IF t.cap > 300 THEN <<>> ELSE <<Rep(97, t.cap), Rep(8364, t.cap \div 3), Rep(233, t.cap \div 2)>>),
                   LAMBDA v : Len(Utf8(v)) <= t.cap)
    [] t.k = "cstr" -> <<<<97>>, <<>>, <<1>>, <<255, 128>>, <<104, 105, 33>>>>
    [] t.k = "map" -> LET ks == Upto(TLCEval(Samples0(t.key)), 3) vs == Upto(TLCEval(Samples0(t.val)), 3) IN
         IF ks = <<>> \/ vs = <<>> THEN <<<<>>>>
         ELSE <<<<<<ks[1], vs[1]>>>>, <<>>, <<<<ks[Len(ks)], vs[Len(vs)]>>>>>>
              \o (IF Len(ks) > 1 THEN <<[i \in 1..Len(ks) |-> <<ks[i], vs[((i - 1) % Len(vs)) + 1]>>]>> ELSE <<>>)
    [] t.k = "set" -> LET s == Upto(TLCEval(Samples0(t.of)), 4) IN <<s, <<>>>> \o [i \in 1..Len(s) |-> <<s[i]>>]
    [] t.k = "sum" ->
         Flat(TLCEval([i \in 1..Len(t.vars) |->
           LET w == TLCEval(Vary([j \in 1..Len(t.vars[i].f) |-> Upto(TLCEval(Samples0(t.vars[i].f[j])), 5)]))
           IN TLCEval([j \in 1..Len(w) |-> [i |-> i, f |-> w[j]]])]))
    [] t.k = "nonzero" -> SelectSeq(TLCEval(Samples0(t.of)), LAMBDA v : ~IsZero(v))
    [] t.k = "refcell" -> LET s == TLCEval(Samples0(t.of)) IN [i \in 1..Len(s) |-> [bor |-> 0, v |-> s[i]]]
    [] t.k = "time" -> [i \in 1..6 |-> [n |-> 0, s |-> <<Digits(1700000000, 8), Digits(0, 8), Digits(1, 8), Rep(255, 8), <<127>> \o Rep(255, 7), <<128>> \o Rep(0, 7)>>[i]]]
    [] t.k = "duration" ->
         <<[s |-> Digits(258, 8), n |-> 66051], [s |-> Digits(0, 8), n |-> 0], [s |-> Digits(0, 8), n |-> 999999999],
           [s |-> Rep(255, 8), n |-> 999999999], [s |-> Rep(255, 8), n |-> 0], [s |-> Rep(0, 7) \o <<1>>, n |-> 1]>>
    [] t.k = "item" -> <<3, 0, 254>>
    [] OTHER -> <<>>

\* A value of the declared maximum size (of a type that has one, and values).
Widest(t, ws0) == LET ws == TLCEval(ws0)
                     m == TLCEval([i \in 1..Len(ws) |-> Len(Enc(t, ws[i]).b)])
                     j == CHOOSE j \in 1..Len(ws) : \A i \in 1..Len(ws) : m[i] <= m[j]
                 IN ws[j]
MaxVal0(t) ==
  CASE t.k = "tuple" -> [i \in 1..Len(t.ts) |-> TLCEval(MaxVal0(t.ts[i]))]
    [] t.k = "array" -> IF t.n = 0 THEN <<>> ELSE Rep(TLCEval(MaxVal0(t.of)), t.n)
    [] t.k = "sized" -> IF t.cap = 0 \/ TLCEval(Samples0(t.of)) = <<>> THEN <<>> ELSE Rep(TLCEval(MaxVal0(t.of)), t.cap)
    [] t.k = "sizedstr" -> Rep(97, t.cap)
    [] t.k = "sum" -> LET live == TLCEval(SelectSeq([i \in 1..Len(t.vars) |-> i], LAMBDA i : \A j \in 1..Len(t.vars[i].f) : TLCEval(Samples0(t.vars[i].f[j])) # <<>>))
                      IN Widest(t, [k \in 1..Len(live) |-> [i |-> live[k], f |-> [j \in 1..Len(t.vars[live[k]].f) |-> TLCEval(MaxVal0(t.vars[live[k]].f[j]))]]])
    [] t.k = "refcell" -> [bor |-> 0, v |-> TLCEval(MaxVal0(t.of))]
    [] t.k = "nonzero" -> Samples(t)[1]
    [] OTHER -> Samples(t)[1]
\* Types none of whose parts is without values, or without an encoding.
RECURSIVE Lively(_)
Lively(t) ==
  CASE t.k = "never" -> FALSE
    [] t.k = "tuple" -> \A i \in 1..Len(t.ts) : Lively(t.ts[i])
    [] t.k \in {"array", "sized", "refcell", "nonzero", "seq", "set"} -> Lively(t.of)
    [] t.k = "sum" -> t.vars # <<>> /\ \A i \in 1..Len(t.vars) : EncDisc(t.disc, t.vars[i].d).ok /\ \A j \in 1..Len(t.vars[i].f) : Lively(t.vars[i].f[j])
    [] OTHER -> TRUE
RECURSIVE Modest(_)
Modest(t) ==
  CASE t.k = "tuple" -> \A i \in 1..Len(t.ts) : Modest(t.ts[i])
    [] t.k = "array" -> t.n <= 64 /\ Modest(t.of)
    [] t.k = "sized" -> t.cap <= 300 /\ Modest(t.of)
    [] t.k = "sizedstr" -> t.cap <= 300
    [] t.k \in {"refcell", "seq", "set"} -> Modest(t.of)
    [] t.k = "sum" -> \A i \in 1..Len(t.vars) : \A j \in 1..Len(t.vars[i].f) : Modest(t.vars[i].f[j])
    [] OTHER -> TRUE
=============================================================================

------------------------------ MODULE OctTypes ------------------------------
(***************************************************************************)
(* The data model of oct: types, their values, the encoding of a value,    *)
(* the decoding of bytes, the errors of both and the maximum size.         *)
(*                                                                         *)
(* A type is a descriptor (a record with a kind k):                        *)
(*   int(w,s)  usize isize bool char  tuple(ts) array(n,of)                *)
(*   seq(of) sized(cap,of) str sizedstr(cap) cstr  map(key,val) set(of)    *)
(*   sum(disc,vars,...)  nonzero(of) refcell(of) time duration never       *)
(*   item: the harness's own type, one byte, 255 having no encoding        *)
(* A value is, per kind: digits | 8 digits | 0/1 | code point | sequence   *)
(*   of parts | sequence of items | sequence of code points | sequence of  *)
(*   bytes | sequence of entries | [i, f] (variant index, fields) | ...    *)
(*                                                                         *)
(* An error is [p, c]: p the path of error wrappers from the outside in    *)
(* (item index i >= 0, -1 field, -2 discriminant, -3 length, -4 content of *)
(* a reference cell, -5 borrow), c = [k, v] its root cause.                *)
(***************************************************************************)
EXTENDS OctBytes, SequencesExt, TLC

NoErr == [p |-> <<>>, c |-> [k |-> "none", v |-> <<>>]]
Err(p, k, v) == [p |-> p, c |-> [k |-> k, v |-> v]]
Under(p, e) == [e EXCEPT !.p = p \o @]
Erase(e) == [e EXCEPT !.p = <<>>]            \* conversion to a generic error

(* A generic error stores every discriminant as an unsigned 128-bit value. *)
ToGeneric(e) ==
  IF e.c.k = "disc" THEN [p |-> <<>>, c |-> [k |-> "disc", v |-> ZeroExt(e.c.v, 16)]]
  ELSE Erase(e)

(* --------------------------- maximum size ------------------------------ *)
Unbounded == -1
RECURSIVE MaxSize(_)
MaxSum(ms) == IF \E i \in 1..Len(ms) : ms[i] < 0 THEN Unbounded ELSE SumSeq(ms)
MaxOf(ms) == IF ms = <<>> THEN 0
             ELSE IF \E i \in 1..Len(ms) : ms[i] < 0 THEN Unbounded
             ELSE CHOOSE m \in {ms[i] : i \in 1..Len(ms)} : \A i \in 1..Len(ms) : ms[i] <= m
MaxSize(t) ==
  CASE t.k = "int" -> t.w
    [] t.k = "usize" -> 2
    [] t.k = "isize" -> 2
    [] t.k = "bool" -> 1
    [] t.k = "char" -> 4
    [] t.k = "tuple" -> MaxSum([i \in 1..Len(t.ts) |-> MaxSize(t.ts[i])])
    [] t.k = "array" -> LET m == MaxSize(t.of) IN IF m < 0 THEN Unbounded ELSE t.n * m
    [] t.k = "sized" -> LET m == MaxSize(t.of) IN IF m < 0 THEN Unbounded ELSE 2 + t.cap * m
    [] t.k = "sizedstr" -> 2 + t.cap
    [] t.k = "sum" ->
         LET d == MaxSize(t.disc)
             m == MaxOf([i \in 1..Len(t.vars) |->
                    MaxSum(<<d>> \o [j \in 1..Len(t.vars[i].f) |-> MaxSize(t.vars[i].f[j])])])
         IN m
    [] t.k = "nonzero" -> MaxSize(t.of)
    [] t.k = "refcell" -> MaxSize(t.of)
    [] t.k = "time" -> 8
    [] t.k = "duration" -> 12
    [] t.k = "never" -> 0
    [] t.k = "item" -> 1
    [] OTHER -> Unbounded                       \* seq str cstr map set

RECURSIVE HasMap(_)
HasMap(t) ==
  CASE t.k \in {"map", "set"} -> TRUE
    [] t.k = "tuple" -> \E i \in 1..Len(t.ts) : HasMap(t.ts[i])
    [] t.k \in {"array", "seq", "sized", "nonzero", "refcell"} -> HasMap(t.of)
    [] t.k = "sum" -> \E i \in 1..Len(t.vars) : \E j \in 1..Len(t.vars[i].f) : HasMap(t.vars[i].f[j])
    [] OTHER -> FALSE

(* ------------------------ valid values of a type ----------------------- *)
IsDigits(v, n) == Len(v) = n /\ \A i \in 1..n : v[i] \in Byte
RECURSIVE Valid(_, _)
Valid(t, v) ==
  CASE t.k = "int" -> IsDigits(v, t.w)
    [] t.k \in {"usize", "isize"} -> IsDigits(v, 8)
    [] t.k = "bool" -> v \in {0, 1}
    [] t.k = "char" -> IsScalar(v)
    [] t.k = "tuple" -> Len(v) = Len(t.ts) /\ \A i \in 1..Len(v) : Valid(t.ts[i], v[i])
    [] t.k = "array" -> Len(v) = t.n /\ \A i \in 1..Len(v) : Valid(t.of, v[i])
    [] t.k = "seq" -> \A i \in 1..Len(v) : Valid(t.of, v[i])
    [] t.k = "sized" -> Len(v) <= t.cap /\ \A i \in 1..Len(v) : Valid(t.of, v[i])
    [] t.k = "str" -> \A i \in 1..Len(v) : IsScalar(v[i])
    [] t.k = "sizedstr" -> (\A i \in 1..Len(v) : IsScalar(v[i])) /\ Len(Utf8(v)) <= t.cap
    [] t.k = "cstr" -> \A i \in 1..Len(v) : v[i] \in 1..255
    [] t.k = "map" -> /\ \A i \in 1..Len(v) : Valid(t.key, v[i][1]) /\ Valid(t.val, v[i][2])
                      /\ \A i, j \in 1..Len(v) : i # j => v[i][1] # v[j][1]
    [] t.k = "set" -> /\ \A i \in 1..Len(v) : Valid(t.of, v[i])
                      /\ \A i, j \in 1..Len(v) : i # j => v[i] # v[j]
    [] t.k = "sum" -> v.i \in 1..Len(t.vars) /\ LET fs == t.vars[v.i].f IN
                      Len(v.f) = Len(fs) /\ \A j \in 1..Len(fs) : Valid(fs[j], v.f[j])
    [] t.k = "nonzero" -> Valid(t.of, v) /\ ~IsZero(v)
    [] t.k = "refcell" -> v.bor \in {0, 1} /\ Valid(t.of, v.v)
    [] t.k \in {"time", "duration"} -> IsDigits(v.s, 8) /\ v.n \in 0..999999999
    [] t.k = "item" -> v \in Byte
    [] OTHER -> FALSE                            \* never

(* ------------------------------- encoding ------------------------------ *)
EOk(b) == [ok |-> TRUE, b |-> b, e |-> NoErr]
EBad(b, e) == [ok |-> FALSE, b |-> b, e |-> e]

(* The first failing part decides; what precedes it has been written.      *)
EncSeq(rs0) ==
  LET rs == TLCEval(rs0)
      bad == {i \in 1..Len(rs) : ~rs[i].ok} IN
  IF bad = {} THEN EOk(Flat([i \in 1..Len(rs) |-> rs[i].b]))
  ELSE LET j == SetMin(bad) IN EBad(Flat([i \in 1..j |-> rs[i].b]), rs[j].e)

EMapErr(r, Op(_)) == IF r.ok THEN r ELSE [r EXCEPT !.e = Op(@)]
EThen(r1, r2) == IF r1.ok THEN [r2 EXCEPT !.b = r1.b \o @] ELSE r1

EncUsize(d) == IF FitsU16(d) THEN EOk(<<d[8], d[7]>>) ELSE EBad(<<>>, Err(<<>>, "usize", d))
EncIsize(d) == IF FitsI16(d) THEN EOk(<<d[8], d[7]>>) ELSE EBad(<<>>, Err(<<>>, "isize", d))
EncLen(n) == EMapErr(EncUsize(Digits(n, 8)), LAMBDA e : Under(<<-3>>, e))

(* Discriminants are declared as 128-bit digits; d in representation t.    *)
EncDisc(t, d) ==
  CASE t.k = "int" -> EOk(Rev(LastN(d, t.w)))
    [] t.k = "usize" -> EncUsize(LastN(d, 8))
    [] t.k = "isize" -> EncIsize(LastN(d, 8))
    [] t.k = "bool" -> EOk(<<d[16]>>)

(* Whole seconds rounded towards the epoch; s are the floored seconds.     *)
TruncSecs(v) == IF Neg(v.s) /\ v.n > 0 THEN Inc(v.s) ELSE v.s

RECURSIVE Enc(_, _)
EncItems(t, vs) ==
  EncSeq([i \in 1..Len(vs) |-> EMapErr(Enc(t, vs[i]), LAMBDA e : Under(<<i - 1>>, e))])
Enc(t, v) ==
  CASE t.k = "int" -> EOk(Rev(v))
    [] t.k = "usize" -> EncUsize(v)
    [] t.k = "isize" -> EncIsize(v)
    [] t.k = "bool" -> EOk(<<v>>)
    [] t.k = "char" -> EOk(<<v % 256, (v \div 256) % 256, v \div 65536, 0>>)
    [] t.k = "tuple" ->
         LET r == EncSeq([i \in 1..Len(v) |-> Enc(t.ts[i], v[i])]) IN
         IF t.g = 1 THEN EMapErr(r, ToGeneric) ELSE r
    [] t.k = "array" -> EncItems(t.of, v)
    [] t.k \in {"seq", "sized"} -> EThen(EncLen(Len(v)), EncItems(t.of, v))
    [] t.k \in {"str", "sizedstr"} -> LET b == Utf8(v) IN EThen(EncLen(Len(b)), EOk(b))
    [] t.k = "cstr" -> EThen(EncLen(Len(v)), EOk(v))
    [] t.k = "map" ->
         EThen(EncLen(Len(v)),
               EncSeq([i \in 1..Len(v) |->
                 EMapErr(EThen(Enc(t.key, v[i][1]), Enc(t.val, v[i][2])), LAMBDA e : Under(<<i - 1>>, e))]))
    [] t.k = "set" -> EThen(EncLen(Len(v)), EncItems(t.of, v))
    [] t.k = "sum" ->
         LET var == t.vars[v.i]
             d == EMapErr(EncDisc(t.disc, var.d), LAMBDA e : Under(<<-2>>, e))
             f == EncSeq([j \in 1..Len(var.f) |-> Enc(var.f[j], v.f[j])])
             fg == IF t.g = 1 THEN EMapErr(f, ToGeneric) ELSE f
         IN EThen(d, IF t.ew = 1 THEN EMapErr(fg, LAMBDA e : Under(<<-1>>, e)) ELSE fg)
    [] t.k = "nonzero" -> Enc(t.of, v)
    [] t.k = "refcell" ->
         IF v.bor = 1 THEN EBad(<<>>, Err(<<-5>>, "borrow", <<>>))
         ELSE EMapErr(Enc(t.of, v.v), LAMBDA e : Under(<<-4>>, e))
    [] t.k = "time" -> EOk(Rev(TruncSecs(v)))
    [] t.k = "duration" -> EOk(Rev(v.s) \o Rev(Digits(v.n, 4)))
    [] t.k = "item" -> IF v = 255 THEN EBad(<<>>, Err(<<>>, "item", <<>>)) ELSE EOk(<<v>>)

(* The value a round trip is allowed to return instead of the original.    *)
RECURSIVE Norm(_, _)
Norm(t, v) ==
  CASE t.k = "time" -> [s |-> TruncSecs(v), n |-> 0]
    [] t.k = "refcell" -> [bor |-> 0, v |-> Norm(t.of, v.v)]
    [] t.k = "tuple" -> TLCEval([i \in 1..Len(v) |-> Norm(t.ts[i], v[i])])
    [] t.k \in {"array", "seq", "sized", "set"} -> TLCEval([i \in 1..Len(v) |-> Norm(t.of, v[i])])
    [] t.k = "map" -> [i \in 1..Len(v) |-> <<Norm(t.key, v[i][1]), Norm(t.val, v[i][2])>>]
    [] t.k = "sum" -> [i |-> v.i, f |-> TLCEval([j \in 1..Len(v.f) |-> Norm(t.vars[v.i].f[j], v.f[j])])]
    [] OTHER -> v

(* Equality of values: maps and sets are unordered.                        *)
RECURSIVE Same(_, _, _)
Same(t, v, w) ==
  IF ~HasMap(t) THEN v = w
  ELSE
  CASE t.k = "map" ->
         /\ Len(v) = Len(w)
         /\ \A i \in 1..Len(v) : \E j \in 1..Len(w) : Same(t.key, v[i][1], w[j][1]) /\ Same(t.val, v[i][2], w[j][2])
         /\ \A j \in 1..Len(w) : \E i \in 1..Len(v) : Same(t.key, v[i][1], w[j][1])
    [] t.k = "set" ->
         /\ Len(v) = Len(w)
         /\ \A i \in 1..Len(v) : \E j \in 1..Len(w) : Same(t.of, v[i], w[j])
         /\ \A j \in 1..Len(w) : \E i \in 1..Len(v) : Same(t.of, v[i], w[j])
    [] t.k = "tuple" -> Len(v) = Len(w) /\ \A i \in 1..Len(v) : Same(t.ts[i], v[i], w[i])
    [] t.k \in {"array", "seq", "sized"} -> Len(v) = Len(w) /\ \A i \in 1..Len(v) : Same(t.of, v[i], w[i])
    [] t.k = "sum" -> v.i = w.i /\ \A j \in 1..Len(v.f) : Same(t.vars[v.i].f[j], v.f[j], w.f[j])
    [] t.k = "refcell" -> v.bor = w.bor /\ Same(t.of, v.v, w.v)
    [] OTHER -> v = w

(* ------------------------------- decoding ------------------------------ *)
(* s: "ok" | "err" | "short" (the input ends before the value) | "never"   *)
(* (no values) | "over" (a duration beyond 2^64 seconds).                  *)
DOk(v, p) == [s |-> "ok", v |-> v, p |-> p, e |-> NoErr]
DErr(e, p) == [s |-> "err", v |-> <<>>, p |-> p, e |-> e]
DStop(s, p) == [s |-> s, v |-> <<>>, p |-> p, e |-> NoErr]
DMapErr(r, Op(_)) == IF r.s = "err" THEN [r EXCEPT !.e = Op(@)] ELSE r

Has(b, p, n) == p + n <= Len(b)
Take(b, p, n) == SubSeq(b, p + 1, p + n)
DecFix(b, p, n, V(_)) == IF Has(b, p, n) THEN DOk(V(Take(b, p, n)), p + n) ELSE DStop("short", p)

(* Big-endian digits of a discriminant as read in representation t.        *)
DecDisc(t, b, p) ==
  CASE t.k = "int" -> DecFix(b, p, t.w, Rev)
    [] t.k = "usize" -> DecFix(b, p, 2, LAMBDA x : ZeroExt(Rev(x), 8))
    [] t.k = "isize" -> DecFix(b, p, 2, LAMBDA x : SignExt(Rev(x), 8))
    [] t.k = "bool" -> DecFix(b, p, 1, LAMBDA x : IF x[1] = 0 THEN <<0>> ELSE <<1>>)

E9 == [c \in 1..4 |-> CASE c = 1 -> <<59, 154, 202, 0>> [] c = 2 -> <<119, 53, 148, 0>>
                        [] c = 3 -> <<178, 208, 94, 0>> [] c = 4 -> <<238, 107, 40, 0>>]

RECURSIVE IncN(_, _)
IncN(d, n) == IF n = 0 THEN d ELSE IncN(Inc(d), n - 1)

DecDuration(b, p) ==
  IF ~Has(b, p, 12) THEN DStop("short", p)
  ELSE LET s == Rev(Take(b, p, 8))
           n == Rev(Take(b, p + 8, 4))
           c == Cardinality({i \in 1..4 : GeqD(n, E9[i])})
           s2 == IncN(s, c)
       IN IF GeqD(s2, s) THEN DOk([s |-> s2, n |-> NatOf(IF c = 0 THEN n ELSE SubD(n, E9[c]))], p + 12)
          ELSE DStop("over", p)

(* Later entries replace the value of an equal key; the order is open.     *)
Dedup(es) ==
  LET keys == SetToSeq({es[i][1] : i \in 1..Len(es)})
      LastOf(k) == SetMax({i \in 1..Len(es) : es[i][1] = k})
  IN [j \in 1..Len(keys) |-> <<keys[j], es[LastOf(keys[j])][2]>>]

RECURSIVE Dec(_, _, _), DecList(_, _, _, _, _), DecMany(_, _, _, _, _)

(* The types ts[i..] one after the other; acc: the values so far.          *)
DecList(ts, i, b, p, acc) ==
  IF i > Len(ts) THEN DOk(acc, p)
  ELSE LET r == Dec(ts[i], b, p) IN
       IF r.s = "ok" THEN DecList(ts, i + 1, b, r.p, Append(acc, r.v)) ELSE r

(* n items of type t, the first having index i.                            *)
DecMany(t, b, p, n, i) ==
  IF n = 0 THEN DOk(<<>>, p)
  ELSE IF n = 1 THEN
    LET r == Dec(t, b, p) IN
    IF r.s = "ok" THEN DOk(<<r.v>>, r.p) ELSE DMapErr(r, LAMBDA e : Under(<<i>>, e))
  ELSE LET h == n \div 2
           r == DecMany(t, b, p, h, i)
       IN IF r.s # "ok" THEN r
          ELSE LET q == DecMany(t, b, r.p, n - h, i + h) IN
               IF q.s # "ok" THEN q ELSE DOk(r.v \o q.v, q.p)

DecLen(b, p) == DecFix(b, p, 2, LAMBDA x : x[1] + 256 * x[2])

DecBytes(b, p) ==                               \* length-prefixed raw bytes
  LET l == DecLen(b, p) IN
  IF l.s # "ok" THEN l ELSE DecFix(b, l.p, l.v, LAMBDA x : x)

DecText(b, p) ==
  LET r == DecBytes(b, p) IN
  IF r.s # "ok" THEN r
  ELSE LET u == Utf8Dec(r.v) IN
       IF u.ok THEN DOk(u.cs, r.p) ELSE DErr(Err(<<>>, "utf8", <<u.at, r.v[u.at + 1]>>), r.p)

Dec(t, b, p) ==
  CASE t.k = "int" -> DecFix(b, p, t.w, Rev)
    [] t.k = "usize" -> DecFix(b, p, 2, LAMBDA x : ZeroExt(Rev(x), 8))
    [] t.k = "isize" -> DecFix(b, p, 2, LAMBDA x : SignExt(Rev(x), 8))
    [] t.k = "bool" -> DecFix(b, p, 1, LAMBDA x : IF x[1] = 0 THEN 0 ELSE 1)
    [] t.k = "char" ->
         LET r == DecFix(b, p, 4, Rev) IN
         IF r.s # "ok" THEN r
         ELSE IF r.v[1] = 0 /\ r.v[2] <= 16 /\ IsScalar(NatOf(r.v)) THEN DOk(NatOf(r.v), r.p)
         ELSE DErr(Err(<<>>, "char", r.v), r.p)
    [] t.k = "tuple" ->
         LET r == DecList(t.ts, 1, b, p, <<>>) IN IF t.g = 1 THEN DMapErr(r, ToGeneric) ELSE r
    [] t.k = "array" -> DecMany(t.of, b, p, t.n, 0)
    [] t.k = "seq" -> LET l == DecLen(b, p) IN IF l.s # "ok" THEN l ELSE DecMany(t.of, b, l.p, l.v, 0)
    [] t.k = "sized" ->
         LET l == DecLen(b, p) IN
         IF l.s # "ok" THEN l
         ELSE IF l.v > t.cap THEN DErr(Err(<<-3>>, "len", <<t.cap, l.v>>), l.p)
         ELSE DecMany(t.of, b, l.p, l.v, 0)
    [] t.k = "str" -> DecText(b, p)
    [] t.k = "sizedstr" ->
         LET l == DecLen(b, p) IN
         IF l.s = "ok" /\ l.v > t.cap
         THEN DErr(Err(<<-3>>, "len", <<t.cap, l.v>>), IF Has(b, l.p, l.v) THEN l.p + l.v ELSE -1)
         ELSE DecText(b, p)
    [] t.k = "cstr" ->
         LET r == DecBytes(b, p)
             z == {i \in 1..Len(r.v) : r.v[i] = 0}
         IN IF r.s # "ok" THEN r
            ELSE IF z = {} THEN r
            ELSE DErr(Err(<<>>, "nul", <<SetMin(z) - 1>>), r.p)
    [] t.k = "map" ->
         LET l == DecLen(b, p)
             r == DecMany([k |-> "tuple", ts |-> <<t.key, t.val>>, g |-> 0], b, l.p, l.v, 0)
         IN IF l.s # "ok" THEN l ELSE IF r.s # "ok" THEN r ELSE DOk(Dedup(r.v), r.p)
    [] t.k = "set" ->
         LET l == DecLen(b, p)
             r == DecMany(t.of, b, l.p, l.v, 0)
         IN IF l.s # "ok" THEN l ELSE IF r.s # "ok" THEN r
            ELSE DOk(SetToSeq({r.v[i] : i \in 1..Len(r.v)}), r.p)
    [] t.k = "sum" ->
         LET d == DecDisc(t.disc, b, p)
             w == Len(d.v)
             hit == {i \in 1..Len(t.vars) : LastN(t.vars[i].d, w) = d.v}
             i == SetMin(hit)
             r == DecList(t.vars[i].f, 1, b, d.p, <<>>)
             rg == IF t.g = 1 THEN DMapErr(r, ToGeneric) ELSE r
         IN IF d.s # "ok" THEN d
            ELSE IF hit = {} THEN DErr(Err(<<-2>>, "disc", d.v), d.p)
            ELSE IF rg.s = "ok" THEN DOk([i |-> i, f |-> rg.v], rg.p)
            ELSE IF t.dw = 1 THEN DMapErr(rg, LAMBDA e : Under(<<-1>>, e)) ELSE rg
    [] t.k = "nonzero" ->
         LET r == Dec(t.of, b, p) IN
         IF r.s = "ok" /\ IsZero(r.v) THEN DErr(Err(<<>>, "nonzero", <<>>), r.p) ELSE r
    [] t.k = "refcell" ->
         LET r == Dec(t.of, b, p) IN IF r.s = "ok" THEN DOk([bor |-> 0, v |-> r.v], r.p) ELSE r
    [] t.k = "time" -> DecFix(b, p, 8, LAMBDA x : [s |-> Rev(x), n |-> 0])
    [] t.k = "duration" -> DecDuration(b, p)
    [] t.k = "never" -> DStop("never", p)
    [] t.k = "item" -> LET r == DecFix(b, p, 1, LAMBDA x : x[1]) IN
                       IF r.s = "ok" /\ r.v = 255 THEN DErr(Err(<<>>, "item", <<>>), r.p) ELSE r

(* Is b an encoding of v?  Unique except for the order of map entries.     *)
IsEnc(t, v, b) ==
  LET x == Enc(t, v) IN
  /\ x.ok
  /\ \/ x.b = b
     \/ /\ HasMap(t)
        /\ Len(b) = Len(x.b)
        /\ LET r == Dec(t, b, 0) IN
           /\ r.s = "ok" /\ r.p = Len(b)
           /\ Same(t, r.v, Norm(t, v))
           /\ Enc(t, r.v).b = b
=============================================================================

------------------------------ MODULE OctBytes ------------------------------
(***************************************************************************)
(* Bytes, digit sequences and UTF-8: the arithmetic the wire format is     *)
(* written in.  TLC's integers are 32 bits wide, so integers of the        *)
(* library are big-endian sequences of byte digits in two's complement.    *)
(* Nothing here is shared with the implementation.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Byte == 0..255

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* Concatenation of a sequence of sequences (balanced, so that tens of     *)
(* thousands of items stay cheap and the recursion shallow).               *)
RECURSIVE FlatR(_, _, _)
FlatR(ss, lo, hi) ==
  IF lo > hi THEN <<>>
  ELSE IF lo = hi THEN ss[lo]
  ELSE LET m == (lo + hi) \div 2 IN FlatR(ss, lo, m) \o FlatR(ss, m + 1, hi)
Flat(ss) == FlatR(ss, 1, Len(ss))

RECURSIVE SumR(_, _, _)
SumR(s, lo, hi) ==
  IF lo > hi THEN 0
  ELSE IF lo = hi THEN s[lo]
  ELSE LET m == (lo + hi) \div 2 IN SumR(s, lo, m) + SumR(s, m + 1, hi)
SumSeq(s) == SumR(s, 1, Len(s))

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rep(x, n) == [i \in 1..n |-> x]
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
LastN(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))

(* The same multiset of items, as sequences.                               *)
Occ(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
IsPerm(a, b) == /\ Len(a) = Len(b)
                /\ \A i \in 1..Len(a) : Occ(a, a[i]) = Occ(b, a[i])

(* -------------------------------- digits ------------------------------- *)
(* Natural number below 2^31 as n big-endian digits.                       *)
RECURSIVE Digits(_, _)
Digits(x, n) == IF n = 0 THEN <<>> ELSE Append(Digits(x \div 256, n - 1), x % 256)

(* Value of a digit sequence that is known to be small (below 2^31).       *)
RECURSIVE NatOf(_)
NatOf(d) == IF d = <<>> THEN 0 ELSE 256 * NatOf(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)]

IsZero(d) == \A i \in 1..Len(d) : d[i] = 0
Neg(d) == d # <<>> /\ d[1] >= 128                 \* sign of two's complement
ZeroExt(d, n) == Rep(0, n - Len(d)) \o d
SignExt(d, n) == Rep(IF Neg(d) THEN 255 ELSE 0, n - Len(d)) \o d

(* d + 1 modulo 256^Len(d)                                                 *)
RECURSIVE Inc(_)
Inc(d) == IF d = <<>> THEN <<>>
          ELSE LET k == Len(d) IN
               IF d[k] = 255 THEN Append(Inc(SubSeq(d, 1, k - 1)), 0)
               ELSE [d EXCEPT ![k] = @ + 1]
(* d - 1 modulo 256^Len(d)                                                 *)
RECURSIVE Decr(_)
Decr(d) == IF d = <<>> THEN <<>>
          ELSE LET k == Len(d) IN
               IF d[k] = 0 THEN Append(Decr(SubSeq(d, 1, k - 1)), 255)
               ELSE [d EXCEPT ![k] = @ - 1]
AllFF(d) == \A i \in 1..Len(d) : d[i] = 255

(* Unsigned comparison of equally long digit sequences.                    *)
RECURSIVE GeqD(_, _)
GeqD(a, b) == IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] > b[1]
              ELSE GeqD(Tail(a), Tail(b))
(* a - b for a >= b, equally long.                                         *)
RECURSIVE SubD(_, _)
SubD(a, b) ==
  IF a = <<>> THEN <<>>
  ELSE LET k == Len(a)
           x == a[k] - b[k]
           a1 == SubSeq(a, 1, k - 1)
           b1 == SubSeq(b, 1, k - 1)
       IN IF x >= 0 THEN Append(SubD(a1, b1), x)
          ELSE Append(SubD(Decr(a1), b1), x + 256)

(* Does a 64-bit unsigned value fit 16 bits / a signed one 16 bits?        *)
FitsU16(d) == IsZero(SubSeq(d, 1, 6))
FitsI16(d) == \/ IsZero(SubSeq(d, 1, 6)) /\ d[7] < 128
              \/ AllFF(SubSeq(d, 1, 6)) /\ d[7] >= 128

Le16(n) == <<n % 256, n \div 256>>

(* -------------------------------- UTF-8 -------------------------------- *)
IsScalar(c) == c \in 0..55295 \/ c \in 57344..1114111

Utf8Char(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Utf8(cs) == Flat([i \in 1..Len(cs) |-> Utf8Char(cs[i])])

IsCont(x) == x \in 128..191

(* The well-formed sequence starting at index i, [n |-> 0, c |-> 0] if     *)
(* there is none (table 3-7 of the Unicode standard).                      *)
Utf8One(b, i) ==
  LET n == Len(b)
      b0 == b[i]
      At(k) == IF i + k <= n THEN b[i + k] ELSE 0
      Bad == [n |-> 0, c |-> 0]
      lo1 == IF b0 = 224 THEN 160 ELSE IF b0 = 240 THEN 144 ELSE 128
      hi1 == IF b0 = 237 THEN 159 ELSE IF b0 = 244 THEN 143 ELSE 191
  IN IF b0 < 128 THEN [n |-> 1, c |-> b0]
     ELSE IF b0 \in 194..223 THEN
       IF IsCont(At(1)) THEN [n |-> 2, c |-> (b0 - 192) * 64 + (At(1) - 128)] ELSE Bad
     ELSE IF b0 \in 224..239 THEN
       IF At(1) \in lo1..hi1 /\ IsCont(At(2))
       THEN [n |-> 3, c |-> (b0 - 224) * 4096 + (At(1) - 128) * 64 + (At(2) - 128)] ELSE Bad
     ELSE IF b0 \in 240..244 THEN
       IF At(1) \in lo1..hi1 /\ IsCont(At(2)) /\ IsCont(At(3))
       THEN [n |-> 4, c |-> (b0 - 240) * 262144 + (At(1) - 128) * 4096 + (At(2) - 128) * 64 + (At(3) - 128)]
       ELSE Bad
     ELSE Bad

(* [ok, cs, at]: the code points, or the offset of the first byte that is  *)
(* not part of a well-formed sequence.                                     *)
Utf8Dec(b) ==
  LET n == Len(b)
      starts == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~IsCont(b[i]))
      one == [k \in 1..Len(starts) |-> Utf8One(b, starts[k])]
      bad == (IF n > 0 /\ IsCont(b[1]) THEN {1} ELSE {})
             \cup {starts[k] : k \in {j \in 1..Len(starts) : one[j].n = 0}}
             \cup {starts[k] + one[k].n : k \in {j \in 1..Len(starts) :
                      /\ one[j].n # 0
                      /\ starts[j] + one[j].n <= n
                      /\ IsCont(b[starts[j] + one[j].n])}}
  IN IF bad = {} THEN [ok |-> TRUE, cs |-> [k \in 1..Len(one) |-> one[k].c], at |-> 0]
     ELSE [ok |-> FALSE, cs |-> <<>>, at |-> SetMin(bad) - 1]
=============================================================================

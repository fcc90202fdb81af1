------------------------------ MODULE MCCodec ------------------------------
(***************************************************************************)
(* The codec of every type of the registry on its boundary values: the     *)
(* statements C01-C05 and C15 about the data model itself, and scripts     *)
(* that put the same values and bytes around their encodings to the code.  *)
(***************************************************************************)
EXTENDS OctSamples, OctDerive, TLC, IOUtils, Json

TypeFile == JsonDeserialize(IOEnv.TYPES)
Deep == IOEnv.DEEP = "1"
Part == atoi(IOEnv.PART)
Parts == atoi(IOEnv.PARTS)
NameSeq == SetToSeq({x \in DOMAIN TypeFile : IOEnv.TAG = "any" \/ \E i \in DOMAIN TypeFile[x].tags : TypeFile[x].tags[i] = IOEnv.TAG})
Mine == {i \in 1..Len(NameSeq) : i % Parts = Part}
Desc(m) == Resolve(TypeFile[m].ty)

VARIABLES n, j, t, v, b, top, done
vars == <<n, j, t, v, b, top, done>>
\* Values without an encoding cannot be put to the code by their encoding.
HasTop(d) == MaxSize(d) >= 0 /\ Lively(d)
Vals(d) == SelectSeq(Samples(d), LAMBDA x : Enc(d, x).ok) \o (IF HasTop(d) THEN <<MaxVal(d)>> ELSE <<>>)
Init == /\ done = FALSE /\ j = 0 /\ v = <<>> /\ b = <<>> /\ top = FALSE
        /\ \E i \in Mine : n = NameSeq[i]
        /\ t = Desc(n) /\ Modest(t)

RECURSIVE Words(_)
Words(x) == IF x = <<>> THEN "" ELSE " " \o ToString(Head(x)) \o Words(Tail(x))
X(x) == PrintT("@@S X " \o n \o " |" \o Words(x))
Short == Len(b) <= (IF Deep THEN 40 ELSE 12)
\* Types of which 65535 items take no bytes; those are left to other checks.
RECURSIVE Airy(_)
Airy(d) ==
  CASE d.k \in {"seq", "set", "sized"} -> MaxSize(d.of) = 0 \/ Airy(d.of)
    [] d.k = "map" -> MaxSize(d.key) = 0 /\ MaxSize(d.val) = 0
    [] d.k \in {"array", "refcell"} -> Airy(d.of)
    [] d.k = "tuple" -> \E i \in 1..Len(d.ts) : Airy(d.ts[i])
    [] d.k = "sum" -> \E i \in 1..Len(d.vars) : \E m \in 1..Len(d.vars[i].f) : Airy(d.vars[i].f[m])
    [] OTHER -> FALSE
Alphabet == IF Airy(t) THEN {0, 1, 2, 3} ELSE {0, 1, 2, 255}
\* Bytes in place of one byte of the encoding.
Odd == IF Deep THEN {0, 1, 2, 3, 4, 6, 65, 127, 128, 191, 192, 193, 194, 216, 220, 223, 224, 237, 240, 244, 245, 255} ELSE {0, 1, 2, 127, 128, 216, 255} \ (IF Airy(t) THEN {127, 128, 216, 255} ELSE {})
RECURSIVE Over(_, _)
Over(a, k) == IF k = 0 THEN {<<>>} ELSE {<<x>> \o y : x \in a, y \in Over(a, k - 1)}
\* Types that decode what this one encodes; written by one, read by the other.
Mates == {TypeFile[n].mates[i] : i \in DOMAIN TypeFile[n].mates}

Strings ==
  \* No sample: all short strings over a small alphabet.
  \A k \in 0..(IF Deep THEN 5 ELSE 4) : \A x \in Over(Alphabet, k) : X(x)
Around ==
  /\ X(b)
  /\ X(b \o <<85, 170>>)
  /\ Short => \A k \in 0..(Len(b) - 1) : X(SubSeq(b, 1, k))
  /\ Short => \A k \in 1..Len(b) : \A o \in Odd : o # b[k] => X([b EXCEPT ![k] = o])
  \* Every capacity up to one more than needed, alone and after other bytes.
  /\ \A c \in (IF Short THEN 0..(Len(b) + 1) ELSE {0, 1, Len(b) \div 2, Len(b) - 1, Len(b)}) :
       PrintT("@@S O " \o ToString(c) \o "~P " \o n \o " |" \o Words(b) \o "~V~E~N~D " \o n)
  /\ PrintT("@@S O " \o ToString(Len(b) + 3) \o "~W 9 8~V~P " \o n \o " |" \o Words(b) \o "~V~W 7~V~W 6~V~E~N~M 2~D " \o n \o "~R 2~R 1~M 0")
  /\ \A m \in Mates : PrintT("@@S O " \o ToString(Len(b)) \o "~P " \o n \o " |" \o Words(b) \o "~E~N~D " \o m)
Next == \/ /\ ~done /\ j > 0 /\ done' = TRUE /\ UNCHANGED <<n, j, t, v, b, top>> /\ Around
        \/ /\ ~done /\ j = 0 /\ done' = TRUE /\ UNCHANGED <<n, j, t, v, b, top>> /\ Strings
        \/ /\ ~done /\ j = 0 /\ UNCHANGED <<n, t, done>>
           /\ LET w == TLCEval(Vals(t)) IN \E k \in 1..Len(w) :
                j' = k /\ v' = w[k] /\ b' = Enc(t, w[k]).b /\ top' = (k = Len(w) /\ HasTop(t))
Spec == Init /\ [][Next]_vars

At == j > 0 /\ ~done
(* C01: what is written is read back, exactly, whatever follows.           *)
RoundTrip == At => LET x == Enc(t, v)
                       y == Dec(t, b \o <<85, 170>>, 0)
                   IN Valid(t, v) /\ x.ok /\ y.s = "ok" /\ y.p = Len(b) /\ Same(t, y.v, Norm(t, v))
(* C01, C04: no encoding is the beginning of another.                      *)
PrefixFree == At /\ Len(b) <= 40 => \A k \in 0..(Len(b) - 1) : Dec(t, SubSeq(b, 1, k), 0).s = "short"
(* C03: nothing is longer than the maximum, and something is that long.    *)
Bounded == At /\ MaxSize(t) >= 0 => Len(b) <= MaxSize(t)
Attained == At /\ top => Len(b) = MaxSize(t)
(* C04: decoding anything gives a valid value that encodes to what was     *)
(* read, except where several byte strings stand for a value.              *)
Sound == ~done /\ j = 0 => \A k \in 0..3 : \A x \in Over(Alphabet, k) :
  LET y == Dec(t, x, 0) IN
  y.s = "ok" => /\ Valid(t, y.v) /\ y.p <= k
                /\ LET z == Enc(t, y.v) IN z.ok /\ Len(z.b) <= y.p
                     /\ Dec(t, z.b, 0).s = "ok" /\ Same(t, Dec(t, z.b, 0).v, y.v)
(* C15: equivalent types share one encoding.                               *)
Shared == At => \A m \in Mates :
  LET d == Desc(m) x == Dec(d, b, 0) IN x.s = "ok" => x.p = Len(b) /\ Enc(d, x.v).ok /\ Len(Enc(d, x.v).b) = Len(b)
=============================================================================

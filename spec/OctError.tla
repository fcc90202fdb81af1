------------------------------ MODULE OctError -----------------------------
(***************************************************************************)
(* Errors as trees: [k, v, e] with k the kind, v the data it carries       *)
(* (numbers as big-endian digits) and e its cause, a sequence of at most   *)
(* one tree.  Wrappers: item (the index), clen/citem (length or items of   *)
(* a collection), edisc/efield (discriminant or field of an enumeration),  *)
(* rborrow/rvalue (reference cell), str (string), gen (generic error).     *)
(***************************************************************************)
EXTENDS OctTypes

RECURSIVE RootOf(_), ChainOf(_), PathOf(_), DataOf(_)
RootOf(x) == IF x.e = <<>> THEN x ELSE RootOf(x.e[1])
ChainOf(x) == IF x.e = <<>> THEN <<x>> ELSE <<x>> \o ChainOf(x.e[1])

PathPart(x) ==
  CASE x.k = "item" -> <<NatOf(x.v[1])>>
    [] x.k = "clen" -> <<-3>>
    [] x.k = "edisc" -> <<-2>>
    [] x.k = "efield" -> <<-1>>
    [] x.k = "rborrow" -> <<-5>>
    [] x.k = "rvalue" -> <<-4>>
    [] OTHER -> <<>>
PathOf(x) == IF x.e = <<>> THEN <<>> ELSE PathPart(x) \o PathOf(x.e[1])

(* Everything carried by the error and its causes.                         *)
Own(x) == {x.v[j] : j \in 1..Len(x.v)}
DataOf(x) == Own(x) \cup (IF x.e = <<>> THEN {} ELSE DataOf(x.e[1]))

(* A number is named if a word of the message reads as it, as an unsigned  *)
(* or signed number.                                                       *)
Named(d, words) == \E j \in 1..Len(words) : words[j] \in {ZeroExt(d, 16), SignExt(d, 16)}

(* The root cause as errors of the codec carry it (see OctTypes).          *)
CauseOf(x) ==
  LET r == RootOf(x) IN
  CASE r.k \in {"usize", "isize", "char", "time", "disc"} -> [k |-> r.k, v |-> r.v[1]]
    [] r.k \in {"nonzero", "borrow"} -> [k |-> r.k, v |-> <<>>]
    [] OTHER -> [k |-> r.k, v |-> [j \in 1..Len(r.v) |-> NatOf(r.v[j])]]

(* Conversion to the generic error: only the cause survives, unchanged,    *)
(* discriminants zero-extended.                                            *)
GenericOf(x) == ToGeneric([p |-> PathOf(x), c |-> CauseOf(x)])
=============================================================================

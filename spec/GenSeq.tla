------------------------------- MODULE GenSeq ------------------------------
(***************************************************************************)
(* Histories for what MCSeq leaves out because it does not change the      *)
(* structure: comparisons of all pairs of short contents across capacities *)
(* decoding of all short byte strings into every container of items,       *)
(* copying, skipping over values that cannot be encoded.                   *)
(***************************************************************************)
EXTENDS OctSeq, TLC

RECURSIVE Words(_)
Words(s) == IF s = <<>> THEN "" ELSE " " \o ToString(Head(s)) \o Words(Tail(s))
L(op, a, b, n, d) == ";" \o op \o " " \o ToString(a) \o " " \o ToString(b) \o " " \o ToString(n) \o " |" \o Words(d)
Upto(S, n) == UNION {[1..k -> S] : k \in 0..n}
Fit(v) == {n \in {0, 1, 2, 3, 5} : n >= Len(v)}

Cmp == {"Q " \o ty \o L("new", 0, 0, n, v) \o L("new", 1, 1, m, w) \o L("cmp", 0, 1, 0, <<>>) \o L("view", 0, 0, 0, <<>>) :
          <<ty, n, m, v, w>> \in {x \in {"t", "c"} \X {2, 3, 5} \X {2, 3} \X Upto({0, 7, 254}, 2) \X Upto({0, 7, 254}, 2) : TRUE}}
Longer == {"Q t" \o L("new", 0, 0, 3, v) \o L("new", 1, 0, 5, w) \o L("cmp", 0, 1, 0, <<>>) \o L("cmp", 1, 0, 0, <<>>) : v \in Upto({1, 2}, 3), w \in Upto({1, 2}, 4)}
Other == UNION {{"Q t" \o L("dct", 0, b, 0, d)  :
          d \in Upto(IF b \in {11, 12, 26} THEN {0, 1, 3} ELSE {0, 2, 255}, IF b \in {11, 12, 26} THEN 6 ELSE 4)} : b \in 0..26}
(* Maps, sets, lists of pairs: also with keys that come again.             *)
Maps == {"Q t" \o L("dct", 0, b, 0, <<n, 0>> \o d) : b \in {13, 14, 24}, n \in 0..4, d \in Upto({1, 2, 255}, 5)}
(* Every split of a full or partly full iterator, then everything that     *)
(* can be asked of it.                                                     *)
Times(n, s) == FoldLeft(LAMBDA acc, j : acc \o s, "", [j \in 1..n |-> j])
Ups(n) == [j \in 1..n |-> j]
Asks ==
       {L("ivw", 0, 0, 0, <<>>) \o L(op, 0, 0, 0, <<>>) : op \in {"lst", "cnt", "drop"}}
  \cup {L("rev", 0, 0, 0, <<>>) \o L("cll", 0, b, 0, <<>>) : b \in 0..8}
  \cup {L("cln", 1, 0, 0, <<>>) \o L(op, 1, 0, 0, <<>>) \o L("rev", 0, 0, 0, <<>>) \o L("cll", 0, 0, 0, <<>>) \o L("cll", 1, 5, 0, <<>>) : op \in {"nxt", "bck"}}
  \cup {L("new", 1, 0, 5, Ups(n)) \o L("iter", 1, 0, 0, <<>>) \o L(op, 1, 0, 0, <<>>) \o L("clf", 1 - a, a, 0, <<>>) \o L("ivw", 1 - a, 0, 0, <<>>)
          \o L("nxt", 1 - a, 0, 0, <<>>) \o L("cll", 1 - a, 5, 0, <<>>) \o L("cll", a, 0, 0, <<>>) : op \in {"nxt", "bck"}, n \in {1, 3, 5}, a \in {0, 1}}
  \cup {L("prt", 0, b, n, <<>>) \o L("ivw", 0, 0, 0, <<>>) \o L("nxt", 0, 0, 0, <<>>) \o L("cll", 0, 3, 0, <<>>) : b \in 0..8, n \in 0..3}
  \cup {L("icol", 0, 0, n, <<>>) \o L("view", 0, 0, 0, <<>>) : n \in {0, 2, 3, 5}}
Splits == {"Q " \o ty \o L("new", 0, 0, 5, Ups(n)) \o L("iter", 0, 0, 0, <<>>)
             \o (IF q = 0 THEN Times(f, L("nxt", 0, 0, 0, <<>>)) \o Times(b, L("bck", 0, 0, 0, <<>>))
                          ELSE Times(b, L("bck", 0, 0, 0, <<>>)) \o Times(f, L("nxt", 0, 0, 0, <<>>))) \o e :
             <<ty, n, f, b, q, e>> \in {x \in {"t"} \X (0..5) \X (0..5) \X (0..5) \X {0, 1} \X Asks : x[3] + x[4] <= x[2] /\ (x[5] = 0 \/ (x[3] > 0 /\ x[4] > 0))}}
Reassign == {"Q t" \o L("new", 0, 0, n, v) \o L("new", 1, 0, n, w) \o L("clf", 0, 1, 0, <<>>) \o L("view", 0, 0, 0, <<>>) \o L("box", 0, 0, 0, <<>>) \o L("drop", 0, 0, 0, <<>>) \o L("vec", 1, 0, 0, <<>>) :
          <<n, v, w>> \in {x \in {2, 3, 5} \X {Ups(k) : k \in 0..5} \X {Ups(k) : k \in 0..5} : Len(x[2]) <= x[1] /\ Len(x[3]) <= x[1]}}
Dec1 == {"Q " \o ty \o L("dec", 0, 0, n, d) \o L("view", 0, 0, 0, <<>>) \o L("enc", 0, 0, 0, <<>>) :
          ty \in {"t", "c"}, n \in {0, 1, 2, 3}, d \in Upto({0, 1, 2, 255}, 5)}
Copy == {"Q c" \o L("new", 0, 0, n, v) \o L("cpy", 0, 0, 0, d) \o L("view", 0, 0, 0, <<>>) \o L("cpy", 0, 0, 0, <<9>>) :
          n \in {0, 1, 2, 3, 5}, v \in {<<>>, <<1>>, <<1, 2, 3>>}, d \in {[j \in 1..k |-> j] : k \in 0..7}}
Zst == {"Q t" \o L("zst", 0, b, n, <<>>) : n \in {0, 1, 2, 3, 5}, b \in 0..7}
Enc1 == {"Q t" \o L("new", 0, 0, 3, v) \o L("enc", 0, 0, 0, <<>>) : v \in Upto({0, 1, 255}, 3)}

Sel(S, k) == \A x \in S : PrintT("@@S " \o x)
ASSUME Sel(Cmp, 1) /\ Sel(Longer, 1) /\ Sel(Copy, 1) /\ Sel(Zst, 1) /\ Sel(Enc1, 1)
ASSUME Sel(Other, 1) /\ Sel(Dec1, 1) /\ Sel(Maps, 1) /\ Sel(Splits, 1) /\ Sel(Reassign, 1)

VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================

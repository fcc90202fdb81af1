------------------------------- MODULE GenText -----------------------------
(***************************************************************************)
(* Histories over bounded strings that matter for their data: every short  *)
(* byte string over the bytes at which UTF-8 changes its rules, every      *)
(* boundary character, collecting, all pairs of short texts.               *)
(***************************************************************************)
EXTENDS OctText, TLC, IOUtils
Deep == IOEnv.DEEP = "1"

RECURSIVE Words(_)
Words(s) == IF s = <<>> THEN "" ELSE " " \o ToString(Head(s)) \o Words(Tail(s))
L(op, a, b, n, d) == op \o " " \o ToString(a) \o " " \o ToString(b) \o " " \o ToString(n) \o " |" \o Words(d) \o ";"
V(a) == L("view", a, 0, 0, <<>>)
Upto(S, n) == UNION {[1..k -> S] : k \in 0..n}

Edges == {97, 127, 128, 143, 144, 159, 160, 191, 193, 194, 223, 224, 237, 239, 240, 244, 245, 255}
Lead3 == {224, 225, 236, 237, 238, 239}
Lead4 == {239, 240, 241, 243, 244, 245}
Second == {97, 127, 128, 143, 144, 159, 160, 191, 192}
Bytes == Upto(Edges, IF Deep THEN 3 ELSE 2)
         \cup {<<a, b, c>> : a \in Lead3, b \in Second, c \in Second}
         \cup {<<a, b, c, d>> : a \in Lead4, b \in Second, c \in {127, 128, 191, 192}, d \in {97, 128, 191, 193}}
         \cup {<<97, a, b, 97>> : a \in {194, 223, 224}, b \in Second}
Ill == {L("utf8", 0, 0, n, d) \o V(0) : n \in {3, 4, 40}, d \in Bytes} \cup {L("dec", 0, 0, 4, <<Len(d), 0>> \o d) : d \in Bytes}

Marks == {0, 9, 10, 34, 39, 92, 97, 122, 65, 90, 127, 128, 233, 2047, 2048, 8364, 55295, 57344, 65533, 65535, 65536, 128512, 1114111}
One == {L("new", 0, b, n, <<c>>) \o V(0) : b \in 0..5, n \in {0, 1, 2, 3, 4, 5}, c \in Marks} \cup {L("col", 0, b, n, <<c>>) \o V(0) : b \in 0..3, n \in 0..5, c \in Marks}

Mix == Upto({97, 233, 8364, 128512}, 3)
Collect == {L("col", 0, b, n, d) \o V(0) \o L("enc", 0, 0, 0, <<>>) : b \in 0..3, n \in {0, 1, 2, 3, 4, 5, 6, 8}, d \in Mix}
New == {L("new", 0, b, n, d) \o V(0) \o L("into", 0, b, 0, <<>>) : b \in 0..5, n \in {2, 3, 6}, d \in Mix}
Pairs == {L("new", 0, 0, n, d) \o L("new", 1, 0, m, e) \o L("cmp", 0, 1, 0, <<>>) \o L("cmp", 1, 0, 0, <<>>) \o L("cst", 0, 0, 0, e) :
            n \in {8}, m \in {8, 16}, d \in Upto({97, 98, 65535, 65536}, 2), e \in Upto({97, 98, 65535, 65536}, 2)}
          \cup {L("new", 0, 0, n, d) \o L("new", 1, 0, m, e) \o L("cmp", 0, 1, 0, <<>>) \o L("cmp", 1, 0, 0, <<>>) \o L("cst", 0, 0, 0, e) :
                   n \in {3, 5}, m \in {3, 4, 5}, d \in Upto({65, 97, 32}, 2), e \in Upto({65, 97, 32}, 2)}
          \cup {L("new", 0, 0, 16, d) \o L("new", 1, 0, 16, e) \o L("cmp", 0, 1, 0, <<>>) : d \in Upto({97, 98}, 3), e \in Upto({97, 98}, 3)}

(* Well-formed bytes around every capacity; blanks and zeros are kept.      *)
Good == {L("dec", 0, 0, n, <<Len(d), 0>> \o d) \o V(0) \o L("into", 0, b, 0, <<>>) : n \in {0, 1, 2, 3, 4}, b \in 0..5, d \in Upto({0, 9, 32, 65}, 3)}
        \cup {L("utf8", 0, 0, n, d) \o V(0) : n \in {2, 3, 4}, d \in Upto({0, 10, 32, 65}, 3)}
        \cup {L("new", 0, b, n, d) \o V(0) \o L("enc", 0, 0, 0, <<>>) : b \in 0..5, n \in {2, 3}, d \in Upto({0, 9, 32, 8195}, 3)}
        \cup {L("col", 0, b, n, d) \o V(0) : b \in 0..3, n \in {2, 3}, d \in Upto({0, 9, 32, 8195}, 3)}

Sel(S) == \A x \in S : PrintT("@@S " \o x)
ASSUME Sel(Ill) /\ Sel(One) /\ Sel(Collect) /\ Sel(New) /\ Sel(Pairs) /\ Sel(Good)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================

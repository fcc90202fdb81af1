------------------------------ MODULE MCError ------------------------------
(***************************************************************************)
(* Statements about all error trees of bounded depth, built step by step:  *)
(* an error is raised and then wrapped on its way up, until it may be      *)
(* converted to the generic error and wrapped further.                     *)
(***************************************************************************)
EXTENDS OctError
CONSTANT Depth
VARIABLES tree, cause, ups       \* the error, what was raised, wrappers added
vars == <<tree, cause, ups>>

D2(x) == Digits(x, 2)
D8(x) == Digits(x, 8)
Leaves == {[k |-> "usize", v |-> <<D8(65536)>>, e |-> <<>>], [k |-> "isize", v |-> <<Rep(255, 6) \o <<127, 255>>>>, e |-> <<>>],
           [k |-> "borrow", v |-> <<>>, e |-> <<>>], [k |-> "nonzero", v |-> <<>>, e |-> <<>>], [k |-> "char", v |-> <<<<0, 0, 216, 0>>>>, e |-> <<>>],
           [k |-> "utf8", v |-> <<D8(3), <<255>>>>, e |-> <<>>], [k |-> "nul", v |-> <<D8(7)>>, e |-> <<>>], [k |-> "len", v |-> <<D8(4), D8(5)>>, e |-> <<>>],
           [k |-> "disc", v |-> <<<<255>>>>, e |-> <<>>], [k |-> "disc", v |-> <<<<128, 0>>>>, e |-> <<>>], [k |-> "disc", v |-> <<<<127, 1>>>>, e |-> <<>>]}
Wraps == {"item", "clen", "citem", "edisc", "efield", "rborrow", "rvalue", "str", "gen"}
Up(x, k, j) == [k |-> k, v |-> IF k = "item" THEN <<D8(j)>> ELSE <<>>, e |-> <<x>>]
(* A generic error keeps nothing but the cause.                            *)
Gen(x) == LET r == RootOf(x) IN
          Up(IF r.k = "disc" THEN [r EXCEPT !.v = <<ZeroExt(r.v[1], 16)>>] ELSE r, "gen", 0)
Init == tree \in Leaves /\ cause = tree /\ ups = <<>>
Wrap == \E k \in Wraps \ {"gen"}, j \in {0, 1} : tree' = Up(tree, k, j) /\ ups' = <<k>> \o ups
Convert == tree' = Gen(tree) /\ ups' = <<"gen">>
Next == Len(ups) < Depth /\ (Wrap \/ Convert) /\ UNCHANGED cause
Spec == Init /\ [][Next]_vars

(* The cause survives, discriminants keeping their unsigned value.         *)
Kept == LET r == RootOf(tree) IN r.k = cause.k /\
        IF r.k = "disc" THEN ZeroExt(r.v[1], 16) = ZeroExt(cause.v[1], 16) ELSE r = cause
ChainEnds == LET c == ChainOf(tree) IN c[1] = tree /\ c[Len(c)] = RootOf(tree) /\ RootOf(tree).e = <<>>
Converted == LET g == GenericOf(tree) IN
             /\ g.p = <<>> /\ g.c = GenericOf(cause).c /\ ToGeneric(g) = g
             /\ GenericOf(Gen(tree)) = g
Named0 == Own(RootOf(tree)) \subseteq DataOf(tree)
=============================================================================

------------------------------ MODULE OctDerive -----------------------------
(***************************************************************************)
(* What a declaration with the derive macros means: from the declaration   *)
(* (fields in order, variants with or without explicit discriminant,       *)
(* representation) to a type descriptor of OctTypes.                       *)
(*                                                                         *)
(* Declarations are kinds "struct" (fs) and "enum" (repr, vs) where a      *)
(* variant is [d |-> <<>> or 16 digits, f |-> field types].                *)
(***************************************************************************)
EXTENDS OctTypes

ReprType(r) ==
  CASE r \in {"none", "isize"} -> [k |-> "isize"]
    [] r = "usize" -> [k |-> "usize"]
    [] r = "u8" -> [k |-> "int", w |-> 1, s |-> 0]   [] r = "i8" -> [k |-> "int", w |-> 1, s |-> 1]
    [] r = "u16" -> [k |-> "int", w |-> 2, s |-> 0]  [] r = "i16" -> [k |-> "int", w |-> 2, s |-> 1]
    [] r = "u32" -> [k |-> "int", w |-> 4, s |-> 0]  [] r = "i32" -> [k |-> "int", w |-> 4, s |-> 1]
    [] r = "u64" -> [k |-> "int", w |-> 8, s |-> 0]  [] r = "i64" -> [k |-> "int", w |-> 8, s |-> 1]
    [] r = "u128" -> [k |-> "int", w |-> 16, s |-> 0] [] r = "i128" -> [k |-> "int", w |-> 16, s |-> 1]

(* Explicit, or one more than the previous variant's; zero to begin with.  *)
RECURSIVE Assign(_, _)
Assign(vs, prev) ==
  IF vs = <<>> THEN <<>>
  ELSE LET d == IF Head(vs).d # <<>> THEN Head(vs).d
                ELSE IF prev = <<>> THEN Rep(0, 16) ELSE Inc(prev)
       IN <<d>> \o Assign(Tail(vs), d)
Discriminants(vs) == Assign(vs, <<>>)

U(n) == [k |-> "int", w |-> n, s |-> 0]
Tup(ts) == [k |-> "tuple", ts |-> ts, g |-> 0]
Small(n) == Digits(n, 16)
Var(d, f) == [d |-> Small(d), f |-> f]
Sum(disc, ew, dw, vars) == [k |-> "sum", disc |-> disc, g |-> 0, ew |-> ew, dw |-> dw, vars |-> vars]

(* From the surface syntax of types used by the harness to descriptors.    *)
RECURSIVE Resolve(_)
ResolveAll(ts) == TLCEval([i \in 1..Len(ts) |-> Resolve(ts[i])])
Resolve(t) ==
  CASE t.k = "tuple" -> Tup(ResolveAll(t.ts))
    [] t.k = "array" -> [k |-> "array", n |-> t.n, of |-> Resolve(t.of)]
    [] t.k = "sized" -> [k |-> "sized", cap |-> t.cap, of |-> Resolve(t.of)]
    [] t.k \in {"seq", "set", "nonzero", "refcell"} -> [k |-> t.k, of |-> Resolve(t.of)]
    [] t.k = "map" -> [k |-> "map", key |-> Resolve(t.key), val |-> Resolve(t.val)]
    [] t.k = "opt" -> Sum([k |-> "bool"], 0, 0, <<Var(0, <<>>), Var(1, <<Resolve(t.of)>>)>>)
    [] t.k = "result" -> Sum([k |-> "bool"], 0, 1, <<Var(0, <<Resolve(t.ts[1])>>), Var(1, <<Resolve(t.ts[2])>>)>>)
    [] t.k = "bound" ->
         LET x == Resolve(t.of) IN Sum(U(1), 1, 1, <<Var(0, <<x>>), Var(1, <<x>>), Var(2, <<>>)>>)
    [] t.k = "ip" -> Sum(U(1), 1, 1, <<Var(4, <<U(4)>>), Var(6, <<U(16)>>)>>)
    [] t.k = "sock4" -> Tup(<<U(4), U(2)>>)
    [] t.k = "sock6" -> Tup(<<U(16), U(2), U(4), U(4)>>)
    [] t.k = "sock" -> Sum(U(1), 1, 1, <<Var(4, <<Tup(<<U(4), U(2)>>)>>), Var(6, <<Tup(<<U(16), U(2), U(4), U(4)>>)>>)>>)
    [] t.k = "struct" -> [k |-> "tuple", ts |-> ResolveAll(t.fs), g |-> 1]
    [] t.k = "enum" ->
         LET ds == Discriminants(t.vs) IN
         [k |-> "sum", disc |-> ReprType(t.repr), g |-> 1, ew |-> 1, dw |-> 1,
          vars |-> TLCEval([i \in 1..Len(t.vs) |-> [d |-> ds[i], f |-> ResolveAll(t.vs[i].f)]])]
    [] OTHER -> t
=============================================================================

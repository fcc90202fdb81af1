------------------------------- MODULE OctSeq ------------------------------
(***************************************************************************)
(* Bounded slices, their iterators and what they convert to.               *)
(*                                                                         *)
(* Four registers hold containers [k, n, it]: kind "e" (nothing), "s"      *)
(* (bounded slice of capacity n), "i" (its iterator), "v" (vector), "b"    *)
(* (boxed slice); it is the sequence of items <<id, val>> in it.           *)
(* Step(regs, o) says what operation o must come to.  In its result an     *)
(* item <<0, v>> is an item of value v that came to life in this step.     *)
(*   r, x, e   kind of result, what was returned, data of the error        *)
(*   regs      the registers afterwards                                    *)
(*   leak      items whose destructor need not run (a bounded slice or an  *)
(*             iterator was discarded)                                     *)
(*   lf        the same for items that came to life in this step (it was   *)
(*             abandoned half way)                                         *)
(***************************************************************************)
EXTENDS OctDerive

Empty == [k |-> "e", n |-> 0, it |-> <<>>]
Con(k, n, it) == [k |-> k, n |-> n, it |-> it]
NewItems(d) == [j \in 1..Len(d) |-> <<0, d[j]>>]
First(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
ValsOf(it) == [j \in 1..Len(it) |-> it[j][2]]
Ids(it) == {it[j][1] : j \in 1..Len(it)}

Out(r, x, e, regs, leak, lf) == [r |-> r, x |-> x, e |-> e, regs |-> regs, leak |-> leak, lf |-> lf]
Ok(x, regs) == Out("ok", x, NoErr, regs, {}, FALSE)
Fails(r, e, regs, lf) == Out(r, <<>>, e, regs, {}, lf)

Item == [k |-> "item"]
ListOf(t) == [k |-> "seq", of |-> t]
SizedOf(n, t) == [k |-> "sized", cap |-> n, of |-> t]

(* Other containers of items: descriptor and items of a decoded value.     *)
OtherType(b) ==
  CASE b \in {0, 2} -> ListOf(Item)
    [] b = 1 -> [k |-> "array", n |-> 2, of |-> Item]
    [] b = 10 -> [k |-> "array", n |-> 3, of |-> Item]
    [] b = 3 -> Resolve([k |-> "opt", of |-> Item])
    [] b = 11 -> ListOf(ListOf(Item))
    [] b = 12 -> ListOf(SizedOf(2, Item))
    [] b = 13 -> [k |-> "map", key |-> Item, val |-> Item]
    [] b = 14 -> [k |-> "set", of |-> Item]
    [] b \in {15, 19, 22} -> Tup(<<Item, Item>>)
    [] b = 16 -> Resolve([k |-> "result", ts |-> <<Item, Item>>])
    [] b = 17 -> Resolve([k |-> "bound", of |-> Item])
    [] b = 24 -> ListOf(Tup(<<Item, Item>>))
    [] b = 25 -> Resolve([k |-> "opt", of |-> ListOf(Item)])
    [] b = 26 -> [k |-> "array", n |-> 2, of |-> ListOf(Item)]
    [] OTHER -> Item
OtherItems(b, v) ==
  CASE b \in {0, 1, 2, 10, 15, 19, 22} -> v
    [] b \in {3, 16, 17} -> v.f
    [] b \in {11, 12, 24, 26} -> Flat(v)
    [] b = 13 -> Flat(SortSeq(v, LAMBDA x, y : x[1] < y[1]))
    [] b = 14 -> SortSeq(v, LAMBDA x, y : x < y)
    [] b = 25 -> Flat(v.f)
    [] OTHER -> <<v>>

(* The sub-range of a slice an index expression denotes: 0 a..b  1 a..=b   *)
(* 2 a..  3 ..b  4 ..   as [ok, lo, hi] (lo inclusive, hi exclusive).      *)
SubRange(b, lo, hi, len) ==
  LET l == IF b \in {0, 1, 2} THEN lo ELSE 0
      h == CASE b \in {0, 3} -> hi [] b = 1 -> hi + 1 [] OTHER -> len
  IN [ok |-> l <= h /\ h <= len, lo |-> l, hi |-> h]

Step(regs, o) ==
  LET a == o.a + 1
      c == regs[a]
      it == c.it
      src == regs[o.b + 1]
      Put(x) == [regs EXCEPT ![a] = x]
      d == o.d
  IN
  CASE o.op = "new" ->
         LET pk == o.b \div 2 IN
         IF Len(d) > o.n THEN Fails("err", Err(<<>>, "len", <<o.n, Len(d)>>), regs, FALSE)
         ELSE IF pk \in 1..Len(d) /\ o.cl THEN Fails("panic", NoErr, regs, TRUE)
         ELSE Ok(<<>>, Put(Con("s", o.n, NewItems(d))))
    [] o.op = "arr" -> Ok(<<>>, Put(Con("s", o.n, NewItems(d))))
    [] o.op = "col" ->
         LET given == IF o.b = 2 THEN First(d, Len(d) \div 2) ELSE d IN
         Ok(<<>>, Put(Con("s", o.n, NewItems(First(given, o.n)))))
    [] o.op = "def" -> Ok(<<>>, Put(Con("s", o.n, <<>>)))
    [] o.op = "cln" ->
         IF o.n \in 1..Len(src.it) /\ o.cl THEN Fails("panic", NoErr, regs, TRUE)
         ELSE Ok(<<>>, Put(Con(src.k, src.n, NewItems(ValsOf(src.it)))))
    \* assigning a clone; what was there before is discarded
    [] o.op = "clf" -> Out("ok", <<>>, NoErr, Put([c EXCEPT !.it = NewItems(ValsOf(src.it))]), Ids(it), FALSE)
    [] o.op = "iter" -> Ok(<<>>, Put([c EXCEPT !.k = "i"]))
    [] o.op = "box" -> Ok(<<>>, Put(Con("b", 0, it)))
    [] o.op = "vec" -> Ok(<<>>, Put(Con("v", 0, it)))
    [] o.op = "cov" -> Ok(<<>>, Put(Con("s", o.n, First(it, o.n))))
    [] o.op = "raw" -> Ok(<<>>, regs)
    [] o.op = "eref" -> Ok(<<Len(it), 1, it>>, regs)
    [] o.op = "emut" -> Ok(<<>>, Put([c EXCEPT !.it = [j \in 1..Len(it) |-> <<it[j][1], (it[j][2] + 1) % 250>>]]))
    [] o.op = "rev" -> Ok(<<>>, Put([c EXCEPT !.it = Rev(it)]))
    [] o.op = "trn" -> Ok(SubSeq(it, o.n + 1, Len(it)), Put([c EXCEPT !.it = First(it, o.n)]))
    [] o.op = "ext" -> Ok(<<>>, Put([c EXCEPT !.it = it \o NewItems(d)]))
    [] o.op = "cpy" -> IF Len(d) <= c.n THEN Ok(<<>>, Put([c EXCEPT !.it = NewItems(d)]))
                       ELSE Fails("panic", NoErr, regs, FALSE)
    [] o.op \in {"view", "ivw", "cmp"} -> Ok(<<>>, regs)
    [] o.op = "idx" -> IF o.n < Len(it) THEN Ok(it[o.n + 1], regs) ELSE Fails("panic", NoErr, regs, FALSE)
    [] o.op = "rng" ->
         LET g == SubRange(o.b, o.n, d[1], Len(it)) IN
         IF g.ok THEN Ok(SubSeq(it, g.lo + 1, g.hi), regs) ELSE Fails("panic", NoErr, regs, FALSE)
    [] o.op = "seti" ->
         IF o.n < Len(it) THEN Ok(<<>>, Put([c EXCEPT !.it[o.n + 1] = <<@[1], d[1]>>]))
         ELSE Fails("panic", NoErr, regs, FALSE)
    [] o.op = "enc" ->
         LET x == Enc(ListOf(Item), ValsOf(it)) IN
         IF x.ok THEN Ok(x.b, regs) ELSE Fails("err", x.e, regs, FALSE)
    [] o.op = "dec" ->
         LET x == Dec(SizedOf(o.n, Item), d, 0) IN
         CASE x.s = "ok" -> Ok(<<>>, Put(Con("s", o.n, NewItems(x.v))))
           [] x.s = "err" -> Fails("err", x.e, regs, TRUE)
           [] OTHER -> Fails("panic", NoErr, regs, TRUE)
    [] o.op = "dct" ->
         LET x == Dec(OtherType(o.b), d, 0) IN
         CASE x.s = "ok" -> Out("ok", NewItems(OtherItems(o.b, x.v)), NoErr, regs, {}, o.b = 12)
           [] x.s = "err" -> Fails("err", x.e, regs, TRUE)
           [] OTHER -> Fails("panic", NoErr, regs, TRUE)
    [] o.op = "drop" -> Out("ok", <<>>, NoErr, Put(Empty), IF c.k \in {"s", "i"} THEN Ids(it) ELSE {}, FALSE)
    [] o.op = "nxt" -> IF it = <<>> THEN Fails("none", NoErr, regs, FALSE)
                       ELSE Ok(it[1], Put([c EXCEPT !.it = Tail(it)]))
    [] o.op = "bck" -> IF it = <<>> THEN Fails("none", NoErr, regs, FALSE)
                       ELSE Ok(it[Len(it)], Put([c EXCEPT !.it = First(it, Len(it) - 1)]))
    [] o.op = "lst" -> IF it = <<>> THEN Fails("none", NoErr, Put(Empty), FALSE) ELSE Ok(it[Len(it)], Put(Empty))
    [] o.op = "cnt" -> Ok(Len(it), Put(Empty))
    [] o.op = "cll" -> Ok(<<>>, Put(Con("v", 0, IF o.b \in {1, 3, 7} THEN Rev(it) ELSE it)))
    [] o.op = "icol" -> Out("ok", <<>>, NoErr, Put(Con("s", o.n, First(it, o.n))), Ids(SubSeq(it, o.n + 1, Len(it))), FALSE)
    [] o.op = "prt" ->
         LET m == IF o.b \in {2, 3} THEN Min2(Max2(o.n, 1), Len(it)) ELSE Min2(o.n, Len(it))   \* folding takes one at least
             one == Min2(o.n + 1, Len(it))                                  \* skipping: the one after n, if there
             Fore(n) == First(it, n)
             Back(n) == First(Rev(it), n)
             keepF(n) == Put([c EXCEPT !.it = SubSeq(it, n + 1, Len(it))])
             keepB(n) == Put([c EXCEPT !.it = First(it, Len(it) - n)])
             hit == o.n < Len(it)
         IN CASE o.b \in {0, 2} -> Ok(Fore(m), keepF(m))
              [] o.b \in {1, 3} -> Ok(Back(m), keepB(m))
              [] o.b \in {4, 6} -> Ok(IF hit THEN <<Back(one)[one]>> ELSE <<>>, keepB(one))
              [] o.b = 5 -> Ok(IF hit THEN <<it[one]>> ELSE <<>>, keepF(one))
              [] OTHER -> Ok(<<>>, keepF(one))
    [] o.op = "zst" ->
         LET m == Min2(o.n, o.b)
             S(n) == <<n, n, n, n, IF n = o.n THEN 1 ELSE 0, IF n = 0 THEN 1 ELSE 0, n>>
             F == IF o.b <= o.n THEN S(o.b) ELSE <<>>
         IN Ok(<<m, m, m, 1, F, S(o.n), F, IF o.b <= o.n THEN <<o.b, 0>> ELSE <<>>, 0>>, regs)

(* What the views of a bounded slice and of an iterator must show.         *)
RECURSIVE Join(_, _)
Join(ws, sep) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o sep \o Join(Tail(ws), sep)
DebugStr(vs) == "[" \o Join([j \in 1..Len(vs) |-> ToString(vs[j])], ", ") \o "]"
B01(x) == IF x THEN 1 ELSE 0

(* What hashing a slice of bytes-like items feeds a hasher: every piece    *)
(* with its length, the slice's own length first.                          *)
HashFeed(vs) == <<8>> \o Rev(Digits(Len(vs), 8)) \o Flat([j \in 1..Len(vs) |-> <<1, vs[j]>>])

(* Comparison: value 254 is not comparable to anything.                    *)
PCmp(x, y) == IF x = 254 \/ y = 254 THEN 9 ELSE IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
TCmp(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
SeqCmp(v, w, C(_, _)) ==
  LET ds == {j \in 1..Min2(Len(v), Len(w)) : C(v[j], w[j]) # 0} IN
  IF ds = {} THEN TCmp(Len(v), Len(w)) ELSE C(v[SetMin(ds)], w[SetMin(ds)])
SeqEq(v, w) == Len(v) = Len(w) /\ \A j \in 1..Len(v) : v[j] = w[j] /\ v[j] # 254
=============================================================================

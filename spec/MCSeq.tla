------------------------------- MODULE MCSeq -------------------------------
(***************************************************************************)
(* All histories over two registers of bounded slices, iterators, vectors  *)
(* and boxed slices within small capacities, with the life of every item.  *)
(* Every transition is printed as a history to replay in the real code     *)
(* (a shortest history to its source state, then the operation).           *)
(***************************************************************************)
EXTENDS OctSeq, TLC, IOUtils, Json

CONSTANTS Caps, MaxLen, Gen
Deep == IOEnv.DEEP = "1"

VARIABLES regs,     \* as in OctSeq
          alive,    \* ids of live items
          lost,     \* ids of items whose destructor never ran
          hist      \* the operations so far (not part of the state)
vars == <<regs, alive, lost, hist>>
(* Which operations there are and what they do to the structure depends    *)
(* only on kinds, capacities and lengths; values are told apart by scripts.*)
View == [j \in 1..2 |-> [k |-> regs[j].k, n |-> regs[j].n, l |-> Len(regs[j].it)]]

Init == regs = [j \in 1..4 |-> Empty] /\ alive = {} /\ lost = {} /\ hist = "Q t"

O(op, a, b, n, d) == [op |-> op, a |-> a, b |-> b, n |-> n, d |-> d, cl |-> TRUE]
Data == {[j \in 1..n |-> j] : n \in 0..MaxLen}
A2 == {0, 1}
Both(a) == 1 - a
Ops ==
  LET K(a) == regs[a + 1].k
      L(a) == Len(regs[a + 1].it)
      E == {a \in A2 : K(a) = "e"}
      S == {a \in A2 : K(a) = "s"}
      I == {a \in A2 : K(a) = "i"}
      VB == {a \in A2 : K(a) \in {"v", "b"}}
      none == <<>>
  IN    {O("new", a, b, n, d) : a \in E, b \in {0, 1, 2, 4}, n \in Caps, d \in Data}
   \cup {O("arr", a, 0, n, [j \in 1..n |-> j]) : a \in E, n \in Caps}
   \cup {O("col", a, b, n, d) : a \in E, b \in {0, 2}, n \in Caps, d \in Data}
   \cup {O("def", a, 0, n, none) : a \in E, n \in Caps}
   \cup UNION {{O("dec", a, 0, n, <<Len(d), 0>> \o d), O("dec", a, 0, n, <<Len(d) + 1, 0>> \o d \o <<255>>), O("dec", a, 0, n, <<Len(d) + 1, 0>> \o d)} : a \in E, n \in Caps, d \in Data}
   \cup {O("cln", a, Both(a), n, none) : a \in {x \in E : K(Both(x)) \in {"s", "i"}}, n \in {0, 2}}
   \cup {O("clf", a, Both(a), 0, none) : a \in {x \in S : Both(x) \in S /\ regs[1].n = regs[2].n}}
   \cup {O(op, a, 0, 0, none) : op \in {"iter", "raw", "eref", "view", "enc", "box", "rev"}, a \in S}
   \cup {O("emut", a, b, 0, none) : b \in {0, 1}, a \in S}
   \cup {O("vec", a, 1, 0, none) : a \in S \cup {x \in VB : K(x) = "b"}}
   \cup {O("cov", a, 0, n, none) : a \in VB, n \in Caps}
   \cup UNION {{O("trn", a, 0, n, none) : n \in 0..L(a)} : a \in S}
   \cup UNION {{O("ext", a, 0, 0, d) : d \in {x \in Data : L(a) + Len(x) <= regs[a + 1].n}} : a \in S}
   \cup {O("idx", a, 0, n, none) : a \in S, n \in 0..MaxLen}
   \cup {O("rng", a, b, n, <<m>>) : a \in S, b \in {0, 1}, n \in 0..MaxLen, m \in 0..MaxLen}
   \cup {O("seti", a, 0, n, <<1>>) : a \in S, n \in 0..MaxLen}
   \cup {O("cmp", a, b, 0, none) : a \in S, b \in S}
   \cup {O(op, a, 0, 0, none) : op \in {"nxt", "bck", "ivw", "lst", "cnt", "rev"}, a \in I}
   \cup {O("cll", a, b, 0, none) : b \in 0..8, a \in I}
   \cup {O("prt", a, b, n, none) : b \in 0..8, n \in 0..MaxLen, a \in I}
   \cup {O("icol", a, 0, n, none) : a \in I, n \in Caps}
   \cup {O("drop", a, 0, 0, none) : a \in A2 \ E}

RECURSIVE Words(_)
Words(s) == IF s = <<>> THEN "" ELSE " " \o ToString(Head(s)) \o Words(Tail(s))
Line(o) == o.op \o " " \o ToString(o.a) \o " " \o ToString(o.b) \o " " \o ToString(o.n) \o " |" \o Words(o.d)

(* Items that come to life get the smallest names that are free.           *)
Names(s) == {x[1] : x \in s} \ {0}
Do(o) ==
  LET s == Step(regs, o)
      used == UNION {Ids(regs[j].it) : j \in 1..2}
      base == IF used = {} THEN 0 ELSE SetMax(used)
      Name(j, it) == [m \in 1..Len(it) |-> IF it[m][1] = 0 THEN <<base + m, it[m][2]>> ELSE it[m]]
      nregs == [j \in 1..4 |-> Con(s.regs[j].k, s.regs[j].n, IF j = o.a + 1 THEN Name(j, s.regs[j].it) ELSE s.regs[j].it)]
      own == UNION {Ids(nregs[j].it) : j \in 1..4}
      gone == alive \ own
  IN /\ regs' = nregs
     /\ alive' = own
     /\ lost' = gone \cap s.leak
     /\ hist' = hist \o ";" \o Line(o)
     /\ (Gen => PrintT("@@S " \o hist'))

Next == \E o \in {x \in Ops : Deep \/ x.a = 0 \/ x.op \in {"drop", "arr", "iter", "nxt", "bck", "cmp", "cln", "clf"}} : Do(o)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Bounded == \A j \in 1..2 : regs[j].k \in {"s", "i"} => Len(regs[j].it) <= regs[j].n
OnePlace == \A i, j \in 1..2 : \A m \in 1..Len(regs[i].it), n \in 1..Len(regs[j].it) :
              regs[i].it[m][1] = regs[j].it[n][1] => i = j /\ m = n
Living == \A j \in 1..2 : Ids(regs[j].it) \subseteq alive
(* No step changes a register it is not about, loses or reorders items.    *)
Frame == [][\A j \in 1..2 : regs[j] # regs'[j] => \A m \in 1..2 : m # j => regs'[m] = regs[m]]_vars
Fifo == [][\A j \in 1..2 : regs[j].k = "i" /\ regs'[j].k = "i" /\ regs'[j] # regs[j] =>
             \/ \E k \in 1..Len(regs[j].it) : \/ regs'[j].it = SubSeq(regs[j].it, k + 1, Len(regs[j].it))
                                             \/ regs'[j].it = SubSeq(regs[j].it, 1, Len(regs[j].it) - k)
             \/ regs'[j].it = Rev(regs[j].it)]_vars
OnlyDiscardLoses == [][lost' # {} => \E j \in 1..2 : regs[j].k \in {"s", "i"} /\ regs[j] # regs'[j]]_vars
=============================================================================

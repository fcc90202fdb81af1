----------------------------- MODULE OctCells -----------------------------
(***************************************************************************)
(* Values behind locks, reference cells, cells and lazy initialisers, with *)
(* one encoder, one other writer and other readers.  The value has two     *)
(* parts; its encoding stops before each of them (at "enter" and "mid"),   *)
(* so that the other steps happen in between.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Exclusive == {"mutex", "arcmutex", "dynmutex"}
Sharing == {"rwlock", "boxrwlock"}
Locks == Exclusive \cup Sharing
Borrow == {"refcell"}
Plain == {"cell"}
Lazy == {"lazylock", "lazylock1", "lazycell"}
Kinds == Locks \cup Borrow \cup Plain \cup Lazy

\* w: a writer holds it; rd: how many others read it; enc: where the encoder is;
\* held: the values since the encoder got in; lz: the initialiser's state.
Fresh(kind, v, ip) ==
  [kind |-> kind, v |-> v, ip |-> ip, w |-> FALSE, rd |-> 0, enc |-> "idle", mode |-> 0, held |-> {},
   lz |-> IF kind \in Lazy THEN "new" ELSE "done"]

Inside(s) == s.enc \in {"enter", "mid"}
CanWrite(s) == ~s.w /\ s.rd = 0 /\ ~Inside(s)
CanRead(s) == ~s.w /\ ~(s.kind \in Exclusive /\ Inside(s))

\* What a step may do: result, bytes, error path and error, and the next state.
Res(s, x) == {[s |-> s, x |-> x, b |-> <<>>, p |-> <<>>, k |-> "none"]}
Enter(s) == [s EXCEPT !.enc = "enter", !.held = {s.v}]
Start(s, mode) ==
  LET t == [s EXCEPT !.mode = mode] IN
  IF s.kind \in Lazy /\ (s.lz = "bad" \/ (s.lz = "new" /\ s.ip = 1)) THEN Res([t EXCEPT !.lz = "bad"], "panic")
  ELSE IF s.kind \in Lazy THEN Res(Enter([t EXCEPT !.lz = "done"]), "enter")
  ELSE IF s.kind \in Borrow /\ s.w
       THEN {[s |-> t, x |-> "err", b |-> <<>>, p |-> <<-5>>, k |-> "borrow"]}
  ELSE IF s.kind \in Locks /\ s.w THEN Res([t EXCEPT !.enc = "wait"], "wait")
  ELSE Res(Enter(t), "enter")
Finish(s) ==
  LET t == [s EXCEPT !.enc = "idle", !.held = {}] IN
  CASE s.mode = 0 -> {[s |-> t, x |-> "ok", b |-> h, p |-> <<>>, k |-> "none"] : h \in s.held}
    [] s.mode = 1 -> {[s |-> t, x |-> "err", b |-> SubSeq(h, 1, 1), p |-> IF s.kind \in Borrow THEN <<-4>> ELSE <<>>, k |-> "item"] : h \in s.held}
    [] OTHER -> Res(t, "panic")
Go(s) == IF s.enc = "enter" THEN Res([s EXCEPT !.enc = "mid"], "mid") ELSE Finish(s)
Release(s) ==
  IF s.enc = "wait" THEN Res(Enter([s EXCEPT !.w = FALSE]), "enter") ELSE Res([s EXCEPT !.w = FALSE], "ok")
Put(s, k, x) ==
  LET v == [s.v EXCEPT ![k + 1] = x]
  IN Res([s EXCEPT !.v = v, !.held = IF Inside(s) THEN @ \cup {v} ELSE @], "ok")
Force(s) ==
  IF s.lz = "bad" \/ (s.lz = "new" /\ s.ip = 1) THEN Res([s EXCEPT !.lz = "bad"], "panic")
  ELSE Res([s EXCEPT !.lz = "done"], "ok")

Outcomes(s, op, n) ==
  CASE op = "wlock" -> IF CanWrite(s) THEN Res([s EXCEPT !.w = TRUE], "got") ELSE Res(s, "held")
    [] op = "rlock" -> IF CanRead(s) THEN Res([s EXCEPT !.rd = @ + 1], "got") ELSE Res(s, "held")
    [] op = "runlock" -> Res([s EXCEPT !.rd = @ - 1], "ok")
    [] op = "wset" -> Put(s, n[1], n[2])
    [] op \in {"wunlock", "wpanic"} -> Release(s)
    [] op = "force" -> Force(s)
    [] op = "start" -> Start(s, n[1])
    [] op = "go" -> Go(s)

\* Whether a step is possible at all, and does not block whoever takes it.
Enabled(s, op) ==
  CASE op = "wlock" -> s.kind \in Locks \cup Borrow /\ ~s.w /\ s.enc # "wait"
    [] op = "rlock" -> s.kind \in Sharing \cup Borrow
    [] op = "runlock" -> s.rd > 0
    [] op = "wset" -> s.w \/ s.kind \in Plain
    [] op \in {"wunlock", "wpanic"} -> s.w
    [] op = "force" -> s.kind \in Lazy /\ s.enc = "idle"
    [] op = "start" -> s.enc = "idle"
    [] op = "go" -> Inside(s)

\* What others find after a step: whether a writer, a reader could get in (-1: not asked).
Probe(s) ==
  IF s.kind \notin Locks \cup Borrow \/ s.w \/ s.enc = "wait" THEN <<-1, -1>>
  ELSE <<IF CanWrite(s) THEN 1 ELSE 0, IF s.kind \in Exclusive THEN -1 ELSE IF CanRead(s) THEN 1 ELSE 0>>
Inits(s) == IF s.kind \in Lazy /\ s.lz # "new" THEN 1 ELSE 0
=============================================================================

------------------------------ MODULE MCCells ------------------------------
(***************************************************************************)
(* All interleavings of an encoder with writers and readers of the same    *)
(* value, up to a number of steps; each is printed to be replayed.         *)
(***************************************************************************)
EXTENDS OctCells, OctBytes, TLC, IOUtils

Deep == IOEnv.DEEP = "1"
Depth == IF Deep THEN 9 ELSE 8
Recent == IF Deep THEN 4 ELSE 3   \* histories are told apart by their latest steps
VARIABLES s, hist, recent, len, last
vars == <<s, hist, recent, len, last>>
View == <<s, recent, last>>

RECURSIVE Words(_)
Words(x) == IF x = <<>> THEN "" ELSE " " \o ToString(Head(x)) \o Words(Tail(x))
None == [x |-> "none", b |-> <<>>, from |-> <<0, 0>>, op |-> "none"]
Init == \E kind \in Kinds, ip \in {0, 1} :
  /\ (ip = 1 => kind \in Lazy)
  /\ s = Fresh(kind, <<1, 2>>, ip)
  /\ hist = kind \o " 1 2 " \o ToString(ip) /\ recent = <<>> /\ len = 0 /\ last = None
Do(op, n) ==
  /\ Enabled(s, op)
  /\ \E o \in Outcomes(s, op, n) :
       /\ s' = o.s
       /\ last' = [x |-> o.x, b |-> o.b, from |-> s.v, op |-> op]
  /\ len' = len + 1
  /\ hist' = hist \o ";" \o op \o Words(n)
  /\ recent' = LET r == Append(recent, <<op, n>>) IN IF Len(r) > Recent THEN Tail(r) ELSE r
  /\ PrintT("@@S " \o hist')
Next ==
  /\ len < Depth
  /\ \/ \E op \in {"wlock", "wunlock", "wpanic", "rlock", "runlock", "force", "go"} : (op = "rlock" => s.rd < 2) /\ Do(op, <<>>)
     \/ \E k \in {0, 1}, x \in {7, 8} : Do("wset", <<k, x>>)
     \/ \E m \in 0..2 : Do("start", <<m>>)
Spec == Init /\ [][Next]_vars

(* A writer and the encoder never have access at once; nor writer and readers. *)
Apart == s.kind \in Locks \cup Borrow => (s.w => ~Inside(s) /\ s.rd = 0)
(* Behind a lock the value stands still from the encoder's entry on.       *)
Still == s.kind \in Locks \cup Borrow \cup Lazy /\ Inside(s) => s.held = {s.v}
(* A finished encoding is of a value held during the call.                 *)
Whole == last.x = "ok" /\ last.op \in {"start", "go"} => Len(last.b) = 2
(* Whoever waits, waits for a writer; when the writer leaves, it gets in.  *)
Waits == s.enc = "wait" => s.kind \in Locks /\ s.w
(* After the call access is free again unless others have it.              *)
Back == s.enc = "idle" /\ ~s.w /\ s.rd = 0 /\ s.kind \in Locks \cup Borrow => CanWrite(s)
Once == Inits(s) \in {0, 1} /\ (Inside(s) /\ s.kind \in Lazy => Inits(s) = 1)
=============================================================================

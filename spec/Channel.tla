------------------------------ MODULE Channel ------------------------------
(* Process networks: channels (heads) into which users send, function       *)
(* processes, await/yield processes, merges.  A node's `out` is the stream  *)
(* it has emitted; a child reads it at `pos`.  The stream of a head is the  *)
(* linearization of the sends, fixed only as far as some child has read it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  cfg,    \* node -> [k, in, bs, ex, v, to, dl]    (bs: effective, 0 = no limit)
  made,   \* nodes attached
  out,    \* node -> items emitted; a negative one is an error
  pend,   \* head -> sends not yet part of `out`: [i, v, pred, done]
  pos,    \* node -> sequence: how many items of each input it has consumed
  op,     \* node -> invocation in progress: "idle", "call", "await", "yield", "close", "error"
  ys,     \* node -> what state() reports: 0 await, 1 yield, 2 await with a time-out
  yt,     \* node -> since when
  closed, \* node -> was close called for the end of its input?
  failed, \* nodes closed by an error
  turn,   \* node -> input a round-robin merge takes from next
  rs,     \* receiver slot -> [n, st]   "live", "ready", "gone"
  ss,     \* sender slot -> [h, st]     "open", "closed", "none"
  dead    \* nodes whose process has been destroyed
vars == <<cfg, made, out, pend, pos, op, ys, yt, closed, failed, turn, rs, ss, dead>>

Nodes == DOMAIN cfg
Kind(n) == cfg[n].k
IsHead(n) == Kind(n) = "head"
HasState(n) == Kind(n) \in {"ay", "ayc", "aye", "zipay", "gen"}
IsMerge1(n) == Kind(n) \in {"rr", "un"}
HasClose(n) == Kind(n) \in {"ayc", "aye", "zipay"}
NIn(n) == Len(cfg[n].in)
Kids(n) == {m \in made : \E i \in 1..NIn(m) : cfg[m].in[i] = n}
Inputs(m, n) == {i \in 1..NIn(m) : cfg[m].in[i] = n}
RECURSIVE Exec(_)
Exec(n) == IF cfg[n].ex # 0 THEN cfg[n].ex ELSE Exec(cfg[n].in[1])
NoOut(n) == Kind(n) = "sink" \/ cfg[n].v = 1          \* its result is void: it never waits to be made ready

Init ==
  /\ cfg = <<>> /\ made = {} /\ out = <<>> /\ pend = <<>> /\ pos = <<>> /\ op = <<>> /\ ys = <<>>
  /\ yt = <<>> /\ closed = {} /\ failed = {} /\ turn = <<>> /\ rs = <<>> /\ ss = <<>> /\ dead = {}

Network(nodes) ==
  LET D == {nodes[i].n : i \in 1..Len(nodes)}
      R(n) == nodes[CHOOSE i \in 1..Len(nodes) : nodes[i].n = n] IN
  /\ cfg' = [n \in D |-> [k |-> R(n).k, in |-> R(n).in, bs |-> IF R(n).bs = -1 THEN 1 ELSE R(n).bs,
                          ex |-> R(n).ex, v |-> R(n).v, to |-> R(n).to, dl |-> R(n).dl, ref |-> R(n).ref]]
  /\ out' = [n \in D |-> <<>>]
  /\ pend' = [n \in D |-> {}]
  /\ pos' = [n \in D |-> [i \in 1..Len(R(n).in) |-> 0]]
  /\ op' = [n \in D |-> "idle"]
  /\ ys' = [n \in D |-> IF R(n).k = "gen" /\ R(n).c > 0 THEN 1 ELSE 0]
  /\ yt' = [n \in D |-> 0]
  /\ turn' = [n \in D |-> 1]
  /\ UNCHANGED <<made, closed, failed, rs, ss, dead>>

Make(n, w) ==
  /\ n \in Nodes \ made
  /\ made' = made \cup {n}
  /\ rs' = (n :> [n |-> n, st |-> "live"]) @@ rs
  /\ ss' = IF IsHead(n) THEN (n :> [h |-> n, st |-> "open"]) @@ ss ELSE ss
  /\ yt' = [yt EXCEPT ![n] = w]
  /\ UNCHANGED <<cfg, out, pend, pos, op, ys, closed, failed, turn, dead>>

------------------------------------------------------------------------------
\* what the ends do
Handles(n) == {r \in DOMAIN rs : rs[r].n = n /\ rs[r].st # "gone"}
Started(n) == NoOut(n) \/ \A r \in Handles(n) : rs[r].st = "ready"
OpenSenders(h) == {s \in DOMAIN ss : ss[s].h = h /\ ss[s].st = "open"}
\* nothing keeps the process: neither a handle nor a process below it
\* (nodes are numbered from the sources on)
RECURSIVE ReleasedFrom(_)
ReleasedFrom(n) ==
  IF n > Cardinality(Nodes) THEN {}
  ELSE LET S == ReleasedFrom(n + 1) IN
       IF Handles(n) = {} /\ Kids(n) \subseteq S THEN S \cup {n} ELSE S
Released(n) == n \in ReleasedFrom(n)

SlotReady(r) == /\ rs' = [rs EXCEPT ![r].st = IF @ = "live" THEN "ready" ELSE @]
                /\ UNCHANGED <<cfg, made, out, pend, pos, op, ys, yt, closed, failed, turn, ss, dead>>
SlotDrop(r) == /\ rs' = [rs EXCEPT ![r].st = "gone"]
               /\ UNCHANGED <<cfg, made, out, pend, pos, op, ys, yt, closed, failed, turn, ss, dead>>
SlotCopy(r, d) == /\ r \in DOMAIN rs /\ rs' = (d :> rs[r]) @@ rs
                  /\ UNCHANGED <<cfg, made, out, pend, pos, op, ys, yt, closed, failed, turn, ss, dead>>
SlotMove(r, d) == /\ r \in DOMAIN rs /\ rs' = (r :> [rs[r] EXCEPT !.st = "gone"]) @@ (d :> rs[r]) @@ rs
                  /\ UNCHANGED <<cfg, made, out, pend, pos, op, ys, yt, closed, failed, turn, ss, dead>>
SenderCopy(s, d) == /\ ss' = (d :> ss[s]) @@ ss
                    /\ UNCHANGED <<cfg, made, out, pend, pos, op, ys, yt, closed, failed, turn, rs, dead>>
SenderMove(s, d) == /\ ss' = (s :> [ss[s] EXCEPT !.st = "none"]) @@ (d :> ss[s]) @@ ss
                    /\ UNCHANGED <<cfg, made, out, pend, pos, op, ys, yt, closed, failed, turn, rs, dead>>
SenderClose(s) == /\ ss' = [ss EXCEPT ![s].st = "closed"]
                  /\ UNCHANGED <<cfg, made, out, pend, pos, op, ys, yt, closed, failed, turn, rs, dead>>

\* everything goes, except the senders in K
Stop(K) == /\ rs' = [r \in DOMAIN rs |-> [rs[r] EXCEPT !.st = "gone"]]
        /\ ss' = [s \in DOMAIN ss |-> IF s \in K THEN ss[s] ELSE [ss[s] EXCEPT !.st = "closed"]]
        /\ UNCHANGED <<cfg, made, out, pend, pos, op, ys, yt, closed, failed, turn, dead>>
HeadGone(h) == Released(h)
Send(s, h, i, v) ==
  /\ pend' = IF ss[s].st = "open"
             THEN [pend EXCEPT ![h] = @ \cup {[i |-> i, v |-> v, pred |-> {x.i : x \in {y \in @ : y.done}}, done |-> FALSE]}]
             ELSE pend                                             \* no effect
  /\ UNCHANGED <<cfg, made, out, pos, op, ys, yt, closed, failed, turn, rs, ss, dead>>
SendEnd(h, i) ==
  /\ pend' = [pend EXCEPT ![h] = {IF x.i = i THEN [x EXCEPT !.done = TRUE] ELSE x : x \in @}]
  /\ UNCHANGED <<cfg, made, out, pos, op, ys, yt, closed, failed, turn, rs, ss, dead>>

------------------------------------------------------------------------------
\* streams
Ids(h) == {x.i : x \in pend[h]}
Nexts(h) == {x \in pend[h] : x.pred \cap Ids(h) = {}}              \* sends that may be the next of the stream
HasNext(n, i) == pos[n][i] < Len(out[cfg[n].in[i]])
Peek(n, i) == out[cfg[n].in[i]][pos[n][i] + 1]
\* the inputs a node takes a message from, and that message
TakesFrom(n) == IF Kind(n) = "un" THEN {{i} : i \in 1..NIn(n)}
                ELSE IF Kind(n) = "rr" THEN {{turn[n]}}
                ELSE {1..NIn(n)}
\* message a (one value per input of I, in order) is there for node n: fixes the stream of heads as far as needed
Ord(I) == LET RECURSIVE F(_)
              F(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o F(S \ {m})
          IN F(I)
\* TRUE if item v can be what node n reads next at input i
CanRead(n, i, v) ==
  LET u == cfg[n].in[i] IN
  IF HasNext(n, i) THEN Peek(n, i) = v
  ELSE IsHead(u) /\ u \notin failed /\ Started(u) /\ (\E x \in Nexts(u) : x.v = v)
\* what can be read from input i, from the inputs I
Heads(n, i) == LET u == cfg[n].in[i] IN
  IF HasNext(n, i) THEN {Peek(n, i)}
  ELSE IF IsHead(u) /\ u \notin failed /\ Started(u) THEN {x.v : x \in Nexts(u)} ELSE {}
Messages(n, I) == LET o == Ord(I) IN
  IF Len(o) = 1 THEN {<<v>> : v \in Heads(n, o[1])}
  ELSE IF Len(o) = 2 THEN {<<v, w>> : v \in Heads(n, o[1]), w \in Heads(n, o[2])}
  ELSE {<<v, w, x>> : v \in Heads(n, o[1]), w \in Heads(n, o[2]), x \in Heads(n, o[3])}
HasError(a) == \E j \in 1..Len(a) : a[j] < 0
\* heads whose stream must be extended for it
Extends(n, I, a) ==
  LET o == Ord(I) IN
  {<<cfg[n].in[o[j]], a[j]>> : j \in {j \in 1..Len(o) : ~HasNext(n, o[j])}}
Read(n, I, a) ==
  LET o == Ord(I)
      X == Extends(n, I, a)
      V(h) == CHOOSE v \in {x[2] : x \in {y \in X : y[1] = h}} : TRUE IN
  /\ Len(a) = Len(o)
  /\ \A j \in 1..Len(o) : CanRead(n, o[j], a[j])
  /\ \A x, y \in X : x[1] = y[1] => x = y
  /\ out' = [h \in Nodes |-> IF \E x \in X : x[1] = h THEN Append(out[h], V(h)) ELSE out[h]]
  /\ pend' = [h \in Nodes |-> IF \E x \in X : x[1] = h THEN {p \in pend[h] : p.v # V(h)} ELSE pend[h]]
  /\ pos' = [pos EXCEPT ![n] = [i \in 1..NIn(n) |-> IF i \in I THEN @[i] + 1 ELSE @[i]]]
  /\ turn' = [turn EXCEPT ![n] = IF @ = NIn(n) THEN 1 ELSE @ + 1]

\* back-pressure: how much of what n has emitted a child has not begun to handle
Unread(n, m) == LET I == Inputs(m, n) IN
  IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : \A j \in I : pos[m][i] <= pos[m][j] IN Len(out[n]) - pos[m][i]
LiveKids(n) == {m \in Kids(n) : m \notin dead /\ m \notin failed /\ ~Released(m)}
\* every live process below has room for one more, k more than what n has emitted being there already; a started
\* process may have taken one message that it has not begun to handle (w = 1), unless all is at rest (w = 0)
Space(n, k, w) == \A m \in LiveKids(n) :
   cfg[m].bs > 0 => Unread(n, m) + k <= cfg[m].bs - 1 + (IF Started(m) THEN w ELSE 0)
Room(n) == Space(n, 0, 1)

------------------------------------------------------------------------------
\* the ends of streams
Inputless(n, S) == \* nothing more will come, S being the nodes that have passed on their close, and what has come is handled
  /\ \A i \in 1..NIn(n) : cfg[n].in[i] \in S
  /\ LET E(i) == ~HasNext(n, i) /\ (IsHead(cfg[n].in[i]) => cfg[n].in[i] \in failed \/ pend[cfg[n].in[i]] = {}) IN
     IF Kind(n) = "un" THEN \A i \in 1..NIn(n) : E(i)
     ELSE IF Kind(n) = "rr" THEN E(turn[n])
     ELSE \E i \in 1..NIn(n) : E(i)
\* the nodes up to n that have passed on their close (w as for Space)
RECURSIVE EndedUpTo(_, _)
EndedUpTo(n, w) ==
  IF n = 0 THEN {}
  ELSE LET S == EndedUpTo(n - 1, w) IN
       IF IF IsHead(n) THEN n \in failed \/ (OpenSenders(n) = {} /\ Started(n) /\ Space(n, Cardinality(pend[n]), w))
          ELSE IF Kind(n) = "gen" THEN FALSE
          ELSE n \in failed \/
               (op[n] = "idle" /\ Started(n) /\ Inputless(n, S) /\ (HasClose(n) => n \in closed) /\ ys[n] # 1 /\ Space(n, 0, w))
       THEN S \cup {n} ELSE S
Ended(n, w) == n \in EndedUpTo(n, w)
Exhausted(n, w) == Inputless(n, EndedUpTo(n - 1, w))

Idle(n) == n \in made /\ n \notin dead /\ op[n] = "idle"
Frame == UNCHANGED <<cfg, made, rs, ss, dead>>

CallBegin(n, a, x) ==
  /\ Idle(n) /\ ~HasState(n) /\ n \notin failed
  /\ Started(n) /\ x = Exec(n)
  /\ Room(n)
  /\ \A j \in 1..Len(a) : a[j] > 0
  /\ \E I \in TakesFrom(n) : Read(n, I, a)
  /\ op' = [op EXCEPT ![n] = "call"]
  /\ Frame /\ UNCHANGED <<ys, yt, closed, failed>>
Emit(n, v) == out' = [out EXCEPT ![n] = IF v = 0 THEN @ ELSE Append(@, v)]
CallEnd(n, v) ==
  /\ op[n] = "call" /\ op' = [op EXCEPT ![n] = "idle"]
  /\ v = 0 => NoOut(n)
  /\ Emit(n, v)
  /\ Frame /\ UNCHANGED <<pend, pos, ys, yt, closed, failed, turn>>
AwaitBegin(n, a, x) ==
  /\ Idle(n) /\ HasState(n) /\ Started(n) /\ x = Exec(n)
  /\ n \notin closed /\ ys[n] # 1                                   \* it awaits
  /\ \A j \in 1..Len(a) : a[j] > 0
  /\ \E I \in TakesFrom(n) : Read(n, I, a)
  /\ op' = [op EXCEPT ![n] = "await"]
  /\ Frame /\ UNCHANGED <<ys, yt, closed, failed>>
AwaitEnd(n, v, s, w) ==
  /\ op[n] = "await" /\ op' = [op EXCEPT ![n] = "idle"]
  /\ Emit(n, v)
  /\ ys' = [ys EXCEPT ![n] = s] /\ yt' = [yt EXCEPT ![n] = w]
  /\ Frame /\ UNCHANGED <<pend, pos, closed, failed, turn>>
YieldBegin(n, x, w) ==
  /\ Idle(n) /\ HasState(n) /\ Started(n) /\ x = Exec(n)
  /\ \/ ys[n] = 1 /\ w >= yt[n] + cfg[n].dl
     \/ ys[n] = 2 /\ w >= yt[n] + cfg[n].to                         \* its time has passed without input
  /\ Room(n)
  /\ op' = [op EXCEPT ![n] = "yield"]
  /\ Frame /\ UNCHANGED <<out, pend, pos, ys, yt, closed, failed, turn>>
YieldEnd(n, v, s, w) ==
  /\ op[n] = "yield" /\ op' = [op EXCEPT ![n] = "idle"]
  /\ v # 0 /\ Emit(n, v)
  /\ ys' = [ys EXCEPT ![n] = s] /\ yt' = [yt EXCEPT ![n] = w]
  /\ Frame /\ UNCHANGED <<pend, pos, closed, failed, turn>>
\* close: nothing more will come, or an error has
CloseBegin(n, x) ==
  /\ Idle(n) /\ HasClose(n) /\ Started(n) /\ x = Exec(n)
  /\ n \notin closed /\ ys[n] # 1
  /\ op' = [op EXCEPT ![n] = "close"]
  /\ \/ Exhausted(n, 1) /\ closed' = closed \cup {n} /\ UNCHANGED <<out, pend, pos, turn>>
     \/ Kind(n) = "ayc" /\ HasNext(n, 1) /\ Peek(n, 1) < 0 /\ Read(n, {1}, <<Peek(n, 1)>>) /\ UNCHANGED closed
     \/ Kind(n) = "zipay" /\ (\E a \in Messages(n, 1..NIn(n)) : HasError(a) /\ Read(n, 1..NIn(n), a)) /\ UNCHANGED closed
  /\ Frame /\ UNCHANGED <<ys, yt, failed>>
CloseEnd(n, s, w) ==
  /\ op[n] = "close" /\ op' = [op EXCEPT ![n] = "idle"]
  /\ ys' = [ys EXCEPT ![n] = s] /\ yt' = [yt EXCEPT ![n] = w]
  /\ Frame /\ UNCHANGED <<out, pend, pos, closed, failed, turn>>
ErrorBegin(n, v, x) ==
  /\ Idle(n) /\ Kind(n) = "aye" /\ Started(n) /\ x = Exec(n) /\ v < 0
  /\ n \notin closed /\ ys[n] # 1
  /\ Read(n, {1}, <<v>>)
  /\ op' = [op EXCEPT ![n] = "error"]
  /\ Frame /\ UNCHANGED <<ys, yt, closed, failed>>
ErrorEnd(n, s, w) ==
  /\ op[n] = "error" /\ op' = [op EXCEPT ![n] = "idle"]
  /\ ys' = [ys EXCEPT ![n] = s] /\ yt' = [yt EXCEPT ![n] = w]
  /\ Frame /\ UNCHANGED <<out, pend, pos, closed, failed, turn>>
Destroy(n) ==
  /\ Idle(n)
  /\ Ended(n, 1) \/ Released(n)
  /\ dead' = dead \cup {n}
  /\ UNCHANGED <<cfg, made, out, pend, pos, op, ys, yt, closed, failed, turn, rs, ss>>

\* internal: an error closes a function process, or a head
Fail(n) ==
  /\ n \in made \ failed /\ n \notin dead /\ op[n] = "idle"
  /\ Started(n)
  /\ failed' = failed \cup {n}
  /\ \/ IsHead(n) /\ (\E x \in Nexts(n) : x.v < 0) /\ pend' = [pend EXCEPT ![n] = {}] /\ UNCHANGED <<out, pos, turn>>
     \/ /\ ~IsHead(n) /\ ~HasState(n) /\ Kind(n) # "fp"
        /\ \E I \in TakesFrom(n) : \E a \in Messages(n, I) : HasError(a)
        /\ UNCHANGED <<out, pend, pos, turn>>
  /\ Frame /\ UNCHANGED <<op, ys, yt, closed>>
\* internal: an await process with neither set_error nor close has nobody to tell
Skip(n) ==
  /\ Idle(n) /\ Kind(n) \in {"ay", "fp"} /\ Started(n) /\ ys[n] # 1
  /\ HasNext(n, 1) /\ Peek(n, 1) < 0
  /\ Read(n, {1}, <<Peek(n, 1)>>)
  /\ Frame /\ UNCHANGED <<op, ys, yt, closed, failed>>
\* a process the network has only a reference to is let go unseen
Internal == \E n \in made : Fail(n) \/ Skip(n) \/ (cfg[n].ref = 1 /\ Destroy(n))

------------------------------------------------------------------------------
\* nothing can move any more, and nothing that should have is left
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* how many of its pending sends a head has passed on to the buffers below it
Passed(h) == IF ~Started(h) \/ h \in failed THEN 0
             ELSE Min({Cardinality(pend[h])} \cup {cfg[m].bs - Unread(h, m) : m \in {x \in LiveKids(h) : cfg[x].bs > 0}})
Avail(n, i) == LET u == cfg[n].in[i] IN HasNext(n, i) \/ (IsHead(u) /\ pos[n][i] < Len(out[u]) + Passed(u))
Ready(n) == \E I \in TakesFrom(n) : \A i \in I : Avail(n, i)
Quiet(n) ==
  n \in dead \/
  /\ op[n] = "idle"
  /\ Released(n) => IsHead(n)
  /\ n \in failed => IsHead(n)
  /\ (~IsHead(n) /\ Started(n) /\ Space(n, 0, 0)) =>
       IF Kind(n) = "gen" THEN ys[n] # 1
       ELSE ys[n] = 0 /\ ~Ready(n) /\ (HasClose(n) /\ Exhausted(n, 0) => n \in closed) /\ ~Ended(n, 0)
Settled == \A n \in made : Quiet(n)
\* no value is on its way
Nothing == \A n \in made : pend[n] = {} /\ \A m \in LiveKids(n) : \A i \in Inputs(m, n) : pos[m][i] = Len(out[n])
Keeps == \E n \in made : Kind(n) = "fp"      \* function_process keeps its last argument

Misuse(r, c) ==
  /\ c = (CASE rs[r].st = "gone" -> 1 [] rs[r].st = "ready" -> 2 [] OTHER -> 0)
  /\ UNCHANGED vars
\* free_buffer of the head a sender leads to; exact (q = 1) when all is at rest
FreeBuffer(s, c, q) ==
  /\ IF ss[s].st # "open" THEN c = -1
     ELSE LET h == ss[s].h IN
          IF h \in failed THEN IF q = 1 THEN c = -1 ELSE c \in {-1, 0, 1}                                   \* anything can be sent there
          ELSE IF \E x \in pend[h] : x.v < 0 THEN c \in {-1, 0, 1}
          ELSE /\ c \in {-1, 0, 1}
               /\ c = -1 => Released(h)
               /\ q = 1 /\ ~Released(h) => c = IF Passed(h) = Cardinality(pend[h]) THEN 1 ELSE 0
  /\ UNCHANGED vars
TypeOK == \A n \in Nodes : \A i \in 1..NIn(n) : pos[n][i] <= Len(out[cfg[n].in[i]])
=============================================================================

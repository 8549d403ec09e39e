------------------------------ MODULE Progress ------------------------------
(* progress_tracker: functions wrapped by a tracker are counted as long as  *)
(* they exist, and once more for each time they have been called.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  srv,    \* tracker -> [total, done, held (by how many tracker objects), cb (has it a callback?)]
  fn,     \* slot -> [id, k]  the function in it, and the tracker that counts it (-1 none)
  th      \* thread -> stack of what it is doing
vars == <<srv, fn, th>>
Slots == 0..7

Init == srv = <<>> /\ fn = [s \in Slots |-> <<>>] /\ th = <<>>
Stack(t) == IF t \in DOMAIN th THEN th[t] ELSE <<>>
Top(t) == LET f == Stack(t) IN IF f = <<>> THEN [op |-> "none"] ELSE f[Len(f)]
Push(t, x) == th' = (t :> Append(Stack(t), x)) @@ th
Pop(t) == th' = (t :> SubSeq(Stack(t), 1, Len(Stack(t)) - 1)) @@ th
SetTop(t, x) == th' = [th EXCEPT ![t][Len(th[t])] = x]
Alive(k) == k \in DOMAIN srv /\ (srv[k].held > 0 \/ \E t \in DOMAIN th: \E i \in 1..Len(th[t]): th[t][i].op = "call" /\ th[t][i].ph \in {"locked", "counted"} /\ th[t][i].k = k)

\* trackers: a new one, a copy of one, one object less
Tracker(k, cb) == k \notin DOMAIN srv /\ srv' = (k :> [total |-> 0, done |-> 0, held |-> 1, cb |-> cb]) @@ srv /\ UNCHANGED <<fn, th>>
Hold(k, d) == k \in DOMAIN srv /\ srv[k].held > 0 /\ srv' = [srv EXCEPT ![k].held = @ + d] /\ UNCHANGED <<fn, th>>

\* an operation begins, takes effect (internal: one function more, one less, in either order), and ends
Begin(t, o) == Push(t, [op |-> "edit", o |-> o, st |-> "begun", more |-> -1, less |-> -1]) /\ UNCHANGED <<srv, fn>>
Has(s) == fn[s] # <<>>
K(s) == IF Has(s) /\ fn[s].k \in DOMAIN srv /\ srv[fn[s].k].held > 0 THEN fn[s].k ELSE -1
Gone(x) == IF x = <<>> THEN x ELSE [x EXCEPT !.k = -1, !.id = 0]   \* moved from
\* wrap (slot, id, tracker), copy, move (another slot), drop
Effect(t) ==
  /\ Top(t).op = "edit" /\ Top(t).st = "begun"
  /\ LET o == Top(t).o
         Go(m, d) == SetTop(t, [Top(t) EXCEPT !.st = "done", !.more = m, !.less = d])
     IN CASE o.o = "wrap" -> fn' = [fn EXCEPT ![o.s] = [id |-> o.id, k |-> o.tr]] /\ Go(o.tr, K(o.s))
          [] o.o = "copy" -> fn' = [fn EXCEPT ![o.s] = fn[o.f]] /\ Go(K(o.f), K(o.s))
          [] o.o = "move" -> fn' = [fn EXCEPT ![o.s] = fn[o.f], ![o.f] = Gone(fn[o.f])] /\ Go(-1, K(o.s))
          [] o.o = "drop" -> fn' = [fn EXCEPT ![o.s] = <<>>] /\ Go(-1, K(o.s))
  /\ UNCHANGED srv
Bump(k, d) == srv' = [srv EXCEPT ![k].total = @ + d]
Tally(t) ==
  /\ Top(t).op = "edit" /\ Top(t).st = "done" /\ UNCHANGED fn
  /\ \/ Top(t).more >= 0 /\ Bump(Top(t).more, 1) /\ SetTop(t, [Top(t) EXCEPT !.more = -1])
     \/ Top(t).less >= 0 /\ Bump(Top(t).less, -1) /\ SetTop(t, [Top(t) EXCEPT !.less = -1])
End(t) == Top(t).op = "edit" /\ Top(t).st = "done" /\ Top(t).more < 0 /\ Top(t).less < 0 /\ Pop(t) /\ UNCHANGED <<srv, fn>>

\* a call: the function runs; if it returns it is counted, and the callback is told
Call(t, s) == Has(s) /\ Push(t, [op |-> "call", s |-> s, id |-> fn[s].id, k |-> fn[s].k, ph |-> "begun", arg |-> 0, seen |-> <<-1, -1>>]) /\ UNCHANGED <<srv, fn>>
Runs(t, id, a) == Top(t).op = "call" /\ Top(t).ph = "begun" /\ Top(t).id = id
                  /\ SetTop(t, [Top(t) EXCEPT !.ph = "run", !.arg = a]) /\ UNCHANGED <<srv, fn>>
Ran(t, thrown) == Top(t).op = "call" /\ Top(t).ph = "run"
                  /\ SetTop(t, [Top(t) EXCEPT !.ph = IF thrown THEN "threw" ELSE "ran"]) /\ UNCHANGED <<srv, fn>>
Lock(t) == Top(t).op = "call" /\ Top(t).ph = "ran"
           /\ SetTop(t, [Top(t) EXCEPT !.ph = IF Alive(Top(t).k) THEN "locked" ELSE "done"]) /\ UNCHANGED <<srv, fn>>
Finish(t) == /\ Top(t).op = "call" /\ Top(t).ph = "locked"
             /\ srv' = [srv EXCEPT ![Top(t).k].done = @ + 1]
             /\ SetTop(t, [Top(t) EXCEPT !.ph = IF srv[Top(t).k].cb THEN "counted" ELSE "done"]) /\ UNCHANGED fn
Read(t) == /\ Top(t).op = "call" /\ Top(t).ph = "counted"
           /\ \/ Top(t).seen[1] < 0 /\ SetTop(t, [Top(t) EXCEPT !.seen[1] = srv[Top(t).k].total])
              \/ Top(t).seen[2] < 0 /\ SetTop(t, [Top(t) EXCEPT !.seen[2] = srv[Top(t).k].done])
           /\ UNCHANGED <<srv, fn>>
Told(t, k, a, b) == Top(t).op = "call" /\ Top(t).ph = "counted" /\ Top(t).k = k /\ Top(t).seen = <<a, b>>
                    /\ SetTop(t, [Top(t) EXCEPT !.ph = "done"]) /\ UNCHANGED <<srv, fn>>
\* a call gives what its function gave: 10 * id + argument
Returned(t, v) == Top(t).op = "call" /\ Top(t).ph = "done" /\ v = Top(t).id * 10 + Top(t).arg /\ Pop(t) /\ UNCHANGED <<srv, fn>>
Threw(t, v) == Top(t).op = "call" /\ Top(t).ph = "threw" /\ v = Top(t).id /\ Pop(t) /\ UNCHANGED <<srv, fn>>

\* reading: steps and completed, each of them at one moment of the call
Steps(t, k) == Push(t, [op |-> "read", k |-> k, which |-> "total", v |-> -1]) /\ UNCHANGED <<srv, fn>>
Completed(t, k) == Push(t, [op |-> "read", k |-> k, which |-> "done", v |-> -1]) /\ UNCHANGED <<srv, fn>>
Look(t) == Top(t).op = "read" /\ Top(t).v < 0
           /\ SetTop(t, [Top(t) EXCEPT !.v = IF Top(t).which = "total" THEN srv[Top(t).k].total ELSE srv[Top(t).k].done])
           /\ UNCHANGED <<srv, fn>>
Got(t, v) == Top(t).op = "read" /\ Top(t).v = v /\ Pop(t) /\ UNCHANGED <<srv, fn>>

Internal == \E t \in DOMAIN th: Effect(t) \/ Tally(t) \/ Lock(t) \/ Finish(t) \/ Read(t) \/ Look(t)
Settled == \A t \in DOMAIN th: th[t] = <<>>
Exact == \A k \in DOMAIN srv: srv[k].held > 0 => 
  srv[k].total = Cardinality({s \in Slots: Has(s) /\ fn[s].k = k})
                 - Cardinality({t \in DOMAIN th: Top(t).op = "edit" /\ Top(t).more = k})
                 + Cardinality({t \in DOMAIN th: Top(t).op = "edit" /\ Top(t).less = k})
StateOK == Exact
=============================================================================

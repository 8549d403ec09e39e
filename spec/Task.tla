-------------------------------- MODULE Task --------------------------------
(* stlab::task<>: slots, each of them empty, holding a callable, or moved from.

   A slot is a record: s state ("empty", "held", "moved"), kind of the callable (kept when it has been moved
   away: the object is still there), id its name and count how often it has been called.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, MaxCount, AllKinds
VARIABLES slot, path
vars == <<slot, path>>

Ids == 1..Cardinality(Slots) + 1
Kinds == IF AllKinds THEN {"small", "full", "large", "align", "align2", "func", "stdf", "ref", "nest", "thr", "mo"}
                      ELSE {"small", "large", "align2", "func", "mo"}
Counted == Kinds \ {"func"}
Null == {"nullfunc", "nullstdf"}             \* what is empty when it is put in
Failing == {"csmall", "clarge"}              \* what throws when it is copied in
Copyable == Kinds \ {"nest", "mo"}

Empty == [s |-> "empty", kind |-> "", id |-> 0, count |-> 0]
Held(k, i) == [s |-> "held", kind |-> k, id |-> i, count |-> 0]
Moved(x) == [s |-> "moved", kind |-> x.kind, id |-> 0, count |-> 0]
\* what is left of something that has been moved from
Left(x) == IF x.s = "held" THEN Moved(x) ELSE x

Unused == Ids \ {slot[t].id: t \in Slots}
\* a new callable, made while what it replaces is still there
New == CHOOSE i \in Unused: \A j \in Unused: i <= j

\* operations: name, slot, other slot, kind
Ops == {<<f, t, 0, k>>: f \in {"assign", "assign_task", "construct"}, t \in Slots, k \in Kinds \cup Null}
  \cup {<<f, t, 0, k>>: f \in {"assign_copy", "construct_copy"}, t \in Slots, k \in Copyable \cup Failing \cup Null}
  \cup {<<f, t, 0, "">>: f \in {"nullptr", "construct_null", "default"}, t \in Slots}
  \cup {<<f, t, u, "">>: f \in {"move", "move_construct", "swap", "swap_free", "std_swap"}, t \in Slots, u \in Slots}
  \cup {<<"call", t, 0, "">>: t \in {t \in Slots: slot[t].s # "moved" /\ slot[t].count < MaxCount}}
\* nothing is done to an object with itself, and a slot is taken anew only from what it can hold
Valid(o) == o[3] # o[2] /\ (o[3] = 0 \/ o[3] \in Slots)

Put(t, x) == [slot EXCEPT ![t] = x]
\* the slots afterwards and what is reported: 0 nothing, a number returned, -1 bad_function_call, -2 the
\* exception of a copy, 1000 + n thrown by the callable
Do(o) ==
  LET t == o[2]  u == o[3]  k == o[4] IN
  CASE o[1] \in {"assign", "assign_task", "construct", "assign_copy", "construct_copy"} ->
         IF k \in Failing THEN [slot |-> IF o[1] = "assign_copy" THEN slot ELSE Put(t, Empty), r |-> -2]
         ELSE [slot |-> Put(t, IF k \in Null THEN Empty ELSE Held(k, New)), r |-> 0]
    [] o[1] \in {"nullptr", "construct_null", "default"} -> [slot |-> Put(t, Empty), r |-> 0]
    [] o[1] \in {"move", "move_construct"} -> [slot |-> [slot EXCEPT ![t] = slot[u], ![u] = Left(slot[u])], r |-> 0]
    [] o[1] \in {"swap", "swap_free", "std_swap"} -> [slot |-> [slot EXCEPT ![t] = slot[u], ![u] = slot[t]], r |-> 0]
    [] o[1] = "call" ->
         IF slot[t].s = "empty" THEN [slot |-> slot, r |-> -1]
         ELSE LET c == IF slot[t].kind \in Counted THEN slot[t].count + 1 ELSE 0
                  n == slot[t].id * 100 + c * 10 + 7
              IN [slot |-> [slot EXCEPT ![t].count = c], r |-> IF slot[t].kind = "thr" THEN 1000 + n ELSE n]

Row(x) == <<IF x.s = "held" THEN x.kind ELSE x.s, x.id, x.count>>
Rows(S) == [t \in Slots |-> Row(S[t])]
Res(o) == LET d == Do(o) IN <<o, d.r, Rows(d.slot)>>
Valids == {o \in Ops: Valid(o)}

Init == slot = [t \in Slots |-> Empty] /\ path = <<>>
Next == \E o \in Valids: slot' = Do(o).slot /\ path' = Append(path, Res(o))
Spec == Init /\ [][Next]_vars

\* one owner for every callable
Owned == \A t \in Slots: \A u \in Slots: t # u /\ slot[t].s = "held" /\ slot[u].s = "held" => slot[t].id # slot[u].id
TypeOK == \A t \in Slots: /\ slot[t].s \in {"empty", "held", "moved"}
                          /\ (slot[t].s = "held") = (slot[t].id # 0)
\* a callable never comes back and never changes but by being called
Keeps == [][\A t \in Slots: slot[t].s = "held" =>
              \/ \E u \in Slots: slot'[u].s = "held" /\ slot'[u].kind = slot[t].kind /\ slot'[u].id = slot[t].id
              \/ path'[Len(path')][1][2] = t  \/ path'[Len(path')][1][3] = t]_vars
=============================================================================

----------------------------- MODULE ProgressMC -----------------------------
(* Every behaviour of Progress.tla for two threads, each with its own slots (0-1 and 2-3), one tracker with
   and one without a callback, and a bounded number of operations.                                          *)
EXTENDS Progress, IOUtils
MaxOps == atoi(IOEnv.PROGRESS_OPS)
VARIABLES left, returned, told, alone   \* operations left to each thread; calls that returned; callbacks
h == <<left, returned, told, alone>>
Own(t) == IF t = 1 THEN {0, 1} ELSE {2, 3}
MCInit == /\ srv = [k \in {1, 2} |-> [total |-> 0, done |-> 0, held |-> 1, cb |-> (k = 1)]]
          /\ fn = [s \in Slots |-> <<>>] /\ th = <<>>
          /\ left = [t \in {1, 2} |-> MaxOps] /\ returned = [k \in {1, 2} |-> 0] /\ told = [k \in {1, 2} |-> 0] /\ alone = TRUE
Idle(t) == Stack(t) = <<>>
Uses(t) == Idle(t) /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<returned, told, alone>>
MCNext ==
  \/ \E t \in {1, 2} :
     \/ \E s \in Own(t), k \in {1, 2} : Uses(t) /\ srv[k].held > 0 /\ Begin(t, [o |-> "wrap", s |-> s, id |-> 1, tr |-> k, f |-> 0])
     \/ \E s, f \in Own(t) : s # f /\ Has(f) /\ Uses(t) /\ (\E o \in {"copy", "move"} : Begin(t, [o |-> o, s |-> s, f |-> f, id |-> 0, tr |-> 0]))
     \/ \E s \in Own(t) : Has(s) /\ Uses(t) /\ Begin(t, [o |-> "drop", s |-> s, f |-> 0, id |-> 0, tr |-> 0])
     \/ \E s \in Own(t) : Has(s) /\ fn[s].id # 0 /\ Uses(t) /\ Call(t, s)
     \/ End(t) /\ UNCHANGED h
     \/ Runs(t, 1, 5) /\ UNCHANGED h
     \/ \E x \in BOOLEAN : Ran(t, x) /\ UNCHANGED h
     \/ \E k \in {1, 2}, a, b \in 0..2 * MaxOps + 1 : Told(t, k, a, b) /\ told' = [told EXCEPT ![k] = @ + 1] /\ UNCHANGED <<left, returned, alone>>
     \/ LET k == Top(t).k IN Returned(t, 15) /\ UNCHANGED <<left, told>>
          /\ returned' = (IF k \in {1, 2} THEN [returned EXCEPT ![k] = @ + 1] ELSE returned) /\ alone' = (alone /\ (k \in {1, 2} => srv[k].held > 0))
     \/ Threw(t, 1) /\ UNCHANGED h
  \/ srv[2].held > 0 /\ Hold(2, -1) /\ UNCHANGED h                          \* one of the trackers goes
  \/ Internal /\ UNCHANGED h
MCSpec == MCInit /\ [][MCNext]_<<vars, h>>
Quiet == \A t \in DOMAIN th : th[t] = <<>>
Counts == Quiet => \A k \in {1, 2} : srv[k].held > 0 =>
  /\ srv[k].total = Cardinality({s \in Slots : Has(s) /\ fn[s].k = k})
  /\ srv[k].done = returned[k]
  /\ told[k] = (IF k = 1 THEN returned[k] ELSE 0)
NeverMore == \A k \in {1, 2} : told[k] <= srv[k].done /\ (k = 1 => returned[k] <= told[k])
MCProgress == Quiet \/ ENABLED MCNext
=============================================================================

--------------------------- MODULE ProgressTrace ---------------------------
EXTENDS Progress, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
T == Traces[tr].ev
E == T[l]
tvars == <<srv, fn, th, tr, l>>
TraceInit == Init /\ tr \in 1..Len(Traces) /\ l = 1
Is(x) == l <= Len(T) /\ E.e = x

Consume ==
  \/ Is("tracker") /\ Tracker(E.k, E.cb = 1)
  \/ Is("hold") /\ Hold(E.k, 1)
  \/ Is("unhold") /\ Hold(E.k, -1)
  \/ Is("edit") /\ Begin(E.t, E)
  \/ Is("edited") /\ End(E.t)
  \/ Is("call") /\ Call(E.t, E.s)
  \/ Is("fb") /\ Runs(E.t, E.id, E.a)
  \/ Is("fe") /\ Ran(E.t, E.x = 1)
  \/ Is("cb") /\ Told(E.t, E.k, E.s, E.c)
  \/ Is("ret") /\ Returned(E.t, E.v)
  \/ Is("thr") /\ Threw(E.t, E.v)
  \/ Is("steps") /\ Steps(E.t, E.k)
  \/ Is("completed") /\ Completed(E.t, E.k)
  \/ Is("got") /\ Got(E.t, E.v)
  \/ Is("end") /\ Settled = TRUE /\ UNCHANGED vars

TraceNext ==
  \/ Consume /\ l' = l + 1 /\ tr' = tr
  \/ l <= Len(T) /\ Internal /\ UNCHANGED <<tr, l>>

ASSUME TLCSet(1, {}) /\ TLCSet(2, [i \in 1..Len(Traces) |-> 0])
Book ==
  /\ tr \notin TLCGet(1)
  /\ StateOK
  /\ IF TLCGet(2)[tr] < l THEN TLCSet(2, [TLCGet(2) EXCEPT ![tr] = l]) ELSE TRUE
  /\ IF l > Len(T) THEN TLCSet(1, TLCGet(1) \cup {tr}) ELSE TRUE
Report ==
  \A i \in 1..Len(Traces) :
     i \in TLCGet(1) \/ PrintT("REJECTED " \o ToString(i) \o " " \o ToString(TLCGet(2)[i]))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

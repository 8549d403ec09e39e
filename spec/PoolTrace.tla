----------------------------- MODULE PoolTrace -----------------------------
EXTENDS Pool, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
T == Traces[tr].ev
E == T[l]
tvars == <<nq, ord, limit, ts, pq, fr, hd, hp, hn, fl, must, tr, l>>
TraceInit == Init /\ tr \in 1..Len(Traces) /\ l = 1
Is(x) == l <= Len(T) /\ E.e = x
Waits == \E i \in 1..Len(T) : T[i].e \in {"ab", "wb"}

Consume ==
  \/ Is("start") /\ Start(E.cores, Waits, E.ord = 1)
  \/ Is("sub") /\ SubBegin(E.t, E.k, E.x)
  \/ Is("sube") /\ SubEnd(E.t, E.k)
  \/ Is("rb") /\ RunBegin(E.t, E.k)
  \/ Is("re") /\ RunEnd(E.t, E.k)
  \/ Is("td") /\ Destroy(E.k)
  \/ Is("ab") /\ AwaitBegin(E.t, E.k)
  \/ Is("ae") /\ AwaitEnd(E.t, E.k)
  \/ Is("wb") /\ WaitBegin(E.t, E.v)
  \/ Is("we") /\ WaitEnd(E.t, E.v)
  \/ Is("set") /\ SetFlag(E.v)
  \/ Is("at") /\ AtBegin(E.t, E.h)
  \/ Is("ate") /\ AtEnd(E.t, E.h)
  \/ Is("pb") /\ PreBegin(E.t)
  \/ Is("hb") /\ HandlerBegin(E.t, E.h)
  \/ Is("he") /\ HandlerEnd(E.t, E.h)
  \/ Is("pe") /\ PreEnd(E.t, E.nt)
  \/ Is("q") /\ Settled = TRUE /\ UNCHANGED vars
  \/ Is("end") /\ Settled = TRUE /\ UNCHANGED vars

TraceNext ==
  \/ Consume /\ l' = l + 1 /\ tr' = tr
  \/ l <= Len(T) /\ Internal /\ UNCHANGED <<tr, l>>

ASSUME TLCSet(1, {}) /\ TLCSet(2, [i \in 1..Len(Traces) |-> 0])
Book ==
  /\ tr \notin TLCGet(1)
  /\ StateOK
  /\ IF TLCGet(2)[tr] < l THEN TLCSet(2, [TLCGet(2) EXCEPT ![tr] = l]) ELSE TRUE
  /\ IF l > Len(T) THEN TLCSet(1, TLCGet(1) \cup {tr}) ELSE TRUE
Report ==
  \A i \in 1..Len(Traces) :
     i \in TLCGet(1) \/ PrintT("REJECTED " \o ToString(i) \o " " \o ToString(TLCGet(2)[i]))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

---------------------------- MODULE FutureTrace ----------------------------
(* Is a trace recorded from the real code a behaviour of Future?           *)
(* Many traces are checked by one run: `tr` picks one, l is the position.  *)
EXTENDS Future, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
T == Traces[tr].ev
E == T[l]
tvars == <<nd, sl, pk, sb, fr, xk, tr, l>>

TraceInit == Init /\ tr \in 1..Len(Traces) /\ l = 1
Is(x) == l <= Len(T) /\ E.e = x
IsB(x) == Is("b") /\ E.op = x
IsD(x) == Is("d") /\ Top(E.t)[1] = "call" /\ Top(E.t)[3] = x

Consume ==
  \/ IsB("async") /\ CallAsync(E.t, E.c, E.n, E.d, E.x, E.a)
  \/ IsB("pkg") /\ CallPkg(E.t, E.c, E.n, E.d, E.p, E.x)
  \/ IsB("then") /\ CallThen(E.t, E.c, "then", E.n, E.h, E.d, E.x, E.rv)
  \/ IsB("rec") /\ CallThen(E.t, E.c, "rec", E.n, E.h, E.d, E.x, E.rv)
  \/ IsB("all") /\ CallJoin(E.t, E.c, "all", E.n, E.h, E.arms, E.d, E.x, E.rv)
  \/ IsB("any") /\ CallJoin(E.t, E.c, "any", E.n, E.h, E.arms, E.d, E.x, E.rv)
  \/ IsB("co") /\ CallCo(E.t, E.c, E.n, E.h, E.d)
  \/ IsB("ready") /\ CallReady(E.t, E.c, E.n, E.d, E.x, Val(E.v))
  \/ IsB("exf") /\ CallReady(E.t, E.c, E.n, E.d, E.x, Exc(E.v))
  \/ IsB("det") /\ CallDetach(E.t, E.c, E.h)
  \/ IsB("detf") /\ CallDetachF(E.t, E.c, E.n, E.h)
  \/ IsB("drop") /\ CallDrop(E.t, E.c, E.h)
  \/ IsB("cpy") /\ CallCopy(E.t, E.c, E.h, E.d, FALSE)
  \/ IsB("mv") /\ CallCopy(E.t, E.c, E.h, E.d, TRUE)
  \/ IsB("inv") /\ CallInvoke(E.t, E.c, E.p, E.v)
  \/ IsB("dropt") /\ CallBreak(E.t, E.c, E.p, Exc(BROKEN))
  \/ IsB("exct") /\ CallBreak(E.t, E.c, E.p, Exc(E.v))
  \/ IsB("mvt") /\ CallMovePromise(E.t, E.c, E.p, E.q)
  \/ IsB("canc") /\ CallCanceled(E.t, E.c, E.p)
  \/ IsB("rdy") /\ CallObserve(E.t, E.c, "rdy", E.h, 0)
  \/ IsB("try") /\ CallObserve(E.t, E.c, "try", E.h, E.rv)
  \/ IsB("get") /\ CallObserve(E.t, E.c, "get", E.h, E.rv)
  \/ IsB("await") /\ CallObserve(E.t, E.c, "await", E.h, 0)
  \/ IsB("awf") /\ CallObserve(E.t, E.c, "awf", E.h, <<E.n, E.us, E.w>>)
  \/ IsD("rdy") /\ RetReady(E.t, E.c, E.r)
  \/ IsD("try") /\ RetGet(E.t, E.c, <<E.o, E.v>>, Top(E.t)[7])
  \/ IsD("get") /\ RetGet(E.t, E.c, <<E.o, E.v>>, Top(E.t)[7])
  \/ IsD("await") /\ RetAwait(E.t, E.c, <<E.o, E.v>>)
  \/ IsD("awf") /\ E.valid = 1
       /\ LET x == Top(E.t)[7] IN RetAwaitFor(E.t, E.c, E.r, x[1], x[2], x[3], E.w, Traces[tr].sched.early_den = 0)
  \/ IsD("canc") /\ RetCanceled(E.t, E.c, E.r)
  \/ Is("d") /\ CallEnd(E.t, E.c)
  \/ Is("sub") /\ \E n \in Submittable(E.x) : Sub(E.t, E.k, E.x, n)
  \/ Is("sube") /\ SubEnd(E.t, E.k)
  \/ Is("rb") /\ RunBegin(E.t, E.k)
  \/ Is("re") /\ RunEnd(E.t, E.k)
  \/ Is("db") /\ DropBegin(E.t, E.k)
  \/ Is("de") /\ DropEnd(E.t, E.k)
  \/ Is("bb") /\ E.n \in Nodes /\ nd[E.n].kind \in {"rec", "detf"} /\ BodyBegin(E.t, E.n, <<>>, <<E.o, E.v>>)
  \/ Is("bb") /\ E.n \in Nodes /\ nd[E.n].kind \notin {"rec", "detf", "co"} /\ BodyBegin(E.t, E.n, E.a, P)
  \/ Is("bb") /\ E.n \in Nodes /\ CoBegin(E.t, E.n)
  \/ Is("be") /\ nd[E.n].kind # "co" /\ BodyEnd(E.t, E.n, <<E.o, E.v>>, E.w)
  \/ Is("be") /\ CoEnd(E.t, E.n, <<E.o, E.v>>, E.w)
  \/ Is("cr") /\ CoResume(E.t, E.n, E.i, <<E.o, E.v>>)
  \/ Is("td") /\ Destroy(E.n)
  \/ Is("q") /\ Settled(E.u = 1) = TRUE /\ UNCHANGED vars
  \/ Is("fin") /\ Fin(E.t)
  \/ Is("end") /\ E.lv = 0 /\ Settled(FALSE) = TRUE /\ (\A n \in Nodes : nd[n].cl # "live") /\ UNCHANGED vars

TraceNext ==
  \/ /\ Consume
     /\ l' = l + 1 /\ tr' = tr
     /\ NoLeak' = TRUE
  \/ /\ l <= Len(T)
     /\ \E n \in Nodes : \E o \in Outcomes(n) : Resolve(n, o)
     /\ UNCHANGED <<tr, l>>

StateOK == OutcomeRight /\ NotBeforeSource /\ SkipOnError /\ AllNeedsAll /\ AnyNeedsOne /\ InOwnRun /\ NotCancelledWhileHeld

(* Bookkeeping: register 1: accepted traces, 2: furthest position of each. *)
ASSUME TLCSet(1, {}) /\ TLCSet(2, [i \in 1..Len(Traces) |-> 0])
Book ==
  /\ tr \notin TLCGet(1)
  /\ StateOK
  /\ IF TLCGet(2)[tr] < l THEN TLCSet(2, [TLCGet(2) EXCEPT ![tr] = l]) ELSE TRUE
  /\ IF l > Len(T) THEN TLCSet(1, TLCGet(1) \cup {tr}) ELSE TRUE
Report ==
  \A i \in 1..Len(Traces) :
     i \in TLCGet(1) \/ PrintT("REJECTED " \o ToString(i) \o " " \o ToString(TLCGet(2)[i]))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

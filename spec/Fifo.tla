-------------------------------- MODULE Fifo --------------------------------
(***************************************************************************)
(* Executable specification of the asynchronous part of Boost.Statechart:  *)
(* fifo_worker, fifo_scheduler, processor_container, event_processor and   *)
(* asynchronous_state_machine, used by any number of threads.              *)
(*                                                                         *)
(* A call that queues something is not atomic: it is invoked, takes effect *)
(* at some moment (Linearize) and returns.  operator() (a "run") takes one *)
(* item after the other from the queue and performs it: the user code it   *)
(* reaches is an agenda w.run.k of callbacks, which may in turn make       *)
(* queueing calls and may throw.                                           *)
(*                                                                         *)
(* Processors are either plain event processors ("probe") or asynchronous  *)
(* state machines ("mach") with two states A (initial) and B; events of    *)
(* type 1 toggle between them, type 2 calls a reaction, others are not     *)
(* consumed.  Both are user code of the harness, see harness/fifo.cpp.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANT MaxThread      \* threads are 0..MaxThread

Threads == 0..MaxThread

NoRun == [on |-> FALSE, t |-> 0, lim |-> 0, cnt |-> 0, k |-> <<>>, cb |-> FALSE,
          exc |-> 0, out |-> FALSE]

Fresh(waiting) ==
  [ ex   |-> TRUE,             \* the scheduler exists
    wait |-> waiting,          \* operator() waits while the queue is empty
    q    |-> <<>>,             \* work items
    term |-> FALSE,
    proc |-> <<>>,             \* processors, in the order of create calls
    th   |-> [t \in Threads |-> [st |-> "idle", it |-> [k |-> "none", p |-> 0, a |-> 0, m |-> 0]]],
    run  |-> NoRun,
    kill |-> FALSE,            \* the destructor is running
    cur  |-> [k |-> "none", p |-> 0, a |-> 0, m |-> 0] ]   \* item being run

\* Work items: k  "work" (a: id), "empty", "stop",
\*                "create" (p), "init" (p), "ev" (p, a: event id, m: its type),
\*                "term" (p), "destroy" (p),   p = 0: a default-constructed handle
\*                "bulk" (a: id, p, m: m trivial items, numbered from p)
Item(k, p, a, m) == [k |-> k, p |-> p, a |-> a, m |-> m]

\* st: "new" constructor not run yet, "live", "dead";  ms: state of a machine
NewProc(kind, args) == [kind |-> kind, args |-> args, st |-> "new", ms |-> "down"]

-----------------------------------------------------------------------------
(* Queueing calls                                                           *)
CanCall(w, t) == /\ w.ex /\ ~w.kill /\ w.th[t].st = "idle"
                 /\ (w.run.on /\ w.run.t = t) => w.run.cb

Call(w, t, it) == [w EXCEPT !.th[t] = [st |-> "call", it |-> it]]
CallCreate(w, t, p, kind, args) ==
  [Call(w, t, Item("create", p, 0, 0)) EXCEPT !.proc = Append(@, NewProc(kind, args))]

Linearize(w, t) ==
  IF w.th[t].st # "call" THEN {}
  ELSE {[w EXCEPT !.th[t].st = "lin",
                  !.q = IF w.th[t].it.k = "empty" THEN @ ELSE Append(@, w.th[t].it)]}

Return(w, t) == [w EXCEPT !.th[t].st = "idle"]

-----------------------------------------------------------------------------
(* operator()                                                               *)
CanRun(w, t) == w.ex /\ ~w.kill /\ ~w.run.on /\ w.th[t].st = "idle"
Run(w, t, lim) == [w EXCEPT !.run = [NoRun EXCEPT !.on = TRUE, !.t = t, !.lim = lim]]

Free(w)    == w.run.on /\ w.run.k = <<>> /\ ~w.run.cb /\ w.run.exc = 0
Enough(w)  == w.term \/ (w.run.lim # 0 /\ w.run.cnt = w.run.lim)
MayTake(w) == Free(w) /\ ~w.run.out /\ ~Enough(w) /\ w.q # <<>>
MayStop(w) == Free(w) /\ (w.run.out \/ Enough(w))

\* user code reached by performing item it
Agenda(w, it) ==
  LET P == w.proc[it.p]
      mach == P.kind = "mach"
      leave == IF P.ms = "down" THEN <<>> ELSE <<<<"exit", it.p, P.ms>>, <<"sdtor", it.p, P.ms>>>>
  IN CASE it.k = "work"   -> <<<<"work", 0, it.a>>>>
       [] it.k = "stop"   -> <<>>
       [] it.k = "create" -> <<<<"ctor", it.p, 0>>>>
       [] it.p = 0        -> <<>>             \* an empty handle: ignored
       [] P.st # "live"   -> <<>>             \* addressed to nobody: ignored
       [] it.k = "destroy" -> <<<<"dtor", it.p, 0>>>>
                              \o (IF mach /\ P.ms # "down" THEN <<<<"sdtor", it.p, P.ms>>>> ELSE <<>>)
       [] it.k = "init"   -> IF mach THEN leave \o <<<<"enter", it.p, "A">>>> ELSE <<<<"init", it.p, 0>>>>
       [] it.k = "term"   -> IF mach THEN leave ELSE <<<<"term", it.p, 0>>>>
       [] it.k = "ev"     -> IF ~mach THEN <<<<"ev", it.p, it.a>>>>
                             ELSE IF P.ms = "down" THEN <<>>
                             ELSE IF it.m = 1 THEN leave \o <<<<"enter", it.p, IF P.ms = "A" THEN "B" ELSE "A">>>>
                             ELSE IF it.m = 2 THEN <<<<"react", it.p, it.a>>>>
                             ELSE <<>>

Take(w) ==
  LET it == Head(w.q)
  IN [w EXCEPT !.q = Tail(@), !.run.cnt = @ + 1, !.cur = it,
               !.term = @ \/ it.k = "stop",
               !.run.k = Agenda(w, it)]

\* the first n of a bulk of trivial items
CanTakeBulk(w, a, p, n) ==
  /\ MayTake(w) /\ n > 0 /\ (w.run.lim = 0 \/ w.run.cnt + n <= w.run.lim)
  /\ LET h == Head(w.q) IN h.k = "bulk" /\ h.a = a /\ h.p = p /\ n <= h.m
TakeBulk(w, n) ==
  LET h == Head(w.q)
  IN [w EXCEPT !.q = IF n = h.m THEN Tail(@) ELSE [@ EXCEPT ![1] = Item("bulk", h.p + n, h.a, h.m - n)],
               !.run.cnt = @ + n]

SeeEmpty(w) == [w EXCEPT !.run.out = TRUE]
CanSeeEmpty(w) == Free(w) /\ ~Enough(w) /\ w.q = <<>> /\ ~w.wait /\ ~w.run.out

\* a callback begins (its agenda entry stays until it ends)
Begin(w) == [w EXCEPT !.run.cb = TRUE]
CanBegin(w) == w.run.on /\ w.run.k # <<>> /\ ~w.run.cb

\* it ends, throwing exception x if x # 0
End(w, x) ==
  LET h == Head(w.run.k)
      p == h[2]
      r == [w EXCEPT !.run.cb = FALSE, !.run.k = Tail(@)]
      ok == CASE h[1] = "ctor"  -> [r EXCEPT !.proc[p].st = "live"]
              [] h[1] = "dtor"  -> [r EXCEPT !.proc[p].st = "dead"]
              [] h[1] = "enter" -> [r EXCEPT !.proc[p].ms = h[3]]
              [] h[1] = "sdtor" -> [r EXCEPT !.proc[p].ms = "down"]
              [] OTHER -> r
      up == [r EXCEPT !.run.exc = x]
      ms == IF p = 0 THEN "down" ELSE w.proc[p].ms
      bad == CASE h[1] = "ctor"  -> [up EXCEPT !.proc[p].st = "dead", !.run.k = <<>>]
               \* a machine that fails discards its states without exit()
               [] h[1] \in {"exit", "react"} -> [up EXCEPT !.run.k = <<<<"sdtor", p, ms>>>>]
               [] OTHER -> [up EXCEPT !.run.k = <<>>]
  IN IF x = 0 THEN ok ELSE bad

CanReturn(w) == MayStop(w)
CanThrow(w)  == w.run.on /\ w.run.k = <<>> /\ ~w.run.cb /\ w.run.exc # 0
EndRun(w) == [w EXCEPT !.run = NoRun]

-----------------------------------------------------------------------------
(* Destruction: remaining items are dropped, processors destroyed in any    *)
(* order.                                                                   *)
CanKill(w, t) == w.ex /\ ~w.kill /\ ~w.run.on /\ \A s \in Threads : w.th[s].st = "idle"
Kill(w, t) == [w EXCEPT !.kill = TRUE, !.q = <<>>, !.run = [NoRun EXCEPT !.on = TRUE, !.t = t]]
LiveProcs(w) == {p \in 1..Len(w.proc) : w.proc[p].st = "live"}
KillNext(w) ==
  IF ~(w.kill /\ w.run.on /\ w.run.k = <<>> /\ ~w.run.cb) THEN {}
  ELSE {[w EXCEPT !.run.k = Agenda(w, Item("destroy", p, 0, 0))] : p \in LiveProcs(w)}
CanGone(w) == w.kill /\ w.run.on /\ w.run.k = <<>> /\ ~w.run.cb /\ LiveProcs(w) = {}
Gone(w) == [w EXCEPT !.ex = FALSE, !.kill = FALSE, !.run = NoRun]

-----------------------------------------------------------------------------
Blocked(w) == /\ w.run.on /\ ~w.kill /\ w.wait /\ Free(w) /\ ~Enough(w) /\ w.q = <<>>
              /\ \A t \in Threads : w.th[t].st = "idle"

QueuedEvents(w) == {w.q[i].a : i \in {j \in 1..Len(w.q) : w.q[j].k = "ev"}}
QueuedCreates(w) == {w.q[i].p : i \in {j \in 1..Len(w.q) : w.q[j].k = "create"}}

TypeOk(w) == /\ w.run.cb => w.run.k # <<>>
             /\ w.run.on => (w.run.lim = 0 \/ w.run.cnt <= w.run.lim)
             /\ \A p \in 1..Len(w.proc) : w.proc[p].ms # "down" => w.proc[p].st \in {"live", "dead"}
=============================================================================

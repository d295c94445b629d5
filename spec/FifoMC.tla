------------------------------- MODULE FifoMC -------------------------------
(***************************************************************************)
(* Exhaustive exploration of Fifo.tla: all sequences of at most CALLS      *)
(* queueing calls (from user threads, between runs and inside callbacks),  *)
(* RUNS calls of operator() and THROWS exceptions, in all interleavings of *)
(* the threads.  The monitors of FifoProps are checked on every            *)
(* transition.  With SCRIPTS=1 (one thread) the explored behaviours are    *)
(* printed and replayed on the real scheduler.                             *)
(***************************************************************************)
EXTENDS FifoProps, IOUtils

Num(s, d) == IF s \in DOMAIN IOEnv THEN atoi(IOEnv[s]) ELSE d
Calls  == Num("CALLS", 3)
Runs   == Num("RUNS", 2)
Throws == Num("THROWS", 1)
Procs  == Num("PROCS", 1)
Empties == 1 - Num("EMPTY", 0)       \* 0: empty handles are used, too
Waits  == Num("WAIT", 0) = 1
Scripts == Num("SCRIPTS", 0) = 1
Only == IF "OPS" \in DOMAIN IOEnv THEN IOEnv.OPS ELSE "all"   \* all | work

VARIABLES w, g, b, path
vars == <<w, g, b, path>>

Do(y, line, tok) == w' = y /\ g' = Ghost(g, w, line, y) /\ path' = path \o tok
Quietly(S) == w' \in S /\ UNCHANGED <<g, b, path>>

CallLine(t, op, p, a, m, v) == [o |-> "call", t |-> t, op |-> op, p |-> p, a |-> a, m |-> m, v |-> v]
Spend == b.calls > 0 /\ b' = [b EXCEPT !.calls = @ - 1]

Invoke(t) ==
  /\ CanCall(w, t) /\ Spend
  /\ \/ LET a == Calls - b.calls + 1
        IN Do(Call(w, t, Item("work", 0, a, 0)), CallLine(t, "work", 0, a, 0, <<>>), " Q")
     \/ Do(Call(w, t, Item("stop", 0, 0, 0)), CallLine(t, "stop", 0, 0, 0, <<>>), " S")
     \/ /\ Only = "all"
        /\ \/ Do(Call(w, t, Item("empty", 0, 0, 0)), CallLine(t, "empty", 0, 0, 0, <<>>), " E")
           \/ /\ Len(w.proc) < Procs
              /\ \E m \in {0, 1} :
                   Do(CallCreate(w, t, Len(w.proc) + 1, IF m = 1 THEN "mach" ELSE "probe", <<>>),
                      CallLine(t, "create", Len(w.proc) + 1, 0, m, <<>>), " C." \o ToString(m))
           \/ \E p \in Empties..Len(w.proc) :
                \* the handle has been returned
                /\ \A s \in Threads : ~(w.th[s].st # "idle" /\ w.th[s].it.k = "create" /\ w.th[s].it.p = p)
                /\ \/ Do(Call(w, t, Item("init", p, 0, 0)), CallLine(t, "init", p, 0, 0, <<>>), " I." \o ToString(p))
                   \/ Do(Call(w, t, Item("term", p, 0, 0)), CallLine(t, "term", p, 0, 0, <<>>), " T." \o ToString(p))
                   \/ Do(Call(w, t, Item("destroy", p, 0, 0)), CallLine(t, "destroy", p, 0, 0, <<>>), " D." \o ToString(p))
                   \/ \E m \in IF p # 0 /\ w.proc[p].kind = "mach" THEN {1, 2} ELSE {1} :
                        LET a == Calls - b.calls + 1
                        IN Do(Call(w, t, Item("ev", p, a, m)), CallLine(t, "ev", p, a, m, <<>>),
                              " V." \o ToString(p) \o "." \o ToString(m))

Lin(t) == Quietly(Linearize(w, t))
Ret(t) == w.th[t].st = "lin" /\ Do(Return(w, t), [o |-> "ret", t |-> t], "") /\ UNCHANGED b
\* between runs and in callbacks only; one thread: calls are atomic
StartRun == /\ CanRun(w, 0) /\ b.runs > 0 /\ b' = [b EXCEPT !.runs = @ - 1]
            /\ \E n \in {0, 1, 2} : Do(Run(w, 0, n), [o |-> "run", t |-> 0, n |-> n], " R." \o ToString(n))
TakeItem == MayTake(w) /\ Quietly({Take(w)})
Empty    == CanSeeEmpty(w) /\ Quietly({SeeEmpty(w)})
CbBegin == /\ CanBegin(w) /\ UNCHANGED b
           /\ LET h == Head(w.run.k)
              IN Do(Begin(w), [o |-> "cb", k |-> h[1], p |-> h[2], a |-> h[3], t |-> w.run.t], "")
CbEnd == /\ w.run.cb /\ w.th[w.run.t].st = "idle"
         /\ \E x \in {0} \cup (IF b.throws > 0 /\ ~w.kill /\ Head(w.run.k)[1] \notin {"dtor", "sdtor"}
                               THEN {1} ELSE {}) :
              /\ b' = [b EXCEPT !.throws = @ - x]
              /\ Do(End(w, x), [o |-> "ce", t |-> w.run.t, th |-> x],
                    IF Head(w.run.k)[1] \in {"dtor", "sdtor"} THEN "" ELSE " e." \o ToString(x))
RunReturns == CanReturn(w) /\ ~w.kill /\ Do(EndRun(w), [o |-> "ran", n |-> w.run.cnt, tm |-> w.term], "") /\ UNCHANGED b
RunThrows  == CanThrow(w) /\ Do(EndRun(w), [o |-> "rthrew", x |-> w.run.exc], "") /\ UNCHANGED b
Destroy == CanKill(w, 0) /\ Do(Kill(w, 0), [o |-> "kill"], " K") /\ UNCHANGED b
DestroyNext == Quietly(KillNext(w))
DestroyEnd == CanGone(w) /\ Do(Gone(w), [o |-> "gone"], "") /\ UNCHANGED b

\* in a callback of the killing phase user code makes no more calls
Init == /\ w = Fresh(Waits) /\ g = GhostInit /\ path = "SCRIPT"
        /\ b = [calls |-> Calls, runs |-> Runs, throws |-> Throws]

Next == \/ \E t \in Threads : Invoke(t) \/ Lin(t) \/ Ret(t)
        \/ StartRun \/ TakeItem \/ Empty \/ CbBegin \/ CbEnd \/ RunReturns \/ RunThrows
        \/ Destroy \/ DestroyNext \/ DestroyEnd

Fair == /\ \A t \in Threads : WF_vars(Lin(t)) /\ WF_vars(Ret(t))
        /\ WF_vars(TakeItem) /\ WF_vars(Empty) /\ WF_vars(CbBegin) /\ WF_vars(CbEnd)
        /\ WF_vars(RunReturns) /\ WF_vars(RunThrows)

MCSpec == Init /\ [][Next]_vars /\ Fair

NoBad == TypeOk(w) /\ g.bad = {}
\* path is not part of the state
View == <<w, g, b>>
ShortView == <<w, b>>
Printed == ~(Scripts /\ ~w'.ex) \/ PrintT(path')

\* C18: a waiting run with no limit performs whatever is queued, unless it is
\* terminated or an exception ends it
Serviced == \A i \in 1..Calls :
  (Len(g.calls) >= i /\ g.calls[i].k = "work" /\ w.run.on /\ ~w.kill /\ w.run.lim = 0)
     ~> (i \in g.done \/ w.term \/ ~w.run.on)
=============================================================================

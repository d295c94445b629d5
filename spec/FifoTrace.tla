----------------------------- MODULE FifoTrace -----------------------------
(***************************************************************************)
(* Binds recorded executions of the real scheduler to Fifo.tla.  TRACES:   *)
(* one JSON record [id, wait, exact, rp, rc, ls] per line; exact: counts of live   *)
(* event objects are reported (single threaded runs).                      *)
(***************************************************************************)
EXTENDS FifoProps, Json, IOUtils

VARIABLES w, tr, l, g
tvars == <<w, tr, l, g>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
Diag   == "DIAG" \in DOMAIN IOEnv /\ IOEnv.DIAG = "1"

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)

Ls   == Traces[tr].ls
Line == Ls[l]
Is(o) == l <= Len(Ls) /\ Line.o = o

Advance(y) == w' = y /\ l' = l + 1 /\ g' = Ghost(g, w, Line, y) /\ UNCHANGED tr
Silently(S) == w' \in S /\ UNCHANGED <<tr, l, g>>

TCall == /\ Is("call") /\ CanCall(w, Line.t)
         /\ IF Line.op = "create"
            THEN /\ Line.p = Len(w.proc) + 1
                 /\ Advance(CallCreate(w, Line.t, Line.p, IF Line.m = 1 THEN "mach" ELSE "probe", Line.v))
            ELSE Advance(Call(w, Line.t, Item(Line.op, Line.p, Line.a, Line.m)))
TRet  == Is("ret") /\ w.th[Line.t].st = "lin" /\ Advance(Return(w, Line.t))
TRun  == Is("run") /\ CanRun(w, Line.t) /\ Advance(Run(w, Line.t, Line.n))
TCb   == /\ Is("cb") /\ CanBegin(w) /\ w.run.t = Line.t
         /\ LET h == Head(w.run.k)
            IN /\ h[1] = Line.k /\ h[2] = Line.p
               /\ h[1] \in {"work", "ev", "react"} => h[3] = Line.a
               /\ h[1] \in {"enter", "exit", "sdtor"} => h[3] = Line.s
               /\ h[1] = "ctor" => Line.v = w.proc[Line.p].args
         /\ Line.ok
         /\ Advance(Begin(w))
TBulk == /\ Is("bulk") /\ w.run.t = Line.t /\ CanTakeBulk(w, Line.a, Line.p, Line.n)
         /\ Advance(TakeBulk(w, Line.n))
TCe   == Is("ce") /\ w.run.cb /\ w.run.t = Line.t /\ w.th[Line.t].st = "idle" /\ Advance(End(w, Line.th))

Counts(y) == Traces[tr].exact =>
               /\ Line.ne = Cardinality(QueuedEvents(y))
               /\ QueuedCreates(y) = {} => Line.na = 0
TRan  == /\ Is("ran") /\ CanReturn(w) /\ Line.n = w.run.cnt /\ Line.tm = w.term /\ Counts(w)
         /\ Advance(EndRun(w))
TThrew == /\ Is("rthrew") /\ CanThrow(w) /\ Line.x = w.run.exc /\ Line.tm = w.term /\ Counts(w)
          /\ Advance(EndRun(w))
TBlocked == Is("blocked") /\ Blocked(w) /\ Advance(w)
TKill == Is("kill") /\ CanKill(w, Line.t) /\ Advance(Kill(w, Line.t))
TGone == /\ Is("gone") /\ CanGone(w) /\ Line.ne = 0 /\ Line.na = 0 /\ Line.ab = 0 /\ Line.bad = 0
         /\ Advance(Gone(w))
TEnd  == Is("end") /\ ~w.ex /\ Advance(w)

(* Silent steps.  They are postponed until the next line can depend on      *)
(* them: a linearisation until its call returns or an empty queue has to be *)
(* filled, a take until user code or the end of the run is seen, both also  *)
(* until another call returns (which fixes the order of the two).  rp and   *)
(* rc tell on which line a work item, an event and a constructor is seen to *)
(* run: orders of linearisation that contradict them are not explored, they *)
(* would be rejected at that line.                                          *)
Before(o) == l <= Len(Ls) /\ Line.o = o
Pending   == Before("ret") /\ w.th[Line.t].st = "call"
At(ss, i) == IF i \in 1..Len(ss) THEN ss[i] ELSE 0
SeenAt(it) == CASE it.k \in {"work", "ev"} -> At(Traces[tr].rp, it.a)
                [] it.k = "create" -> At(Traces[tr].rc, it.p)
                [] OTHER -> 0
Fits(t) == LET n == SeenAt(w.th[t].it)
           IN n = 0 \/ \A i \in 1..Len(w.q) : SeenAt(w.q[i]) < n
TLin   == /\ Pending \/ ((Before("cb") \/ Before("ran")) /\ Free(w) /\ w.q = <<>>)
          /\ \E t \in Threads : w.th[t].st = "call" /\ Fits(t) /\ Silently(Linearize(w, t))
TTake  == /\ MayTake(w) /\ Head(w.q).k # "bulk"
          /\ \/ Before("cb") \/ Before("bulk") \/ Before("ran") \/ Before("blocked")
             \/ Pending /\ ~w.wait /\ Agenda(w, Head(w.q)) = <<>>
          /\ Silently({Take(w)})
TEmpty == CanSeeEmpty(w) /\ (Pending \/ Before("ran")) /\ Silently({SeeEmpty(w)})
TKillNext == (Before("cb") \/ Before("gone")) /\ Silently(KillNext(w))

TraceInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ w = Fresh(Traces[tr].wait) /\ g = GhostInit
TraceNext == TCall \/ TRet \/ TRun \/ TCb \/ TBulk \/ TCe \/ TRan \/ TThrew \/ TBlocked \/ TKill \/ TGone \/ TEnd
             \/ TLin \/ TTake \/ TEmpty \/ TKillNext
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Reached == /\ TLCGet(tr) >= l \/ TLCSet(tr, l)
           /\ g.bad = {} \/ PrintT(<<"PROP", tr, l, g.bad>>)
           /\ ~Diag \/ PrintT(<<"AT", l, w.run, w.q, w.term, w.proc, [t \in Threads |-> w.th[t].st]>>)
Ok == TypeOk(w)

Report == \A i \in 1..Len(Traces) :
            TLCGet(i) > Len(Traces[i].ls) \/ PrintT(<<"REJECTED", i, TLCGet(i)>>)
=============================================================================

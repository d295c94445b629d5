-------------------------- MODULE StatechartTrace --------------------------
(***************************************************************************)
(* Binds recorded executions of the real library to Statechart.tla: a      *)
(* trace is accepted iff every recorded line is the next step of some      *)
(* behaviour of the specification, with equal observations.                *)
(* Traces come from the environment: CHARTS (JSON array of charts) and     *)
(* TRACES (one JSON record [id, c, ls] per line).                          *)
(***************************************************************************)
EXTENDS StatechartProps, Json, IOUtils

VARIABLES tr, l, g

tvars == <<c, m, tr, l, g>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
Diag   == "DIAG" \in DOMAIN IOEnv /\ IOEnv.DIAG = "1"

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
NoteReg == Len(Traces) + 1
ASSUME TLCSet(NoteReg, {})
Collect(x, t) == t \in TLCGet(NoteReg) \/ TLCSet(NoteReg, TLCGet(NoteReg) \cup {t})

Ls   == Traces[tr].ls
Line == Ls[l]
More == l <= Len(Ls)

IsCall(o) == More /\ Line.o = o /\ Idle(m)
IsObs(o)  == More /\ Line.o = o /\ m.k # <<>>
Top       == Head(m.k)

Advance(S) == /\ m' \in S
              /\ l' = l + 1
              /\ g' = Ghost(g, m, Line, m')
              /\ UNCHANGED <<c, tr>>

\* the triggering event reported by the library (-3: not observable here)
TrigOk == Line.tr = -3 \/ Line.tr = m.trig.id

Dec == [th |-> Line.th, ps |-> Line.ps, cl |-> Line.cl, op |-> Line.op]

\* Queries made from a reaction, while the machine is stable
LeavesOk == m.unst # 0 \/ m.ico \/ ToSet(Line.lv) = ActiveChains(m)
\* casts asked for: which ones, and those that succeeded
AskOk == m.unst # 0 \/ m.ico \/ ToSet(Line.cf) = ToSet(Line.ca) \cap m.alive

SnapOk ==
  /\ ToSet(Line.lv) = ActiveChains(m)
  /\ Len(Line.lv) = Cardinality(ActiveChains(m))
  /\ Line.tm = Terminated(m)
  /\ Line.tr = 0
  /\ ToSet(Line.sc) = m.alive /\ ToSet(Line.sd) = m.alive
  /\ ToSet(Line.rc) = m.alive /\ ToSet(Line.rd) = m.alive
  /\ ToSet(Line.tg) = UNION {ToSet(C.tags[s]) : s \in m.alive}
  /\ Line.ns = Cardinality(m.alive)
  /\ Line.ne \in {-1, Cardinality(LiveEvents(m))}
  /\ Line.bad = 0
  \* memory comes from the allocators given, and from nowhere else
  /\ Line.un = 0
  /\ Line.ow = Cardinality({s \in m.alive : C.own[s]})
  /\ Line.eb \in {-1, Cardinality(LiveEvents(m))}

TInitiate  == IsCall("I") /\ Advance(CallInitiate(m))
TTerminate == IsCall("T") /\ Advance(CallTerminate(m))
TProcess   == IsCall("P") /\ (Line.kp => m.kp.t = Line.t /\ m.kp.id = Line.id)
              /\ Advance(CallProcess(m, Line.t, Line.id, Line.h, Line.kp))
TOutside   == IsCall("Q") /\ TrigOk /\ Advance(CallOutside(m, Dec))
TDelete    == IsCall("D") /\ Advance(CallDelete(m))

TEnter == /\ IsObs("enter") /\ Top[1] = "enter" /\ Top[2] = Line.s
          /\ Line.ok /\ TrigOk
          /\ Advance(Step(m, Dec))
TExit  == /\ IsObs("exit") /\ Top[1] = "exit" /\ Top[2] = Line.s
          /\ Line.ok /\ TrigOk
          /\ Advance(Step(m, Dec))
TDtor  == /\ IsObs("dtor") /\ Top[1] = "dtor" /\ Top[2] = Line.s
          /\ Line.ok
          /\ Advance(Step(m, Dec))
TAction == /\ IsObs("act") /\ Top[1] \in {"act", "insr"} /\ Top[2] = Line.s
           /\ Line.ok /\ TrigOk /\ Line.x = m.trig.id
           /\ (Top[1] = "insr" => LeavesOk)
           /\ Advance(Step(m, Dec))
TReact == /\ IsObs("react") /\ Top[1] = "react" /\ Top[3] = Line.s /\ Top[4] = Line.r
          /\ Line.ok /\ TrigOk /\ Line.x = Top[2].id /\ LeavesOk /\ AskOk
          /\ Advance(Step(m, Dec))
TUnconsumed == /\ IsObs("uncons") /\ Top[1] = "uncons"
               /\ Line.ok /\ TrigOk /\ Line.x = Top[2].id /\ LeavesOk /\ AskOk
               /\ Advance(Step(m, Dec))
\* Hints recorded where the library passes through user code anyway.  If a
\* run has none of a kind they carry no information.
THint   == /\ More /\ Line.o \in {"dfr", "dsc"} /\ m.k # <<>> /\ Top = <<Line.o, Line.s>>
           /\ Advance(Step(m, NoDec))
TNoHint == /\ More /\ m.k # <<>> /\ Top[1] \in {"dfr", "dsc"}
           /\ IF Top[1] = "dfr" THEN ~Traces[tr].hd ELSE ~Traces[tr].hs
           /\ m' \in Step(m, NoDec)
           /\ g' = Ghost(g, m, [o |-> "none", s |-> 0, th |-> 0, ps |-> <<>>, cl |-> <<>>], m')
           /\ UNCHANGED <<c, tr, l>>
TReturn == /\ IsObs("ret") /\ Top[1] = "ret" /\ SnapOk
           /\ Advance(Step(m, NoDec))
TThrew  == /\ IsObs("threw") /\ Top[1] = "threw" /\ Line.s = m.exc /\ SnapOk
           /\ Advance(Step(m, NoDec))
TGone   == /\ IsObs("gone") /\ Top[1] = "gone"
           /\ Line.ns = 0 /\ Line.ne = 0 /\ Line.ab = 0 /\ Line.bad = 0
           /\ Line.un = 0 /\ Line.ow = 0 /\ Line.eb = 0
           /\ Advance(Step(m, NoDec))
TEnd    == /\ More /\ Line.o = "end" /\ ~m.ex
           /\ l' = l + 1 /\ UNCHANGED <<c, m, tr, g>>

TraceInit == /\ tr \in 1..Len(Traces)
             /\ l = 1
             /\ c = Traces[tr].c
             /\ m = Fresh
             /\ g = GhostInit

TraceNext == \/ TInitiate \/ TTerminate \/ TProcess \/ TOutside \/ TDelete
             \/ TEnter \/ TExit \/ TDtor \/ TAction \/ TReact \/ TUnconsumed
             \/ THint \/ TNoHint
             \/ TReturn \/ TThrew \/ TGone \/ TEnd

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* remember how far each trace got (one worker only)
Reached == /\ TLCGet(tr) >= l \/ TLCSet(tr, l)
           /\ g.bad = {} \/ PrintT(<<"PROP", tr, l, g.bad>>)
           /\ ~Diag \/ PrintT(<<"AT", l, IF m.k = <<>> THEN <<"idle">> ELSE Head(m.k),
                                m.trig.id, m.exc, m.alive, m.unst, m.q, m.dq>>)

Report == \A i \in 1..Len(Traces) :
            TLCGet(i) > Len(Traces[i].ls)
              \/ PrintT(<<"REJECTED", i, TLCGet(i)>>)
Notes  == \A t \in TLCGet(NoteReg) : PrintT("NOTE " \o t)
ReportAll == Report /\ Notes
=============================================================================

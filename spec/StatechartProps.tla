-------------------------- MODULE StatechartProps --------------------------
(***************************************************************************)
(* The properties, stated over the state of the specification and over     *)
(* what user code observes, independently of how Statechart.tla computes   *)
(* its steps.  They are checked in two ways:                               *)
(*  - exhaustively, on every transition of StatechartMC (small charts);    *)
(*  - on every step of every recorded execution (StatechartTrace).         *)
(* A monitor g observes the calls into user code; Ghost(g, x, line, y)     *)
(* is its successor when the machine goes from x to y with the observed    *)
(* call or return line.  g.bad collects the names of violated properties.  *)
(***************************************************************************)
EXTENDS Statechart

\* life: 0 not there, 1 active, 2 exit() called
\* log : calls since the current event was dispatched, <<op, state>>
\* last: the API call in progress, or "threw"; "uncons" if unconsumed_event threw
GhostInit == [life |-> [s \in States |-> 0], log |-> <<>>, bad |-> {}, last |-> "new"]

-----------------------------------------------------------------------------
(* C01                                                                     *)
Nested(x) == \A s \in x.alive : Par(s) = 0 \/ Par(s) \in x.alive
OnePerRegion(x) == \A s, t \in x.alive :
                     (s # t /\ Par(s) = Par(t)) => (Par(s) # 0 /\ C.reg[s] # C.reg[t])
\* a termination reaction may leave a region empty
HasTermination == \E s \in States : \E i \in 1..Len(C.rx[s]) :
                    \/ C.rx[s][i].k = "term"
                    \/ \E j \in 1..Len(C.rx[s][i].opts) : C.rx[s][i].opts[j].k = "term"
Complete(x) == /\ Cardinality(Outermost(x)) \in {0, 1}
               /\ \A s \in x.alive :
                    IF HasTermination
                    THEN Simple(s) \/ AliveKids(x, s) # {}
                    ELSE Cardinality(AliveKids(x, s)) = Len(Regions(s))
WellFormed(x) == Nested(x) /\ OnePerRegion(x) /\ Complete(x)

\* nothing is left over between two API calls
Quiet(x) == /\ x.unst = 0 /\ x.held = {} /\ x.full /\ x.exc = 0
            /\ x.trig = NoEv

-----------------------------------------------------------------------------
(* C02: order of calls while one event is being dealt with                 *)
Branch(a, s) == PathDown(a, s)[1]
\* s is left before t / t is entered before s
Before(s, t) == \/ t \in AncSet(s)
                \/ LET cm == Common(s, t)
                   IN /\ s # t /\ s \notin AncSet(t) /\ cm # 0
                      /\ C.reg[Branch(cm, s)] > C.reg[Branch(cm, t)]
LogOk(log, op, s) ==
  \A i \in 1..Len(log) :
     LET o == log[i][1]
         t == log[i][2]
     IN CASE op = "exit" /\ o = "exit"   ->
              \/ Before(t, s)
              \* a relaxed action runs between the exits inside its context
              \* and the others
              \/ C.relax /\ t \notin AncSet(s) /\ \E j \in i..Len(log) : log[j][1] = "act"
          [] op = "exit" /\ o = "enter"  -> FALSE
          [] op = "exit" /\ o = "act"    -> C.relax
          [] op = "act"  /\ o = "enter"  -> FALSE
          [] op = "act"  /\ o = "act"    -> FALSE
          [] op = "enter" /\ o = "enter" -> Before(s, t)
          [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* C05, C06: what may happen to the queues in one step                     *)
PostedBy(x, line) ==
  IF line.o \in {"enter", "exit", "act", "react", "uncons", "Q"} THEN line.ps ELSE <<>>

SameIds(es, ps) == /\ Len(es) = Len(ps)
                   /\ \A i \in 1..Len(ps) : es[i].t = ps[i][1] \/ ps[i][3] = 2
\* what is queued afterwards: released events (if any), then a suffix of what
\* was queued and what was posted
FifoOk(x, line, y) ==
  LET ps == PostedBy(x, line)
      all == Len(x.q) + Len(ps)
  IN \/ y.q = <<>>
     \/ \E n \in 0..Len(y.q) :            \* n released events in front
          LET rest == SubSeq(y.q, n + 1, Len(y.q))
              k    == Len(rest) - Len(ps)
          IN /\ n > 0 => \A i \in 1..n :
                  \/ y.q[i] \in Range(x.dq) \/ y.q[i].t = x.trig.t
                  \/ y.q[i].t \in {x.q[j].t : j \in 1..Len(x.q)}
                  \/ y.q[i].t \in {ps[j][1] : j \in 1..Len(ps)}
             /\ IF k >= 0
                THEN /\ k <= Len(x.q)
                     /\ SubSeq(rest, 1, k) = SubSeq(x.q, Len(x.q) - k + 1, Len(x.q))
                     /\ SameIds(SubSeq(rest, k + 1, Len(rest)), ps)
                ELSE SameIds(rest, SubSeq(ps, 1 - k, Len(ps)))

\* events only disappear by being dispatched, or with everything else
Conserved(x, line, y) ==
  LET before == Len(x.q) + Len(x.dq) + Len(PostedBy(x, line))
      after  == Len(y.q) + Len(y.dq)
  IN \/ before - after <= y.nd - x.nd
     \/ (y.q = <<>> /\ y.dq = <<>>)     \* cleared: see C10/C12 below

\* deferred events wait for a state that deferred something
DeferOk(x) == x.dfl \subseteq x.alive /\ (x.dq # <<>> => x.dfl # {})

-----------------------------------------------------------------------------
(* C07, C08, C09                                                           *)
HistOk(x) ==
  /\ \A k \in HistKeys :
       /\ x.sh[k] # 0 => /\ Par(x.sh[k]) = k[1] /\ C.reg[x.sh[k]] = k[2]
                         /\ HasShallow(k[1])
       /\ x.dh[k] # 0 => /\ Simple(x.dh[k]) /\ k[1] \in AncSet(x.dh[k])
                         /\ C.reg[Branch(k[1], x.dh[k])] = k[2] /\ HasDeep(k[1])

\* history changes only with an orderly exit (saved), a clear, or all at once
HistStepOk(x, line, y) ==
  \/ x.sh = y.sh /\ x.dh = y.dh
  \/ y.sh = EmptyHist /\ y.dh = EmptyHist /\ y.nd > x.nd
  \/ y.sh = EmptyHist /\ y.dh = EmptyHist /\ line.o \in {"I", "T", "D"}
  \/ y.sh = EmptyHist /\ y.dh = EmptyHist /\ y.k # <<>> /\ Head(y.k)[1] \in {"ret", "gone", "threw", "enter"}
  \/ /\ line.o \in {"enter", "exit", "act", "react", "uncons", "Q"}
     /\ \A k \in HistKeys :
          /\ \/ y.sh[k] = x.sh[k]
             \/ y.sh[k] = 0 /\ \E i \in 1..Len(line.cl) :
                                 <<line.cl[i][1], line.cl[i][2], line.cl[i][3]>> = <<"s", k[1], k[2]>>
             \/ line.o = "exit" /\ line.th = 0 /\ y.sh[k] = line.s
          /\ \/ y.dh[k] = x.dh[k]
             \/ y.dh[k] = 0 /\ \E i \in 1..Len(line.cl) :
                                 <<line.cl[i][1], line.cl[i][2], line.cl[i][3]>> = <<"d", k[1], k[2]>>
             \/ line.o = "exit" /\ line.th = 0 /\ y.dh[k] = line.s

-----------------------------------------------------------------------------
(* Properties of the state between two API calls                           *)
IdleBad(g, x) ==
  IF ~(x.k = <<>> /\ x.ex) THEN {}
  ELSE (IF WellFormed(x) THEN {} ELSE {"C01"})
       \cup (IF Quiet(x) THEN {} ELSE {"C13"})
       \cup (IF g.last \in {"I", "P", "threw"} => x.q = <<>> THEN {} ELSE {"C05"})
       \cup (IF \A s \in States : g.life[s] = (IF s \in x.alive THEN 1 ELSE 0)
             THEN {} ELSE {"C03"})
       \cup (IF g.last = "threw" /\ x.alive = {} =>
                  x.q = <<>> /\ x.dq = <<>> /\ x.sh = EmptyHist /\ x.dh = EmptyHist
             THEN {} ELSE {"C12"})

AlwaysBad(x) ==
  (IF Nested(x) /\ OnePerRegion(x) THEN {} ELSE {"C03"})
  \cup (IF DeferOk(x) THEN {} ELSE {"C06"})
  \cup (IF HistOk(x) THEN {} ELSE {"C08"})

StepBad(g, x, line, y) ==
  LET o == line.o IN
  (CASE o = "enter" -> (IF g.life[line.s] = 0 /\ (Par(line.s) = 0 \/ g.life[Par(line.s)] = 1)
                        THEN {} ELSE {"C03"})
                       \cup (IF LogOk(g.log, "enter", line.s) THEN {} ELSE {"C02"})
     [] o = "exit"  -> (IF g.life[line.s] = 1 /\ \A t \in Kids(line.s) : g.life[t] = 0
                        THEN {} ELSE {"C03"})
                       \cup (IF LogOk(g.log, "exit", line.s) THEN {} ELSE {"C02"})
                       \* no exit() while an exception is being handled
                       \cup (IF x.full THEN {} ELSE {"C11"})
     [] o = "dtor"  -> (IF g.life[line.s] # 0 /\ \A t \in Kids(line.s) : g.life[t] = 0
                        THEN {} ELSE {"C03"})
                       \* exit() left out only when discarding
                       \cup (IF g.life[line.s] = 2 \/ ~x.xf \/ x.exc # 0 THEN {} ELSE {"C03"})
     [] o = "act"   -> (IF Head(x.k)[1] = "insr" \/ LogOk(g.log, "act", line.s) THEN {} ELSE {"C02"})
     [] o = "uncons" -> IF \E i \in 1..Len(g.log) : g.log[i][1] \in {"exit", "enter", "act", "insr"}
                        THEN {"C04"} ELSE {}
     [] OTHER -> {})
  \cup (IF Conserved(x, line, y) THEN {} ELSE {"C05"})
  \cup (IF FifoOk(x, line, y) THEN {} ELSE {"C06"})
  \cup (IF HistStepOk(x, line, y) THEN {} ELSE {"C09"})

Ghost(g, x, line, y) ==
  LET o    == line.o
      life == CASE o = "enter" /\ line.th = 0 -> [g.life EXCEPT ![line.s] = 1]
                [] o = "exit" -> [g.life EXCEPT ![line.s] = 2]
                [] o = "dtor" -> [g.life EXCEPT ![line.s] = 0]
                [] OTHER -> g.life
      log  == IF y.nd # x.nd \/ o \in {"I", "T", "P", "D", "ret", "threw", "gone"} THEN <<>>
              ELSE IF o \in {"enter", "exit"} THEN Append(g.log, <<o, line.s>>)
              ELSE IF o = "act" THEN Append(g.log, <<Head(x.k)[1], line.s>>)
              ELSE g.log
      last == CASE o \in {"I", "P", "T", "D", "Q"} -> o
                [] o = "uncons" /\ line.th # 0 -> "uncons"
                [] o = "ret" -> g.last
                [] o = "threw" -> IF g.last = "uncons" THEN "uncons" ELSE "threw"
                [] OTHER -> g.last
      g1   == [life |-> life, log |-> log, last |-> last, bad |-> {}]
  IN [g1 EXCEPT !.bad = StepBad(g, x, line, y) \cup AlwaysBad(y) \cup IdleBad(g1, y)]
=============================================================================

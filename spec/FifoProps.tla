----------------------------- MODULE FifoProps -----------------------------
(***************************************************************************)
(* Properties C17..C20 as monitors over what is observable: queueing calls *)
(* (invoked, returned), runs, callbacks.  They know nothing about how      *)
(* Fifo.tla performs its steps.                                            *)
(* g.calls: per call of the history, in order of invocation,               *)
(*   [k, p, a, m, t, pre]: pre = calls that had returned when it was invoked  *)
(* g.retd : calls that have returned;  g.open[t]: call in progress of t    *)
(* g.done : calls whose effect reached user code                           *)
(* g.n, g.lim, g.rb: callbacks begun in the present run, its limit, and    *)
(*   the calls that had returned when it began;  g.life[p]: 0 not there,   *)
(*   1 constructed, 2 destroyed, 3 constructor threw                       *)
(***************************************************************************)
EXTENDS Fifo

GhostInit == [calls |-> <<>>, retd |-> {}, open |-> [t \in Threads |-> 0], done |-> {},
              n |-> 0, lim |-> 0, rb |-> {}, life |-> <<>>, cb |-> "none", cbp |-> 0, mach |-> {}, bad |-> {}]

Direct == {"work", "ctor", "init", "ev", "term", "dtor"}
KindOf(cbk) == CASE cbk = "ctor" -> "create" [] cbk = "dtor" -> "destroy" [] OTHER -> cbk

\* calls that can be the cause of callback (k, p, a)
Causes(g, k, p, a) ==
  {i \in 1..Len(g.calls) : /\ i \notin g.done
                           /\ g.calls[i].k = KindOf(k) /\ g.calls[i].p = p
                           /\ k \in {"work", "ev"} => g.calls[i].a = a}
\* calls which must have had their effect before call i has, if they have any:
\* those addressed to the same processor, and all plain work items
MustPrecede(g, i) == {j \in g.calls[i].pre : j \notin g.done /\
                        (\/ g.calls[j].k \in {"work", "bulk"}
                         \/ g.calls[j].k = "create")}

Ghost(g0, x, line, y) ==
  LET g == [g0 EXCEPT !.bad = {}]
      o == line.o
  IN CASE o = "call" ->
            [g EXCEPT !.calls = Append(@, [k |-> line.op, p |-> line.p, a |-> line.a, m |-> line.m, t |-> line.t, pre |-> g.retd]),
                      !.open[line.t] = Len(g.calls) + 1,
                      !.life = IF line.op = "create" THEN Append(@, 0) ELSE @,
                      !.mach = IF line.op = "create" /\ line.m = 1 THEN @ \cup {line.p} ELSE @]
       [] o = "ret" -> [g EXCEPT !.retd = @ \cup {g.open[line.t]}, !.open[line.t] = 0]
       [] o = "run" -> [g EXCEPT !.n = 0, !.lim = line.n, !.rb = g.retd]
       [] o = "cb" ->
            LET k == line.k
                direct == k \in Direct /\ ~x.kill
                cs == Causes(g, k, line.p, line.a)
                i  == CHOOSE i \in cs : \A j \in cs : i <= j
                pr == IF line.p = 0 THEN 1 ELSE g.life[line.p]
                lifeBad == IF k = "ctor" THEN pr # 0 ELSE IF k = "sdtor" THEN pr \notin {1, 2}
                           ELSE line.p # 0 /\ pr # 1
            IN [g EXCEPT !.done = IF direct /\ cs # {} THEN @ \cup {i} ELSE @,
                         !.n = IF direct THEN @ + 1 ELSE @,
                         !.cb = k, !.cbp = line.p,
                         !.life = IF k = "dtor" /\ line.p \in DOMAIN @ THEN [@ EXCEPT ![line.p] = 2] ELSE @,
                         !.bad = (IF direct /\ cs = {} THEN {"C18"} ELSE {})
                            \cup (IF direct /\ cs # {} /\ k \in {"work", "ctor"} /\ MustPrecede(g, i) # {}
                                  THEN {"C17"} ELSE {})
                            \cup (IF g.lim # 0 /\ direct /\ g.n + 1 > g.lim THEN {"C17"} ELSE {})
                            \cup (IF lifeBad THEN {"C19"} ELSE {})]
       [] o = "bulk" ->
            LET cs == {i \in 1..Len(g.calls) : g.calls[i].k = "bulk" /\ g.calls[i].a = line.a /\ i \notin g.done}
                i  == CHOOSE i \in cs : TRUE
            IN [g EXCEPT !.n = @ + line.n,
                         !.done = IF cs # {} /\ line.p + line.n = g.calls[i].m THEN @ \cup {i} ELSE @,
                         !.bad = (IF cs = {} \/ line.p + line.n > g.calls[i].m THEN {"C18"} ELSE {})
                            \cup (IF cs # {} /\ MustPrecede(g, i) # {} THEN {"C17"} ELSE {})
                            \cup (IF g.lim # 0 /\ g.n + line.n > g.lim THEN {"C17"} ELSE {})]
       [] o = "ce" ->
            [g EXCEPT !.life = IF g.cb = "ctor" THEN [@ EXCEPT ![g.cbp] = IF line.th = 0 THEN 1 ELSE 3] ELSE @]
       [] o = "ran" ->
            [g EXCEPT !.bad = (IF line.n < g.n \/ (g.lim # 0 /\ line.n > g.lim) THEN {"C17"} ELSE {})
              \* nothing whose queueing had returned when the run began is left over
              \cup (IF ~line.tm /\ line.n # g.lim /\
                       \E i \in 1..Len(g.calls) : i \in g.rb \ g.done /\ g.calls[i].k \in {"work", "bulk", "create"}
                    THEN {"C18"} ELSE {})]
       [] o = "gone" -> [g EXCEPT !.bad = IF \E p \in DOMAIN g.life : g.life[p] = 1 THEN {"C20"} ELSE {}]
       [] OTHER -> g
=============================================================================

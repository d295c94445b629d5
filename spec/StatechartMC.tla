---------------------------- MODULE StatechartMC ----------------------------
(***************************************************************************)
(* Exhaustive exploration of Statechart.tla for given (small) charts: all  *)
(* API calls in every order, and in every call all decisions of user code  *)
(* (outcomes of custom reactions; up to BUDGET throws, posts or history    *)
(* clears per call).  All properties of StatechartProps are checked on     *)
(* every transition.  With SCRIPTS=1 every explored transition that ends   *)
(* an API call or spends budget is printed as a script of calls and decisions, which the    *)
(* harness replays on the real library (the recorded traces are then       *)
(* validated with StatechartTrace).                                        *)
(* Environment: CHARTS, BUDGET, what budget may be spent on: KT throws,     *)
(* KP posts, KK posts of an event object that is kept and used again, KC    *)
(* history clears, KO posts and clears between calls, MAXQ                  *)
(* (deferred and queued events), SCRIPTS.                             *)
(***************************************************************************)
EXTENDS StatechartProps

VARIABLES g, b, path

vars == <<c, m, g, b, path>>

Budget  == atoi(IOEnv.BUDGET)
MaxQ    == atoi(IOEnv.MAXQ)
Scripts == IOEnv.SCRIPTS = "1"
Kind(k) == CASE k = "t" -> IOEnv.KT = "1" [] k = "p" -> IOEnv.KP = "1"
             [] k = "c" -> IOEnv.KC = "1" [] k = "o" -> IOEnv.KO = "1"
             [] k = "k" -> IOEnv.KK = "1"

\* posts to choose from
Posts == (IF Kind("p") THEN {<<t, 0, 0>> : t \in 1..C.nev} ELSE {})
         \cup (IF Kind("k") THEN {<<t, 0, 3>> : t \in 1..C.nev} ELSE {})
         \cup (IF Kind("k") /\ m.kp.t # 0 THEN {<<m.kp.t, 0, 4>>} ELSE {})

Z(x) == [x EXCEPT !.oc = 0, !.nd = 0]

Clears == {<<"s", k[1], k[2]>> : k \in {k \in HistKeys : HasShallow(k[1]) /\ k[2] < Len(Regions(k[1]))}}
     \cup {<<"d", k[1], k[2]>> : k \in {k \in HistKeys : HasDeep(k[1]) /\ k[2] < Len(Regions(k[1]))}}

\* what user code may do besides picking an outcome: <<th, ps, cl, cost>>
Extras(item) ==
  LET op == item[1]
      simpleCtor == op = "enter" /\ C.simple[item[2]]
  IN {<<0, <<>>, <<>>, 0>>}
     \cup (IF b > 0 /\ op # "dtor" /\ Kind("t") THEN {<<x, <<>>, <<>>, 1>> : x \in IF C.mixed THEN {1, 2, 3} ELSE {1}} ELSE {})
     \cup (IF b > 0 /\ op # "dtor" /\ ~simpleCtor
           THEN {<<0, <<p>>, <<>>, 1>> : p \in Posts} ELSE {})
     \cup (IF b > 0 /\ op # "dtor" /\ ~simpleCtor /\ Kind("c")
           THEN {<<0, <<>>, <<cl>>, 1>> : cl \in Clears} ELSE {})

Ops(item) == IF item[1] = "react" THEN 1..Len(C.rx[item[3]][item[4]].opts) ELSE {1}

SubTok(d) == ":" \o (IF d.ps = <<>> THEN "-" ELSE ToString(d.ps[1][1]) \o "." \o ToString(d.ps[1][3])) \o ":" \o
            (IF d.cl = <<>> THEN "-"
             ELSE d.cl[1][1] \o "." \o ToString(d.cl[1][2]) \o "." \o ToString(d.cl[1][3]))
Token(d) == " d:" \o ToString(d.op) \o ":" \o ToString(d.th) \o SubTok(d)

LineFor(item, d) ==
  [o |-> IF item[1] = "insr" THEN "act" ELSE item[1],
   s |-> CASE item[1] \in {"react"} -> item[3]
           [] item[1] \in {"uncons", "ret", "threw", "gone"} -> 0
           [] OTHER -> item[2],
   th |-> d.th, ps |-> d.ps, cl |-> d.cl]

Do(S, line, tok) == \E y \in S :
  /\ m' = Z(y)
  /\ g' = Ghost(g, m, line, y)
  /\ path' = path \o tok
  /\ UNCHANGED c

Call(o, S, tok) == /\ Idle(m) /\ b' = Budget
                   /\ Do(S, [o |-> o, s |-> 0, th |-> 0, ps |-> <<>>, cl |-> <<>>], tok)

Initiate  == Call("I", CallInitiate(m), " I")
Terminate == Call("T", CallTerminate(m), " T")
Process   == \E t \in 1..C.nev : Call("P", CallProcess(m, t, 0, FALSE, FALSE),
                                      " P:" \o ToString(t) \o ":0")
Again     == /\ Kind("k") /\ m.kp.t # 0
             /\ Call("P", CallProcess(m, 0, 0, TRUE, TRUE), " K")
\* one post or clear between two calls
Outside == /\ Kind("o") /\ Idle(m) /\ b = Budget /\ b' = b - 1
           /\ \E d \in {[NoDec EXCEPT !.ps = <<p>>] : p \in Posts}
                       \cup {[NoDec EXCEPT !.cl = <<cl>>] : cl \in IF Kind("c") THEN Clears ELSE {}} :
                Do(CallOutside(m, d), [o |-> "Q", s |-> 0, th |-> 0, ps |-> d.ps, cl |-> d.cl],
                   " Q" \o SubTok(d))
Delete    == Call("D", CallDelete(m), " D")

Callback(op) ==
  /\ m.k # <<>> /\ Head(m.k)[1] = op
  /\ \E x \in Extras(Head(m.k)), o \in Ops(Head(m.k)) :
       LET d == [th |-> x[1], ps |-> x[2], cl |-> x[3], op |-> o]
       IN /\ b' = b - x[4]
          /\ Do(Step(m, d), LineFor(Head(m.k), d), IF op = "dtor" THEN "" ELSE Token(d))

Finish(op) ==
  /\ m.k # <<>> /\ Head(m.k)[1] = op /\ b' = Budget
  /\ Do(Step(m, NoDec), LineFor(Head(m.k), NoDec), "")

Enter == Callback("enter")
Exit == Callback("exit")
Destroy == Callback("dtor")
Action == Callback("act")
InState == Callback("insr")
React == Callback("react")
Unconsumed == Callback("uncons")
Return == Finish("ret")
Threw == Finish("threw")
Gone == Finish("gone")

\* no decision of user code
Hint == /\ m.k # <<>> /\ Head(m.k)[1] \in {"dfr", "dsc"} /\ b' = b
        /\ Do(Step(m, NoDec), LineFor(Head(m.k), NoDec), "")

Init == /\ c \in 1..Len(Charts)
        /\ m = Fresh /\ g = GhostInit /\ b = Budget
        /\ path = "SCRIPT " \o ToString(c)

Next == Initiate \/ Terminate \/ Process \/ Again \/ Outside \/ Delete \/ Enter \/ Exit \/ Destroy
        \/ Action \/ InState \/ React \/ Unconsumed \/ Hint \/ Return \/ Threw \/ Gone

MCSpec == Init /\ [][Next]_vars

Bounded == Len(m.q) + Len(m.dq) <= MaxQ

Checked == /\ g'.bad = {} \/ PrintT(<<"PROP", c, g'.bad, path'>>)
           /\ ~(Scripts /\ (m'.k = <<>> \/ b' < b)) \/ PrintT(path')

View == <<c, m, b>>
=============================================================================

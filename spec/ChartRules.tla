----------------------------- MODULE ChartRules -----------------------------
(***************************************************************************)
(* Which charts are valid, i.e. have to compile, and which mistakes have   *)
(* to be rejected by the compiler (C21).  A chart is built step by step:   *)
(* first its states, then the inner initial list of each, then transitions *)
(* and clear-history calls.  Every completed chart with at most BAD broken *)
(* rules is printed; lib/accept.py turns each into C++.                    *)
(*                                                                         *)
(* c.up[i]   outer state (0: the machine), always smaller than i           *)
(* c.reg[i]  orthogonal region of the outer state it declares to be in     *)
(* c.hist[i] history it declares: "none", "shallow", "deep", "full"        *)
(* c.init[i] inner initial list: records [s, h], h as in hist (no "full")  *)
(* c.root    initial state of the machine                                  *)
(* c.tr      transitions [s, t, h, a]: h: to the state t or to a history   *)
(*           with default t; a: class of the action, -1 no action          *)
(* c.cl      calls clear_<h>_history<s, r>()                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Env(n, d) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE d
N     == Env("N", 4)         \* states
BAD   == Env("BAD", 1)       \* rules broken at most
TR    == Env("TR", 1)        \* transitions at most
CL    == Env("CL", 1)        \* clear calls at most
MAXR  == Env("MAXR", 2)      \* regions at most
WANT  == IF "WANT" \in DOMAIN IOEnv THEN IOEnv.WANT ELSE "any"   \* only this rule
RELAX == Env("RELAX", 0) = 1 \* BOOST_STATECHART_RELAX_TRANSITION_CONTEXT

VARIABLES c, ph, at          \* the chart, the phase of its construction

States == 1..c.n
RECURSIVE Above(_, _)
Above(ch, i) == IF i = 0 THEN {} ELSE {ch.up[i]} \cup Above(ch, ch.up[i])   \* contexts, with the machine
Deep(h) == h \in {"deep", "full"}
Has(h, want) == want = "none" \/ h = want \/ h = "full"
InheritsDeep(ch, i) == \E a \in Above(ch, i) \ {0} : Deep(ch.hist[a])

\* innermost state (or the machine) enclosing both; the source is always left
Common(ch, s, t) == CHOOSE a \in Above(ch, s) \cap Above(ch, t) :
                      \A b \in Above(ch, s) \cap Above(ch, t) : b <= a
RECURSIVE ChildToward(_, _, _)
ChildToward(ch, a, i) == IF ch.up[i] = a THEN i ELSE ChildToward(ch, a, ch.up[i])

Regions(ch, i) == Len(ch.init[i])

(* The rules, each as the set of places that break it.  `lists': states     *)
(* whose inner initial list is complete.                                    *)
NoSuchRegion(ch, lists) ==
  {<<"NoSuchRegion", i>> : i \in {j \in 1..ch.n : ch.up[j] \in lists /\ ch.reg[j] >= Regions(ch, ch.up[j])}}
WrongInner(ch) ==
  UNION {{<<"WrongInner", i, r>> : r \in {q \in 1..Len(ch.init[i]) :
            LET e == ch.init[i][q] IN ch.up[e.s] # i \/ ch.reg[e.s] # q - 1}} : i \in 1..ch.n}
NoHistory(ch) ==
  UNION {{<<"NoHistory", i, r>> : r \in {q \in 1..Len(ch.init[i]) :
            LET e == ch.init[i][q] IN ch.up[e.s] = i /\ ~Has(ch.hist[i], e.h)}} : i \in 1..ch.n}
NoTargetHistory(ch) ==
  {<<"NoTargetHistory", k>> : k \in {j \in 1..Len(ch.tr) :
     LET u == ch.up[ch.tr[j].t]
     IN ch.tr[j].h # "none" /\ (u = 0 \/ ~Has(ch.hist[u], ch.tr[j].h))}}
DeepOrtho(ch) ==
  {<<"DeepOrtho", i>> : i \in {j \in 1..ch.n : Regions(ch, j) >= 2 /\ InheritsDeep(ch, j)}}
WrongRoot(ch) == IF ch.root # 0 /\ ch.up[ch.root] # 0 THEN {<<"WrongRoot", ch.root>>} ELSE {}
CrossRegion(ch) ==
  {<<"CrossRegion", k>> : k \in {j \in 1..Len(ch.tr) :
     LET x == ch.tr[j]
         a == Common(ch, x.s, x.t)
     IN ch.reg[ChildToward(ch, a, x.s)] # ch.reg[ChildToward(ch, a, x.t)]}}
\* relaxed: also the source and its contexts
WrongAction(ch) ==
  {<<"WrongAction", k>> : k \in {j \in 1..Len(ch.tr) :
     LET x == ch.tr[j]
         a == Common(ch, x.s, x.t)
     IN x.a # -1 /\ x.a \notin ({a} \cup Above(ch, a))
        /\ ~(RELAX /\ x.a \in ({x.s} \cup Above(ch, x.s)))}}
NoClear(ch) ==
  {<<"NoClear", k>> : k \in {j \in 1..Len(ch.cl) : ~Has(ch.hist[ch.cl[j].s], ch.cl[j].h)}}

Broken(ch, lists) == NoSuchRegion(ch, lists) \cup WrongInner(ch) \cup NoHistory(ch) \cup DeepOrtho(ch)
                     \cup WrongRoot(ch) \cup NoTargetHistory(ch) \cup CrossRegion(ch) \cup WrongAction(ch) \cup NoClear(ch)
Valid(ch) == Broken(ch, 1..ch.n) = {}

-----------------------------------------------------------------------------
Blank == [n |-> 0, up |-> <<>>, reg |-> <<>>, hist |-> <<>>, init |-> <<>>, root |-> 0,
          tr |-> <<>>, cl |-> <<>>]

Init == c = Blank /\ ph = "states" /\ at = 0

Few(b) == Cardinality(b) <= BAD /\ (WANT = "any" \/ \A x \in b : x[1] = WANT)
Go(ch, p, a) == /\ c' = ch /\ ph' = p /\ at' = a
                /\ Few(Broken(ch, CASE p = "states" -> {} [] p = "lists" -> 1..(a - 1) [] OTHER -> 1..ch.n))

AddState ==
  /\ ph = "states" /\ c.n < N
  /\ \E u \in 0..c.n, r \in 0..(MAXR - 1), h \in {"none", "shallow", "deep", "full"} :
       /\ u = 0 => r = 0
       /\ Go([c EXCEPT !.n = @ + 1, !.up = Append(@, u), !.reg = Append(@, r),
                       !.hist = Append(@, h), !.init = Append(@, <<>>)], "states", 0)
Root == /\ ph = "states" /\ c.n >= 1
        /\ \E i \in 1..c.n : Go([c EXCEPT !.root = i], "lists", 1)
AddInner ==
  /\ ph = "lists" /\ at <= c.n /\ Len(c.init[at]) < MAXR
  /\ \E i \in 1..c.n, h \in {"none", "shallow", "deep"} :
       /\ i # at
       /\ Go([c EXCEPT !.init[at] = Append(@, [s |-> i, h |-> h])], "lists", at)
NextList == /\ ph = "lists"
            /\ IF at < c.n THEN Go(c, "lists", at + 1) ELSE Go(c, "trans", 0)
AddTrans ==
  /\ ph = "trans" /\ Len(c.tr) < TR
  /\ \E s \in States, t \in States, h \in {"none", "shallow", "deep"} : \E a \in -1..s :
       Go([c EXCEPT !.tr = Append(@, [s |-> s, t |-> t, h |-> h, a |-> a])], "trans", 0)
AddClear ==
  /\ ph = "trans" /\ Len(c.cl) < CL
  /\ \E s \in {i \in States : c.init[i] # <<>>}, h \in {"shallow", "deep"} :
       \E r \in 1..Len(c.init[s]) :
         Go([c EXCEPT !.cl = Append(@, [s |-> s, r |-> r - 1, h |-> h])], "trans", 0)
Finish == ph = "trans" /\ Go(c, "done", 0)

Next == AddState \/ Root \/ AddInner \/ NextList \/ AddTrans \/ AddClear \/ Finish
vars == <<c, ph, at>>
Spec == Init /\ [][Next]_vars

Rules(ch) == {b[1] : b \in Broken(ch, 1..ch.n)}
Emit == (ph = "done" /\ (WANT = "any" \/ Rules(c) = {WANT})) =>
          PrintT("CHART " \o ToJson([c |-> c, broken |-> Rules(c)]))

-----------------------------------------------------------------------------
(* What the rules are for: in a valid chart every way of entering a state   *)
(* yields a well formed configuration.  Fill(i): a state with its initial   *)
(* states; Enter(t, a): the states entered by a transition to t out of a.   *)
RECURSIVE Fill(_, _)
Fill(ch, i) == {i} \cup UNION {Fill(ch, ch.init[i][r].s) : r \in 1..Len(ch.init[i])}
RECURSIVE Enter(_, _, _)
Enter(ch, a, t) ==
  IF ch.up[t] = a THEN Fill(ch, t)
  ELSE LET u == ch.up[t]
       IN (Enter(ch, a, u) \ Fill(ch, ch.init[u][ch.reg[t] + 1].s)) \cup Fill(ch, t)
OneEach(ch, C) ==       \* exactly one state of each region of each active state
  \A i \in C : \A r \in 0..(Regions(ch, i) - 1) :
    Cardinality({j \in C : ch.up[j] = i /\ ch.reg[j] = r}) = 1
Placed(ch, C) == \A i \in C : ch.up[i] = 0 \/ ch.up[i] \in C

Sane == (ph = "done" /\ Valid(c)) =>
          /\ LET C == Fill(c, c.root) IN OneEach(c, C) /\ Placed(c, C)
          /\ \A s, t \in States :
               LET a == Common(c, s, t)
                   C == Enter(c, a, t)
               IN /\ OneEach(c, C)
                  /\ \A i \in C : i = ChildToward(c, a, t) \/ c.up[i] \in C
          \* a deep history remembers a single innermost state
          /\ \A i \in States : Deep(c.hist[i]) =>
               \A r \in 1..Regions(c, i) :
                 LET leafs == {j \in Fill(c, c.init[i][r].s) : Regions(c, j) = 0}
                 IN Cardinality(leafs) = 1
=============================================================================

----------------------------- MODULE Statechart -----------------------------
(***************************************************************************)
(* Executable specification of the synchronous part of Boost.Statechart:   *)
(* simple_state / state / state_machine / transition / custom_reaction /   *)
(* deferral / termination / in_state_reaction / history / events /         *)
(* exception translators.                                                  *)
(*                                                                         *)
(* A statechart is data (a record of Charts, read from JSON, see           *)
(* lib/charts.py); the machine is a record m.  Work still to be done by    *)
(* the current API call is an agenda m.k (a stack of items, top first).    *)
(* Items fall in two classes:                                              *)
(*  - observable items (ObsOps): a call from the library into user code    *)
(*    (state constructor, exit(), destructor, transition action, custom    *)
(*    reaction, in-state reaction, unconsumed_event) or the return of an   *)
(*    API call.  User code makes a decision there: it may throw, post      *)
(*    events, clear history, and a custom reaction picks its outcome.      *)
(*  - silent items: what the library does between two such calls.          *)
(* Norm(m) runs silent items until an observable item (or nothing) is on   *)
(* top; Step(m, d) performs the observable item on top with decision d.    *)
(* Both return sets of machines because the order in which innermost       *)
(* states are tried for a reaction is arbitrary (reference, 944).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Charts == JsonDeserialize(IOEnv.CHARTS)

\* Note(x, t) is always TRUE.  The trace checker collects the situations t
\* that the recorded executions went through (coverage of the specification).
CONSTANT Note(_, _)
NoNote(x, t) == TRUE

VARIABLES c,   \* index of the chart this behaviour is about
          m    \* the machine

C == Charts[c]

-----------------------------------------------------------------------------
(* Static structure of a chart.  State 0 is the state machine itself.      *)

RECURSIVE AncOf(_, _)
AncOf(ch, s) == IF s = 0 THEN <<>> ELSE <<ch.par[s]>> \o AncOf(ch, ch.par[s])

\* proper contexts of every state, innermost first, ending with the machine
AncTab == [i \in 1..Len(Charts) |->
             [s \in 1..Charts[i].n |-> AncOf(Charts[i], s)]]
KidTab == [i \in 1..Len(Charts) |->
             [s \in 0..Charts[i].n |->
                {x \in 1..Charts[i].n : Charts[i].par[x] = s}]]

States    == 1..C.n
Par(s)    == C.par[s]
Anc(s)    == AncTab[c][s]
AncSet(s) == Range(Anc(s))
Kids(s)   == KidTab[c][s]
Regions(s) == C.inner[s]                    \* one entry per orthogonal region
Simple(s)  == C.inner[s] = <<>>             \* an innermost (leaf) state
HasShallow(s) == s # 0 /\ C.hist[s] \in {"shallow", "full"}
HasDeep(s)    == s # 0 /\ C.hist[s] \in {"deep", "full"}
HistKeys == {<<s, r>> : s \in {x \in States : C.hist[x] # "none"},
                        r \in 0..C.maxreg}
EmptyHist == [k \in HistKeys |-> 0]

\* path from (excluding) context a down to (including) s
PathDown(a, s) == LET up  == Anc(s)
                      pos == CHOOSE i \in 1..Len(up) : up[i] = a
                  IN Reverse(<<s>> \o SubSeq(up, 1, pos - 1))

\* innermost proper context of both s and d (transit always leaves s)
Common(s, d) == LET up == Anc(s)
                    i  == CHOOSE i \in 1..Len(up) :
                             /\ up[i] \in AncSet(d)
                             /\ \A j \in 1..(i-1) : up[j] \notin AncSet(d)
                IN up[i]

-----------------------------------------------------------------------------
(* Events: t type, id identity given by the user, o object number,          *)
(* g generation (number of copies made so far), h reference-counted object. *)
NoEv  == [t |-> 0, id |-> 0, o |-> 0, g |-> 0, h |-> FALSE]
\* exception x is translated to an event of this type (0: not at all)
ExcType(x) == IF ~C.translator THEN 0
              ELSE IF ~C.mixed \/ x % 3 = 1 THEN C.exct
              ELSE IF x % 3 = 2 THEN C.exct + 1 ELSE 0
ExcEv(x) == [t |-> ExcType(x), id |-> -1, o |-> 0, g |-> 0, h |-> FALSE]

\* A by-reference event that must outlive the call is copied, unless it is
\* already reference counted, in which case it is shared.
Keep(e, o) == IF e.h THEN e ELSE [e EXCEPT !.g = @ + 1, !.h = TRUE, !.o = o]

-----------------------------------------------------------------------------
Fresh == [ ex    |-> TRUE,            \* the machine object exists
           alive |-> {},              \* state objects alive
           unst  |-> 0,               \* outermost unstable state (0: stable)
           ico   |-> FALSE,           \* next state entered decides stability
           full  |-> TRUE,            \* exits call exit() & save history
           xf    |-> TRUE,            \*  ... the same for the current exit
           held  |-> {},              \* contexts an ongoing transition needs
           q     |-> <<>>,            \* event queue
           dq    |-> <<>>,            \* deferred events
           dfl   |-> {},              \* states that deferred an event
           sh    |-> EmptyHist, dh |-> EmptyHist,
           trig  |-> NoEv,            \* triggering event
           kp    |-> NoEv,            \* event object the user keeps a pointer to
           cur   |-> 0,               \* innermost state being tried
           res   |-> "none",          \* result of the last reaction
           exc   |-> 0,               \* exception in flight
           oc    |-> 0,               \* event objects created by the library
           nd    |-> 0,               \* events dispatched so far (monitors only)
           k     |-> <<>> ]

AliveKids(x, s) == Kids(s) \cap x.alive
Outermost(x) == AliveKids(x, 0)
Leaves(x)    == {s \in x.alive : AliveKids(x, s) = {}}

\* leaves below (or equal to) s in the order they are exited:
\* highest region first
RECURSIVE LeafSeq(_, _)
LeafSeq(x, s) ==
  LET ks == SetToSortSeq(AliveKids(x, s), LAMBDA a, b : C.reg[a] > C.reg[b])
  IN IF ks = <<>> THEN <<s>>
     ELSE FlattenSeq([i \in 1..Len(ks) |-> LeafSeq(x, ks[i])])

-----------------------------------------------------------------------------
(* Agenda builders                                                          *)

RegionItems(s, lo, hi) == [i \in 1..(hi - lo + 1) |-> <<"region", s, lo + i - 1>>]
DeepItems(s) == <<<<"enter", s>>>> \o RegionItems(s, 0, Len(Regions(s)) - 1)

\* hk: the end of the path is a plain state, or a "shallow" or "deep" history
\* with that state as default
RECURSIVE PathItems(_, _)
PathItems(p, hk) ==
  IF Len(p) = 1
  THEN IF hk = "plain" THEN DeepItems(p[1]) ELSE <<<<"history", p[1], hk>>>>
  ELSE <<<<"enter", p[1]>>>>
       \o RegionItems(p[1], 0, C.reg[p[2]] - 1)
       \o PathItems(Tail(p), hk)
       \o RegionItems(p[1], C.reg[p[2]] + 1, Len(Regions(p[1])) - 1)

\* position of transition context tc among <<s, contexts of s...>>, from 0
TcPos(s, tc) == IF tc = s THEN 0
                ELSE CHOOSE i \in 1..Len(Anc(s)) : Anc(s)[i] = tc

\* transition of s to d (hk: or to a history with default d); a = -1: no
\* action, else the state (0: the machine) whose member function is the action
TransitItems(s, d, hk, a) ==
  LET cm   == Common(s, d)
      ts   == PathDown(cm, s)[1]            \* outermost state to be exited
      act  == IF a = -1 THEN <<>> ELSE <<<<"act", a>>>>
      up   == PathItems(PathDown(cm, d), hk)
      uml  == TcPos(s, cm)
      std  == <<<<"hold", cm>>, <<"exitsub", ts>>, <<"ico">>>> \o act
      pre  == IF ~C.relax \/ a = -1 \/ TcPos(s, a) >= uml THEN std
              ELSE IF TcPos(s, a) = 0 /\ Simple(s)
              THEN act \o <<<<"hold", cm>>, <<"exitsub", ts>>, <<"ico">>>>
              ELSE <<<<"hold", cm>>, <<"hold", a>>, <<"exitsub", a>>, <<"ico">>>>
                   \o act \o <<<<"unhold", a>>, <<"exitsub", ts>>, <<"ico">>>>
  IN pre \o up \o <<<<"unhold", cm>>, <<"res", "discard">>>>

TermItems(s) == <<<<"exitsub", s>>, <<"stable">>, <<"res", "discard">>>>

DestroyItems == <<<<"kill">>, <<"clearall">>>>   \* without calling exit()

-----------------------------------------------------------------------------
\* "dfr" and "dsc": a deferral or in-state reaction asked its state to defer or
\* discard the event (user code can see it, but need not)
ObsOps == {"enter", "exit", "dtor", "act", "react", "insr", "uncons",
           "dfr", "dsc", "ret", "threw", "gone"}
FrameOps == {"endsend", "endx", "endprot"}

Push(x, items) == [x EXCEPT !.k = items \o @]

Matches(rx, e) == rx.e = 0 \/ rx.e = e.t

\* Exception x.exc leaves user code for good: the machine is terminated
\* without calling exit(), then the API call throws.
Fail(x, old) == [x EXCEPT !.held = {}, !.full = TRUE, !.nd = @ + 1,
                          !.k = DestroyItems \o <<<<"settrig", old>>, <<"threw">>>>]

\* states whose last owner disappears when the constructor/exit of s throws
RECURSIVE Unwind(_, _, _)
Unwind(x, gone, p) ==
  IF p # 0 /\ p \in x.alive /\ p # x.unst /\ (AliveKids(x, p) \ gone) = {}
  THEN <<<<"dtor", p>>>> \o Unwind(x, gone \cup {p}, Par(p))
  ELSE <<>>

Throw(x, xid, dtors) ==
  LET i == CHOOSE i \in 1..Len(x.k) :
              x.k[i][1] \in FrameOps /\ \A j \in 1..(i-1) : x.k[j][1] \notin FrameOps
  IN [x EXCEPT !.exc = xid, !.held = {},
               !.k = dtors \o <<<<"caught">>>> \o SubSeq(x.k, i, Len(x.k))]

-----------------------------------------------------------------------------
(* Situations, for coverage only: what part of which API call is going on,  *)
(* where in the chart, and how stable the machine is.                       *)
Phase(x) ==
  LET o == {x.k[i][1] : i \in 1..Len(x.k)}
  IN CASE "gone" \in o -> "delete"
       [] "threw" \in o -> "fail"
       [] "endx" \in o -> "exc"
       [] "construct" \in o -> "initexit"
       [] "endsend" \in o -> "event"
       [] "endprot" \in o /\ "drain" \in o -> "init"
       [] "endprot" \in o -> "terminate"
       [] OTHER -> "idle"
Place(x, s) ==
  (IF s = 0 THEN "machine" ELSE IF Simple(s) THEN "leaf" ELSE IF Par(s) = 0 THEN "top" ELSE "mid")
  \o (IF x.unst = 0 THEN " stable" ELSE IF x.unst = s THEN " unstable" ELSE " unstable-above")
  \o (IF Cardinality(Leaves(x)) > 1 THEN " multi" ELSE " single")
EvClass(any, e) == IF any THEN "any" ELSE IF e.id = -1 THEN "exc" ELSE "ev"
ToClass(s, d, hk, a, e) ==
  LET cm == Common(s, d) IN
  hk \o (IF cm = 0 THEN " machine" ELSE IF cm = Par(s) THEN " outer" ELSE " farther")
     \o (IF d = s THEN " self" ELSE IF d \in AncSet(s) THEN " up" ELSE IF s \in AncSet(d) THEN " down" ELSE "")
     \o (IF a = -1 THEN "" ELSE IF a = s THEN " act-self" ELSE IF a = cm THEN " act-common"
         ELSE IF TcPos(s, a) < TcPos(s, cm) THEN " act-below" ELSE " act-above")
     \o (IF e.id = -1 THEN " exc" ELSE "")
RxNote(x, s, rx, e, any) ==
  /\ Note(x, "rx " \o rx.k \o " " \o EvClass(any, e) \o " " \o Place(x, s))
  /\ rx.k # "trans" \/ Note(x, "to " \o ToClass(s, rx.d, rx.h, rx.a, e))
HowName == <<"value", "heap", "trigger", "keep", "kept">>
DecNote(x, h, d) ==
  /\ d.th = 0 \/ Note(x, "throw " \o h \o " " \o Phase(x) \o (IF ExcType(d.th) = 0 THEN " raw" ELSE " translated"))
  /\ \A i \in 1..Len(d.ps) : Note(x, "post " \o h \o " " \o Phase(x) \o " " \o HowName[d.ps[i][3] + 1])
  /\ \A i \in 1..Len(d.cl) : Note(x, "clear " \o h \o " " \o Phase(x) \o " " \o d.cl[i][1])
\* y, when the note about it has been taken
Noted(n, y) == IF n THEN y ELSE y

\* The silent step of item h, x already popped.
Silent(x, h) ==
  CASE h[1] = "region" ->          \* enter region h[3] of state h[2]
         LET en  == Regions(h[2])[h[3] + 1]
         IN {Push(x, IF en.k = "plain" THEN DeepItems(en.s) ELSE <<<<"history", en.s, en.k>>>>)}
    [] h[1] = "history" ->         \* enter the history with default h[2]
         LET p   == Par(h[2])
             key == <<p, C.reg[h[2]]>>
             has == IF h[3] = "shallow" THEN x.sh[key] # 0 ELSE x.dh[key] # 0
         IN IF ~Note(x, "history " \o h[3] \o (IF has THEN " saved " ELSE " default ") \o Phase(x)) THEN {}
            ELSE IF h[3] = "shallow" /\ x.sh[key] # 0
            THEN {Push(x, DeepItems(x.sh[key]))}
            ELSE IF h[3] = "deep" /\ x.dh[key] # 0
            THEN {Push(x, PathItems(PathDown(p, x.dh[key]), "plain"))}
            ELSE {Push(x, DeepItems(h[2]))}
    [] h[1] = "hold"   -> {[x EXCEPT !.held = @ \cup {h[2]}]}
    [] h[1] = "unhold" -> {[x EXCEPT !.held = @ \ {h[2]}]}
    [] h[1] = "ico"    -> {[x EXCEPT !.ico = TRUE]}
    [] h[1] = "stable" -> {[x EXCEPT !.unst = 0]}
    [] h[1] = "exitsub" ->
         LET ls == IF h[2] \in x.held /\ AliveKids(x, h[2]) = {} THEN <<>>
                   ELSE LeafSeq(x, h[2])
         IN {Push([x EXCEPT !.ico = FALSE, !.xf = x.full],
                  [i \in 1..Len(ls) |-> <<"exitc", ls[i]>>])}
    [] h[1] = "kill" ->            \* destroy everything without exit()
         LET ls == IF x.alive = {} THEN <<>>
                   ELSE LeafSeq(x, CHOOSE s \in Outermost(x) : TRUE)
         IN {Push([x EXCEPT !.ico = FALSE, !.xf = FALSE, !.full = TRUE],
                  [i \in 1..Len(ls) |-> <<"exitc", ls[i]>>])}
    [] h[1] = "exitall" ->         \* orderly exit of everything
         LET ls == IF x.alive = {} THEN <<>>
                   ELSE LeafSeq(x, CHOOSE s \in Outermost(x) : TRUE)
         IN {Push([x EXCEPT !.ico = FALSE, !.xf = TRUE, !.full = TRUE],
                  [i \in 1..Len(ls) |-> <<"exitc", ls[i]>>])}
    [] h[1] = "exitc" ->
         LET s == h[2]
             x1 == [x EXCEPT !.unst = IF @ = 0 \/ @ = s THEN Par(s) ELSE @]
         IN {Push(x1, (IF x.xf THEN <<<<"exit", s>>, <<"save", s>>>> ELSE <<>>)
                      \o <<<<"dtor", s>>, <<"up", Par(s)>>>>)}
    [] h[1] = "up" ->              \* an outer state without active inner
         LET p == h[2]             \* states is left as well
         IN IF p # 0 /\ p \in x.alive /\ AliveKids(x, p) = {} /\ p \notin x.held
            THEN {Push(x, <<<<"exitc", p>>>>)} ELSE {x}
    [] h[1] = "save" ->
         LET s  == h[2]
             p  == Par(s)
             s1 == IF HasShallow(p) THEN [x.sh EXCEPT ![<<p, C.reg[s]>>] = s]
                   ELSE x.sh
             ds == IF Simple(s) THEN {a \in AncSet(s) : HasDeep(a)} ELSE {}
             d1 == [k \in DOMAIN x.dh |->
                     IF k[1] \in ds /\ k[2] = C.reg[PathDown(k[1], s)[1]]
                     THEN s ELSE x.dh[k]]
         IN Noted((s1 = x.sh \/ Note(x, "save shallow " \o Phase(x))) /\ (d1 = x.dh \/ Note(x, "save deep " \o Phase(x))),
                  {[x EXCEPT !.sh = s1, !.dh = d1]})
    [] h[1] = "clearall" ->
         {[x EXCEPT !.q = <<>>, !.dq = <<>>, !.sh = EmptyHist, !.dh = EmptyHist]}
    [] h[1] = "settrig" -> {[x EXCEPT !.trig = h[2]]}
    [] h[1] = "construct" -> {Push([x EXCEPT !.nd = @ + 1], DeepItems(C.init))}
    [] h[1] = "res" -> {[x EXCEPT !.res = h[2]]}
    [] h[1] = "drain" ->
         IF x.q = <<>> THEN {x}
         ELSE {Push([x EXCEPT !.q = Tail(@)],
                    <<<<"send", Head(x.q)>>, <<"drain">>>>)}
    [] h[1] = "send" ->
         {Push([x EXCEPT !.trig = h[2], !.cur = 0, !.res = "forward", !.nd = @ + 1],
               <<<<"leaves", h[2], Leaves(x)>>, <<"endsend", h[2], x.trig>>>>)}
    [] h[1] = "leaves" ->
         \* innermost states from which no reaction is reachable do not matter
         LET cand == {l \in h[3] : \E s \in {l} \cup (AncSet(l) \ {0}) :
                        \E i \in 1..Len(C.rx[s]) : Matches(C.rx[s][i], h[2])}
         IN IF cand = {} THEN {Push([x EXCEPT !.res = "forward"], <<<<"uncons", h[2]>>>>)}
            ELSE {Push([x EXCEPT !.cur = l],
                       <<<<"rx", h[2], l, 1>>, <<"leaves", h[2], cand \ {l}>>>>)
                  : l \in cand}
    [] h[1] = "rx" ->              \* try reaction h[4] of state h[3]
         LET s == h[3]
             i == h[4]
         IN IF s = 0 THEN {[x EXCEPT !.res = "forward"]}
            ELSE IF i > Len(C.rx[s]) THEN {Push(x, <<<<"rx", h[2], Par(s), 1>>>>)}
            ELSE LET rx == C.rx[s][i] IN
              IF ~Matches(rx, h[2]) THEN {Push(x, <<<<"rx", h[2], s, i + 1>>>>)}
              ELSE
                \* whatever follows in the search is given up, except the
                \* frame that receives the result
                LET x1 == [x EXCEPT !.k = SelectSeq(@, LAMBDA it : ~(it[1] = "leaves"))]
                IN Noted(rx.k = "custom" \/ RxNote(x, s, rx, h[2], rx.e = 0),
                   CASE rx.k = "trans"  -> {Push(x1, TransitItems(s, rx.d, rx.h, rx.a))}
                     [] rx.k = "term"   -> {Push(x1, TermItems(s))}
                     [] rx.k = "defer"  -> {Push([x1 EXCEPT !.dfl = @ \cup {s}],
                                                 <<<<"dfr", s>>, <<"res", "defer">>>>)}
                     [] rx.k = "insr"   -> {Push(x1, (IF rx.a = -1 THEN <<>>
                                                      ELSE <<<<"insr", rx.a>>>>)
                                                     \o <<<<"dsc", s>>, <<"res", "discard">>>>)}
                     [] rx.k = "custom" -> {Push(x, <<<<"react", h[2], s, i>>>>)})
    [] h[1] = "endsend" ->         \* <<"endsend", event, saved trigger>>
         LET x1 == [x EXCEPT !.trig = h[3], !.cur = 0]
         IN IF x.res = "defer"
            THEN {[x1 EXCEPT !.dq = Append(@, Keep(h[2], x.oc + 1)), !.oc = @ + 1]}
            ELSE {x1}
    [] h[1] = "endprot" -> {[x EXCEPT !.trig = h[2]]}
    [] h[1] = "caught" ->
         \* An exception reached the translator or a handler's frame.
         LET f   == Head(x.k)
             old == IF f[1] = "endprot" THEN f[2] ELSE f[3]
         IN IF ~Note(x, "caught " \o f[1] \o (IF f[1] = "endx" THEN "" ELSE
                         (IF ExcType(x.exc) = 0 THEN " raw" ELSE " translated")
                         \o (IF x.alive = {} THEN " nostate" ELSE IF x.unst = 0 THEN " stable" ELSE " unstable"))) THEN {}
            ELSE IF f[1] = "endx"  \* thrown while handling an exception
            THEN LET g == x.k[2]
                 IN {Fail(x, IF g[1] = "endprot" THEN g[2] ELSE g[3])}
            ELSE IF ExcType(x.exc) = 0 \/ x.alive = {} THEN {Fail(x, old)}
            ELSE LET hs == IF x.unst = 0 THEN x.cur ELSE x.unst
                 IN {Push([x EXCEPT !.full = FALSE, !.trig = ExcEv(x.exc), !.res = "forward",
                                     !.nd = @ + 1],
                          <<<<"rx", ExcEv(x.exc), hs, 1>>, <<"endx", x.trig, x.exc>>>>)}
    [] h[1] = "endx" ->            \* end of exception event processing
         LET g  == Head(x.k)
             x1 == [x EXCEPT !.full = TRUE, !.trig = h[2], !.exc = h[3]]
         IN IF ~Note(x, "excdone " \o g[1] \o " " \o x.res \o (IF x.unst = 0 THEN " stable" ELSE " unstable")) THEN {}
            ELSE IF x.res = "discard" /\ x.unst = 0
            THEN {[x1 EXCEPT !.exc = 0, !.nd = @ + 1]}
            ELSE {Fail(x1, IF g[1] = "endprot" THEN g[2] ELSE g[3])}

Settled(x) == x.k = <<>> \/ Head(x.k)[1] \in ObsOps

RECURSIVE NormAll(_)
NormAll(S) ==
  LET todo == {x \in S : ~Settled(x)}
  IN IF todo = {} THEN S
     ELSE NormAll((S \ todo) \cup
            UNION {Silent([x EXCEPT !.k = Tail(@)], Head(x.k)) : x \in todo})

Norm(x) == NormAll({x})

-----------------------------------------------------------------------------
(* Decisions made by user code in a callback:                               *)
(*   th  0, or the number of the exception thrown                           *)
(*   ps  events posted: <<type, id, how>>, how 0 by reference to a local    *)
(*       object, 1 by pointer, 2 the triggering event itself, 3 by pointer, *)
(*       which is kept, 4 the kept one again                                *)
(*   cl  histories cleared: <<"s"|"d", state, region>>                      *)
(*   op  outcome picked by a custom reaction (index into its options)       *)
NoDec == [th |-> 0, ps |-> <<>>, cl |-> <<>>, op |-> 1]

PostOne(x, p) ==
  LET e == CASE p[3] = 0 -> [t |-> p[1], id |-> p[2], o |-> x.oc + 1, g |-> 1, h |-> TRUE]
             [] p[3] \in {1, 3} -> [t |-> p[1], id |-> p[2], o |-> x.oc + 1, g |-> 0, h |-> TRUE]
             [] p[3] = 2 -> Keep(x.trig, x.oc + 1)
             [] p[3] = 4 -> x.kp
  IN [x EXCEPT !.q = Append(@, e), !.oc = @ + 1, !.kp = IF p[3] = 3 THEN e ELSE @]

RECURSIVE PostAll(_, _)
PostAll(x, ps) == IF ps = <<>> THEN x ELSE PostAll(PostOne(x, Head(ps)), Tail(ps))

RECURSIVE ClearAll(_, _)
ClearAll(x, cl) ==
  IF cl = <<>> THEN x
  ELSE LET k == <<Head(cl)[2], Head(cl)[3]>>
       IN ClearAll(IF Head(cl)[1] = "s" THEN [x EXCEPT !.sh[k] = 0]
                   ELSE [x EXCEPT !.dh[k] = 0], Tail(cl))

User(x, d) == ClearAll(PostAll(x, d.ps), d.cl)

\* Is s the state in the highest region of its context?
Highest(s) == Par(s) = 0 \/ C.reg[s] = Len(Regions(Par(s))) - 1

\* Perform the observable item on top of the agenda.
StepRaw(x, d) ==
  LET h  == Head(x.k)
      x0 == Noted(DecNote(x, h[1], d), User([x EXCEPT !.k = Tail(@)], d))
  IN CASE h[1] = "enter" ->
            LET s == h[2] IN
            IF d.th # 0 THEN Throw(x0, d.th, Unwind(x0, {}, Par(s)))
            ELSE [x0 EXCEPT !.alive = @ \cup {s}, !.dfl = @ \ {s},
                    !.unst = IF x0.ico \/ (Highest(s) /\ x0.unst = Par(s))
                             THEN (IF Simple(s) THEN 0 ELSE s) ELSE @,
                    !.ico  = IF x0.ico \/ (Highest(s) /\ x0.unst = Par(s))
                             THEN FALSE ELSE @]
       [] h[1] = "exit" ->
            LET s == h[2] IN
            IF d.th # 0
            THEN Throw(x0, d.th, <<<<"dtor", s>>>> \o Unwind(x0, {s}, Par(s)))
            ELSE x0
       [] h[1] = "dtor" ->
            LET s  == h[2]
                x1 == [x0 EXCEPT !.alive = @ \ {s}]
            IN IF s \in x0.dfl /\ Note(x, "release " \o Phase(x) \o (IF x0.dq = <<>> THEN " none" ELSE " some")
                                          \o (IF x0.q = <<>> THEN "" ELSE " before queued"))
               THEN [x1 EXCEPT !.q = x0.dq \o @, !.dq = <<>>, !.dfl = @ \ {s}]
               ELSE x1
       [] h[1] \in {"act", "insr"} ->
            IF d.th # 0 THEN Throw(x0, d.th, <<>>) ELSE x0
       [] h[1] = "react" ->
            LET s  == h[3]
                op == C.rx[s][h[4]].opts[d.op]
                x1 == [x0 EXCEPT !.k = SelectSeq(@, LAMBDA it : ~(it[1] = "leaves"))]
            IN IF d.th # 0 THEN Throw(x0, d.th, <<>>)
               ELSE Noted(RxNote(x, s, op, h[2], C.rx[s][h[4]].e = 0),
                     CASE op.k = "discard" -> Push(x1, <<<<"res", "discard">>>>)
                      [] op.k = "forward" -> Push(x0, <<<<"rx", h[2], Par(s), 1>>>>)
                      [] op.k = "defer"   -> Push([x1 EXCEPT !.dfl = @ \cup {s}],
                                                  <<<<"res", "defer">>>>)
                      [] op.k = "term"    -> Push(x1, TermItems(s))
                      [] op.k = "trans"   -> Push(x1, TransitItems(s, op.d, op.h, op.a)))
       [] h[1] = "uncons" ->
            IF d.th # 0
            THEN LET f == Head(x0.k)     \* <<"endsend", event, saved trigger>>
                 IN [x0 EXCEPT !.exc = d.th, !.trig = f[3], !.k = <<<<"threw">>>>]
            ELSE x0
       [] h[1] \in {"dfr", "dsc"} -> x0
       [] h[1] = "ret"   -> [x0 EXCEPT !.exc = 0]
       [] h[1] = "threw" -> [x0 EXCEPT !.exc = 0, !.res = "none"]
       [] h[1] = "gone"  -> [x0 EXCEPT !.ex = FALSE]

Step(x, d) == Norm(StepRaw(x, d))

-----------------------------------------------------------------------------
(* API calls: only made when no other call is in progress.                  *)

Idle(x) == x.k = <<>> /\ x.ex

CallInitiate(x) ==
  Norm(Push([x EXCEPT !.trig = NoEv, !.res = "none"],
            <<<<"exitall">>, <<"clearall">>, <<"endprot", NoEv>>,
              <<"kill">>, <<"clearall">>,
              <<"construct">>, <<"endprot", NoEv>>, <<"drain">>, <<"ret">>>>))

CallTerminate(x) ==
  Norm(Push([x EXCEPT !.trig = NoEv, !.res = "none"],
            <<<<"exitall">>, <<"clearall">>, <<"endprot", NoEv>>, <<"ret">>>>))

\* kept: the event object the user keeps, again
CallProcess(x, t, id, heap, kept) ==
  LET e == IF kept THEN x.kp ELSE [t |-> t, id |-> id, o |-> x.oc + 1, g |-> 0, h |-> heap]
  IN Norm(Push([x EXCEPT !.oc = @ + 1],
               <<<<"send", e>>, <<"drain">>, <<"ret">>>>))

\* posts and clears outside of any call: what is posted waits for the next
\* call
CallOutside(x, d) == IF DecNote(x, "outside", d) THEN {User(x, d)} ELSE {}

CallDelete(x) == Norm(Push(x, DestroyItems \o <<<<"gone">>>>))

-----------------------------------------------------------------------------
(* What the query functions must report.                                    *)
Terminated(x) == x.alive = {}
ChainOf(s) == <<s>> \o SubSeq(Anc(s), 1, Len(Anc(s)) - 1)
ActiveChains(x) == {ChainOf(l) : l \in Leaves(x)}
LiveEvents(x) == {e.o : e \in {y \in Range(x.q) \cup Range(x.dq) \cup {x.kp} : y.h /\ y.id >= 0}}
=============================================================================

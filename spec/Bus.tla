-------------------------------- MODULE Bus --------------------------------
(***************************************************************************)
(* The bus tree of LampPost as its users see it: buses, subscribers,       *)
(* publishers, messages in publication order, and the running root bus     *)
(* that delivers one message after the other.                              *)
(*                                                                         *)
(* Every API call is a frame on its thread's call stack.  Call pushes the  *)
(* frame, a silent step (Lin) gives the call its effect at one moment      *)
(* between call and return, Ret pops it with its result.  A callback is a  *)
(* frame on top of the frame of the running start call.                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES
  bus,    \* bus id -> [n: name, p: parent or -1, up: BOOLEAN, link: BOOLEAN]
  sub,    \* subscriber id -> [b, top, cb: callback version or -1, live]
  pub,    \* publisher id -> [b, top, live]
  q,      \* root id -> sequence of published, not yet dispatched messages
  cur,    \* root id -> the message being delivered (see NoMsg)
  st      \* thread -> stack (last = innermost) of frames

vars == <<bus, sub, pub, q, cur, st>>

NoMsg == [on |-> FALSE, act |-> -1]

Init ==
  /\ bus = << >> /\ sub = << >> /\ pub = << >>
  /\ q = << >> /\ cur = << >>
  /\ st = << >>

-----------------------------------------------------------------------------
Upd(f, k, v) == (k :> v) @@ f        \* f with k set to v (k may be new)

RECURSIVE Root(_), Chain(_)
Root(b) == IF bus[b].p < 0 THEN b ELSE Root(bus[b].p)
Chain(b) == {b} \cup (IF bus[b].p < 0 THEN {} ELSE Chain(bus[b].p))

Desc(b) == {c \in DOMAIN bus : c # b /\ b \in Chain(c)}
Kids(b) == {c \in DOMAIN bus : bus[c].p = b}

Matches(s, top) == sub[s].top = top \/ sub[s].top = "/**/*"

Stack(t) == IF t \in DOMAIN st THEN st[t] ELSE << >>
Top(t) == Stack(t)[Len(Stack(t))]
HasTop(t) == Len(Stack(t)) > 0
Push(t, f) == st' = Upd(st, t, Append(Stack(t), f))
SetTop(t, f) == st' = [st EXCEPT ![t][Len(st[t])] = f]

\* Is root r being run right now (and by which thread)?
Runs(t, r) == \E i \in 1..Len(Stack(t)) : LET f == st[t][i] IN f.k = "c" /\ f.op.op = "start" /\ f.ph = "run" /\ f.op.b = r
Running(r) == \E t \in DOMAIN st : Runs(t, r)

\* Does any bus of thread t's stack have s in a callback frame?
InOwnCallback(t, s) == \E i \in 1..Len(Stack(t)) : st[t][i].k = "cb" /\ st[t][i].s = s

Active(s) == \E r \in DOMAIN cur : cur[r].on /\ cur[r].act = s

-----------------------------------------------------------------------------
(* Dispatching.  BeginDispatch is taken as soon as possible: the earlier a *)
(* dispatch begins, the fewer subscribers it obliges.                      *)

CanBegin(r) == bus[r].up /\ Running(r) /\ ~cur[r].on /\ q[r] # << >>

Reached(s, r) == Root(sub[s].b) = r /\ \A b \in Chain(sub[s].b) : bus[b].up

BeginDispatch(r) ==
  /\ CanBegin(r)
  /\ LET m == Head(q[r]) IN
     cur' = [cur EXCEPT ![r] =
       [on |-> TRUE, m |-> m, act |-> -1, got |-> {},
        must |-> {s \in DOMAIN sub : sub[s].live /\ sub[s].cb >= 0 /\ Reached(s, r) /\ Matches(s, m.top)},
        ups |-> {b \in DOMAIN bus : bus[b].up},
        cbs |-> {<<s, sub[s].cb>> : s \in {x \in DOMAIN sub : sub[x].cb >= 0}}]]
  /\ q' = [q EXCEPT ![r] = Tail(@)]
  /\ UNCHANGED <<bus, sub, pub, st>>

MustBegin == \E r \in DOMAIN cur : CanBegin(r)

EndDispatch(r) ==
  /\ cur[r].on /\ cur[r].act = -1
  /\ cur[r].must \subseteq cur[r].got
  /\ cur' = [cur EXCEPT ![r] = NoMsg]
  /\ UNCHANGED <<bus, sub, pub, q, st>>

\* Narrow the obligations of a dispatch in progress / widen its permissions.
Excuse(S) == [r \in DOMAIN cur |-> IF cur[r].on THEN [cur[r] EXCEPT !.must = @ \ S] ELSE cur[r]]
Permit(c, B, P) == [r \in DOMAIN c |-> IF c[r].on THEN [c[r] EXCEPT !.ups = @ \cup B, !.cbs = @ \cup P] ELSE c[r]]
SubsOf(B) == {s \in DOMAIN sub : sub[s].b \in B}

CbBegin(t, s, k, snd, top, v) ==
  /\ s \in DOMAIN sub
  /\ LET r == Root(sub[s].b) IN
     /\ cur[r].on /\ cur[r].act = -1
     /\ HasTop(t) /\ Top(t).k = "c" /\ Top(t).op.op = "start" /\ Top(t).ph = "run" /\ Top(t).op.b = r
     /\ cur[r].m.v = v
     /\ snd \in {"*", cur[r].m.snd}
     /\ top \in {"*", cur[r].m.top}
     /\ sub[s].live
     /\ Matches(s, cur[r].m.top)
     /\ s \notin cur[r].got
     /\ <<s, k>> \in cur[r].cbs
     /\ Chain(sub[s].b) \subseteq cur[r].ups
     /\ cur' = [cur EXCEPT ![r].act = s, ![r].got = @ \cup {s}]
  /\ Push(t, [k |-> "cb", s |-> s])
  /\ UNCHANGED <<bus, sub, pub, q>>

CbEnd(t, s) ==
  /\ HasTop(t) /\ Top(t).k = "cb" /\ Top(t).s = s
  /\ cur' = [r \in DOMAIN cur |-> IF cur[r].on /\ cur[r].act = s THEN [cur[r] EXCEPT !.act = -1] ELSE cur[r]]
  /\ st' = [st EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<bus, sub, pub, q>>

-----------------------------------------------------------------------------
(* Calls *)

\* Whether a publish call may still take effect; decided when the call begins, because both conditions only ever get lost.
CanSend(o) ==
  CASE o.op = "publish" -> o.p \in DOMAIN pub /\ pub[o.p].live /\ bus[pub[o.p].b].link
    [] o.op = "bpub" -> bus[o.b].link
    [] OTHER -> FALSE

Call(t, o) ==
  /\ Push(t, [k |-> "c", op |-> o, ph |-> "p", x |-> "", v |-> -1, can |-> CanSend(o), done |-> {}])
  /\ UNCHANGED <<bus, sub, pub, q, cur>>

Ret(t, x, v) ==
  /\ HasTop(t) /\ Top(t).k = "c" /\ Top(t).ph = "d"
  /\ Top(t).x = x
  /\ Top(t).v = v
  /\ st' = [st EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<bus, sub, pub, q, cur>>

Done(t, x, v) == SetTop(t, [Top(t) EXCEPT !.ph = "d", !.x = x, !.v = v])

LinRoot(t, o) ==
  IF o.n = ""
  THEN Done(t, "ArgumentNull", -1) /\ UNCHANGED <<bus, sub, pub, q, cur>>
  ELSE /\ bus' = Upd(bus, o.b, [n |-> o.n, p |-> -1, up |-> FALSE, link |-> TRUE])
       /\ q' = Upd(q, o.b, << >>) /\ cur' = Upd(cur, o.b, NoMsg)
       /\ Done(t, "", -1) /\ UNCHANGED <<sub, pub>>

LinRootNull(t, o) == Done(t, "ArgumentNull", -1) /\ UNCHANGED <<bus, sub, pub, q, cur>>

LinChild(t, o) ==
  LET dup == \E c \in Kids(o.p) : bus[c].n = o.n IN
  \/ /\ o.n = "" /\ Done(t, "ArgumentNull", -1) /\ UNCHANGED <<bus, sub, pub, q, cur>>
  \/ /\ o.n # "" /\ dup /\ Done(t, "DuplicateKey", -1) /\ UNCHANGED <<bus, sub, pub, q, cur>>
  \/ /\ o.n # "" /\ ~bus[o.p].link /\ Done(t, "ArgumentNull", -1) /\ UNCHANGED <<bus, sub, pub, q, cur>>
  \/ /\ o.n # "" /\ ~dup /\ bus[o.p].link
     /\ bus' = Upd(bus, o.b, [n |-> o.n, p |-> o.p, up |-> TRUE, link |-> TRUE])
     /\ cur' = Permit(cur, {o.b}, {})
     /\ Done(t, "", -1) /\ UNCHANGED <<sub, pub, q>>

LinGet(t, o) ==
  /\ IF \E c \in Kids(o.p) : bus[c].n = o.n
     THEN Done(t, "", CHOOSE c \in Kids(o.p) : bus[c].n = o.n)
     ELSE Done(t, "KeyNotFound", -1)
  /\ UNCHANGED <<bus, sub, pub, q, cur>>

LinSub(t, o) ==
  /\ sub' = Upd(sub, o.s, [b |-> o.b, top |-> o.top, cb |-> o.k, live |-> TRUE])
  /\ cur' = Permit(cur, {}, IF o.k >= 0 THEN {<<o.s, o.k>>} ELSE {})
  /\ Done(t, "", -1) /\ UNCHANGED <<bus, pub, q>>

LinSetCb(t, o) ==
  /\ sub' = IF sub[o.s].live THEN [sub EXCEPT ![o.s].cb = o.k] ELSE sub
  /\ cur' = Permit(IF o.k < 0 THEN Excuse({o.s}) ELSE cur, {}, IF o.k >= 0 THEN {<<o.s, o.k>>} ELSE {})
  /\ Done(t, "", -1) /\ UNCHANGED <<bus, pub, q>>

LinDelSub(t, o) ==
  /\ ~Active(o.s) \/ InOwnCallback(t, o.s)
  /\ sub' = [sub EXCEPT ![o.s].live = FALSE, ![o.s].cb = -1]
  /\ cur' = Excuse({o.s})
  /\ Done(t, "", -1) /\ UNCHANGED <<bus, pub, q>>

LinPub(t, o) ==
  /\ pub' = Upd(pub, o.p, [b |-> o.b, top |-> o.top, live |-> TRUE])
  /\ Done(t, "", -1) /\ UNCHANGED <<bus, sub, q, cur>>

LinDelPub(t, o) ==
  /\ pub' = [pub EXCEPT ![o.p].live = FALSE]
  /\ Done(t, "", -1) /\ UNCHANGED <<bus, sub, q, cur>>

Enqueue(b, m) == q' = [q EXCEPT ![Root(b)] = Append(@, m)]

LinPublish(t, o) ==
  LET b == pub[o.p].b IN
  \/ /\ Top(t).can
     /\ Enqueue(b, [snd |-> bus[b].n, top |-> pub[o.p].top, v |-> o.v])
     /\ Done(t, "", -1) /\ UNCHANGED <<bus, sub, pub, cur>>
  \/ /\ ~pub[o.p].live \/ ~bus[b].link
     /\ Done(t, "", -1) /\ UNCHANGED <<bus, sub, pub, q, cur>>

LinBPub(t, o) ==
  \/ /\ Top(t).can
     /\ Enqueue(o.b, [snd |-> o.snd, top |-> o.top, v |-> o.v])
     /\ Done(t, "", -1) /\ UNCHANGED <<bus, sub, pub, cur>>
  \/ /\ ~bus[o.b].link
     /\ Done(t, "", -1) /\ UNCHANGED <<bus, sub, pub, q, cur>>

LinHas(t, o) ==
  /\ Done(t, "", IF sub[o.s].live /\ sub[o.s].b = o.b THEN 1 ELSE 0)
  /\ UNCHANGED <<bus, sub, pub, q, cur>>

LinHasP(t, o) ==
  /\ Done(t, "", IF pub[o.p].live /\ pub[o.p].b = o.b THEN 1 ELSE 0)
  /\ UNCHANGED <<bus, sub, pub, q, cur>>

LinStart(t, o) ==
  /\ bus' = [bus EXCEPT ![o.b].up = TRUE]
  /\ cur' = Permit(cur, {o.b}, {})
  /\ IF bus[o.b].p < 0
     THEN SetTop(t, [Top(t) EXCEPT !.ph = "run"])
     ELSE Done(t, "", -1)
  /\ UNCHANGED <<sub, pub, q>>

\* The run call of a stopped root ends.  Messages that it had already taken out of the queue are dropped; the one that is next
\* has not necessarily been taken out if nobody got it yet.
RunEnd(t) ==
  /\ HasTop(t) /\ Top(t).k = "c" /\ Top(t).op.op = "start" /\ Top(t).ph = "run"
  /\ LET r == Top(t).op.b IN
     /\ ~bus[r].up
     /\ ~cur[r].on \/ cur[r].act = -1
     /\ LET left == (IF cur[r].on /\ cur[r].got = {} THEN <<cur[r].m>> ELSE << >>) \o q[r] IN
        \E n \in 0..Len(left) : q' = [q EXCEPT ![r] = SubSeq(left, n + 1, Len(left))]
     /\ cur' = [cur EXCEPT ![r] = NoMsg]
  /\ Done(t, "", -1) /\ UNCHANGED <<bus, sub, pub>>

LinStop(t, o) ==
  /\ bus' = [bus EXCEPT ![o.b].up = FALSE]
  /\ cur' = Excuse(SubsOf({o.b} \cup Desc(o.b)))
  /\ Done(t, "", -1) /\ UNCHANGED <<sub, pub, q>>

\* Detaching (and destroying) unlinks the bus and stops and unlinks its descendants, one after the other.
DetachItems(b) == {<<"unlink", b>>} \cup {<<"down", c>> : c \in Desc(b)} \cup {<<"unlink", c>> : c \in Desc(b)}
DetachStep(t) ==
  /\ HasTop(t) /\ Top(t).k = "c" /\ Top(t).ph = "p" /\ Top(t).op.op \in {"detach", "destroy"}
  /\ \E i \in DetachItems(Top(t).op.b) \ Top(t).done :
       /\ bus' = IF i[1] = "down" THEN [bus EXCEPT ![i[2]].up = FALSE] ELSE [bus EXCEPT ![i[2]].link = FALSE]
       /\ cur' = IF i[1] = "down" THEN Excuse(SubsOf({i[2]} \cup Desc(i[2]))) ELSE cur
       /\ SetTop(t, [Top(t) EXCEPT !.done = @ \cup {i}])
  /\ UNCHANGED <<sub, pub, q>>
LinDetach(t, o) ==
  /\ DetachItems(o.b) \subseteq Top(t).done
  /\ Done(t, "", -1) /\ UNCHANGED <<bus, sub, pub, q, cur>>

Lin(t) ==
  /\ HasTop(t) /\ Top(t).k = "c" /\ Top(t).ph = "p"
  /\ LET o == Top(t).op IN
     CASE o.op = "root" -> LinRoot(t, o)
       [] o.op = "rootnull" -> LinRootNull(t, o)
       [] o.op = "child" -> LinChild(t, o)
       [] o.op = "get" -> LinGet(t, o)
       [] o.op = "sub" -> LinSub(t, o)
       [] o.op = "setcb" -> LinSetCb(t, o)
       [] o.op = "delsub" -> LinDelSub(t, o)
       [] o.op = "pub" -> LinPub(t, o)
       [] o.op = "delpub" -> LinDelPub(t, o)
       [] o.op = "publish" -> LinPublish(t, o)
       [] o.op = "bpub" -> LinBPub(t, o)
       [] o.op = "has" -> LinHas(t, o)
       [] o.op = "hasp" -> LinHasP(t, o)
       [] o.op = "start" -> LinStart(t, o)
       [] o.op = "stop" -> LinStop(t, o)
       [] o.op \in {"detach", "destroy"} -> LinDetach(t, o)

Silent ==
  IF MustBegin
  THEN \E r \in DOMAIN cur : BeginDispatch(r)
  ELSE \/ \E t \in DOMAIN st : Lin(t) \/ RunEnd(t) \/ DetachStep(t)
       \/ \E r \in DOMAIN cur : EndDispatch(r)

-----------------------------------------------------------------------------
(* What must be true whenever everything that can happen by itself has     *)
(* happened: nothing pending on a running bus, and nobody stuck.  (While a *)
(* callback is being held open by its user, others may wait for it.)       *)
Held == \E r \in DOMAIN cur : cur[r].on /\ cur[r].act # -1

Quiescent(longIdle) ==
  \/ Held
  \/ /\ \A r \in DOMAIN cur : (Running(r) /\ bus[r].up) => (q[r] = << >> /\ ~cur[r].on)
     /\ \A t \in DOMAIN st : \A i \in 1..Len(st[t]) :
          LET f == st[t][i] IN
          (f.k = "c" /\ f.ph # "d") => (f.op.op = "start" /\ f.ph = "run" /\ (bus[f.op.b].up \/ ~longIdle))
=============================================================================

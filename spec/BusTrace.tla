------------------------------ MODULE BusTrace ------------------------------
(***************************************************************************)
(* Is every recorded execution of the real bus a behaviour of Bus?  All    *)
(* traces of a file are checked in one run; for each accepted one, "ACC"   *)
(* and its number is printed.                                              *)
(*                                                                         *)
(* Between two recorded events, Bus may take silent steps.  FULL = "1"     *)
(* tries all of them.  Otherwise only those are tried that can help, which *)
(* is what the rules below say; a trace rejected that way is tried again   *)
(* in full before anything is reported.                                    *)
(***************************************************************************)
EXTENDS Bus, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Full == IOEnv.FULL = "1"

VARIABLES tr, l

Ev == Traces[tr][l]
More == l <= Len(Traces[tr])

TraceInit == Init /\ tr \in DOMAIN Traces /\ l = 2

\* Position of the first and of the last delivery of message v in this trace (0: never delivered).
FirstCb(v) == IF v \in DOMAIN Traces[tr][1].first THEN Traces[tr][1].first[v] ELSE 0
LastCb(v) == IF v \in DOMAIN Traces[tr][1].last THEN Traces[tr][1].last[v] ELSE 0

Pend(t) == HasTop(t) /\ Top(t).k = "c" /\ Top(t).ph = "p"
IsPublish(o) == o.op \in {"publish", "bpub"}
OpBus(o) == IF o.op = "publish" THEN pub[o.p].b ELSE o.b
OpTop(o) == IF o.op = "publish" THEN pub[o.p].top ELSE o.top

(* Steps taken at once: beginning a dispatch as early as possible obliges the fewest subscribers; ending it when no delivery of
   it is to come lets the next one begin earlier; and a message that nobody has to get is dispatched without any effect. *)
CanEnd(r) == cur[r].on /\ cur[r].act = -1 /\ cur[r].must \subseteq cur[r].got /\ l > LastCb(cur[r].m.v)
Ever(top) == \E i \in DOMAIN Traces[tr][1].tops : Traces[tr][1].tops[i] \in {top, "/**/*"}
Unseen(t) ==
  /\ Pend(t) /\ IsPublish(Top(t).op) /\ FirstCb(Top(t).op.v) = 0
  /\ LET o == Top(t).op r == Root(OpBus(o)) IN
     ~Ever(OpTop(o)) \/
     /\ bus[r].up /\ Running(r) /\ ~cur[r].on /\ q[r] = << >>
     /\ \A s \in DOMAIN sub : ~(sub[s].live /\ sub[s].cb >= 0 /\ Reached(s, r) /\ Matches(s, OpTop(o)))
AtOnce == MustBegin \/ (\E r \in DOMAIN cur : CanEnd(r)) \/ (\E t \in DOMAIN st : Unseen(t))
StepAtOnce ==
  LET B == {r \in DOMAIN cur : CanBegin(r)} E == {r \in DOMAIN cur : CanEnd(r)} U == {t \in DOMAIN st : Unseen(t)} IN
  IF B # {} THEN BeginDispatch(CHOOSE r \in B : TRUE)
  ELSE IF E # {} THEN EndDispatch(CHOOSE r \in E : TRUE)
  ELSE Done(CHOOSE t \in U : TRUE, "", -1) /\ UNCHANGED <<bus, sub, pub, q, cur>>

(* A publication takes effect before others that are delivered earlier only in vain. *)
Dup(v) == v \in DOMAIN Traces[tr][1].dup      \* several messages have this payload
InOrder(t) ==
  LET v == Top(t).op.v IN
  FirstCb(v) = 0 \/ Dup(v) \/ \A u \in DOMAIN st \ {t} :
     (Pend(u) /\ IsPublish(Top(u).op) /\ Root(OpBus(Top(u).op)) = Root(OpBus(Top(t).op))) =>
       (FirstCb(Top(u).op.v) = 0 \/ Dup(Top(u).op.v) \/ FirstCb(Top(u).op.v) > FirstCb(v))

(* Can the pending call of u have to take effect before the call o (of another thread) does? *)
Helps(u, o) ==
  LET p == Top(u).op IN
  IF IsPublish(p)
  THEN \/ IsPublish(o) /\ Root(OpBus(o)) = Root(OpBus(p)) /\ InOrder(u)
       \/ FirstCb(p.v) > 0 /\ o.op \in {"stop", "setcb", "detach", "destroy"} /\ InOrder(u)
       \/ FirstCb(p.v) = 0 /\ o.op \in {"sub", "setcb", "start", "child"}
  ELSE CASE p.op = "child" -> (o.op \in {"child", "get"} /\ o.p = p.p) \/ (o.op \in {"detach", "destroy"} /\ p.p \in ({o.b} \cup Desc(o.b)))
         [] p.op \in {"sub", "delsub", "setcb"} -> o.op \in {"has", "setcb", "delsub"} /\ o.s = p.s
         [] p.op = "has" -> o.op = "delsub" /\ o.s = p.s
         [] p.op = "hasp" -> o.op = "delpub" /\ o.p = p.p
         [] p.op \in {"pub", "delpub"} -> o.op \in {"publish", "hasp", "delpub"} /\ o.p = p.p
         [] p.op = "get" -> o.op = "child" /\ o.p = p.p
         [] p.op = "stop" -> o.op \in {"start", "stop"} /\ o.b = p.b
         [] p.op = "start" -> bus[p.b].p < 0 \/ (o.op \in {"start", "stop"} /\ o.b = p.b)
         [] OTHER -> FALSE

(* The detaching steps that can matter to the call o. *)
Unlinks(u, o) == {<<"unlink", b>> : b \in {x \in DOMAIN bus :
                     \/ IsPublish(o) /\ x = OpBus(o)
                     \/ o.op = "child" /\ x = o.p}}
Downs(o) == IF o.op \in {"start", "stop"} THEN {<<"down", o.b>>} ELSE {}

DetachWith(t, I) ==
  LET J == I \cap (DetachItems(Top(t).op.b) \ Top(t).done) IN
  /\ J # {}
  /\ \E i \in J :
       /\ bus' = IF i[1] = "down" THEN [bus EXCEPT ![i[2]].up = FALSE] ELSE [bus EXCEPT ![i[2]].link = FALSE]
       /\ cur' = IF i[1] = "down" THEN Excuse(SubsOf({i[2]} \cup Desc(i[2]))) ELSE cur
       /\ SetTop(t, [Top(t) EXCEPT !.done = @ \cup {i}])
  /\ UNCHANGED <<sub, pub, q>>
\* all steps that are left, in any fixed order
DetachRest(t) ==
  LET b == Top(t).op.b  D == Desc(b) IN
  /\ DetachItems(b) \ Top(t).done # {}
  /\ bus' = [c \in DOMAIN bus |-> IF c \in D THEN [bus[c] EXCEPT !.up = IF <<"down", c>> \in Top(t).done THEN @ ELSE FALSE, !.link = FALSE]
                                  ELSE IF c = b THEN [bus[c] EXCEPT !.link = FALSE] ELSE bus[c]]
  /\ cur' = Excuse(SubsOf(UNION {{c} \cup Desc(c) : c \in {x \in D : <<"down", x>> \notin Top(t).done}}))
  /\ SetTop(t, [Top(t) EXCEPT !.done = @ \cup DetachItems(b)])
  /\ UNCHANGED <<sub, pub, q>>

Detaching(u) == Pend(u) /\ Top(u).op.op \in {"detach", "destroy"}

(* The next event is the return of thread t. *)
ForRet(t) ==
  /\ HasTop(t) /\ Top(t).k = "c" /\ Top(t).ph # "d"
  /\ LET o == Top(t).op IN
     \/ Pend(t) /\ (IF IsPublish(o) THEN InOrder(t) ELSE TRUE) /\ Lin(t)
     \/ RunEnd(t)
     \/ Detaching(t) /\ DetachRest(t)
     \/ \E u \in DOMAIN st \ {t} : Pend(u) /\ Helps(u, o) /\ Lin(u)
     \/ \E u \in DOMAIN st \ {t} : Detaching(u) /\ DetachWith(u, Unlinks(u, o) \cup Downs(o))

(* The next event is a delivery of message v to subscriber s in thread t.  Who still has to get the previous message may be
   excused by a pending call. *)
Owed(r) == IF cur[r].on THEN cur[r].must \ cur[r].got ELSE {}
ForCb(t, s, v) ==
  \/ \E u \in DOMAIN st : Pend(u) /\ LET p == Top(u).op IN
       /\ \/ IsPublish(p) /\ InOrder(u) /\ FirstCb(p.v) <= l
          \/ p.op \in {"start", "child"}
          \/ p.op \in {"sub", "setcb"} /\ p.s = s
          \/ p.op \in {"setcb", "delsub"} /\ \E r \in DOMAIN cur : p.s \in Owed(r)
          \/ p.op = "stop" /\ \E r \in DOMAIN cur : \E x \in Owed(r) : p.b \in Chain(sub[x].b)
       /\ Lin(u)
  \/ \E u \in DOMAIN st : Detaching(u) /\ DetachWith(u, {<<"down", c>> : c \in UNION {Chain(sub[x].b) : x \in UNION {Owed(r) : r \in DOMAIN cur}}})

PrunedSilent ==
  IF Ev.e = "r" THEN ForRet(Ev.t)
  ELSE IF Ev.e = "cb" THEN ForCb(Ev.t, Ev.s, Ev.v)
  ELSE \/ \E t \in DOMAIN st : (Pend(t) /\ (IF IsPublish(Top(t).op) THEN InOrder(t) ELSE TRUE) /\ Lin(t)) \/ RunEnd(t) \/ (Detaching(t) /\ DetachRest(t))

-----------------------------------------------------------------------------
CbEnabled(t, s, k, snd, top, v) ==
  /\ s \in DOMAIN sub
  /\ LET r == Root(sub[s].b) IN
     cur[r].on /\ cur[r].act = -1 /\ cur[r].m.v = v /\ <<s, k>> \in cur[r].cbs /\ HasTop(t) /\ Top(t).k = "c" /\ Top(t).op.op = "start" /\ Top(t).ph = "run" /\ Top(t).op.b = r

\* Messages that nobody ever gets are told apart by their topics only.
Known(e) == IF Full \/ e.op \notin {"publish", "bpub"} \/ FirstCb(e.v) > 0 THEN e
            ELSE IF e.op = "publish" THEN [e EXCEPT !.v = ""] ELSE [e EXCEPT !.v = "", !.snd = ""]
Visible ==
  /\ IF Full THEN ~MustBegin ELSE ~AtOnce
  /\ \/ Ev.e = "c" /\ Call(Ev.t, Known(Ev))
     \/ Ev.e = "r" /\ Ret(Ev.t, Ev.x, Ev.v)
     \/ Ev.e = "cb" /\ CbBegin(Ev.t, Ev.s, Ev.k, Ev.snd, Ev.top, Ev.v)
     \/ Ev.e = "ce" /\ CbEnd(Ev.t, Ev.s)
     \/ Ev.e = "idle" /\ Quiescent(Ev.us >= 1000000) /\ UNCHANGED vars
  /\ l' = l + 1

\* Silent steps can always be postponed past calls and callback ends.
MayBeSilent == IF MustBegin THEN TRUE ELSE Ev.e \in {"r", "cb", "idle"}
SilentStep ==
  IF Full THEN MayBeSilent /\ Silent
  ELSE IF AtOnce THEN StepAtOnce
  ELSE MayBeSilent /\ (Ev.e = "cb" => ~CbEnabled(Ev.t, Ev.s, Ev.k, Ev.snd, Ev.top, Ev.v)) /\ PrunedSilent

TraceNext ==
  \/ More /\ Visible /\ UNCHANGED tr
  \/ More /\ SilentStep /\ UNCHANGED <<tr, l>>
  \/ ~More /\ l = Len(Traces[tr]) + 1 /\ PrintT(<<"ACC", tr>>) /\ l' = l + 1 /\ UNCHANGED <<vars, tr>>

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>

\* For diagnosis: how far a single trace gets (one worker, one trace).
ASSUME TLCSet(1, 0)
Progress == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Reached1 == PrintT(<<"PROG", TLCGet(1)>>)
=============================================================================

---------------------------- MODULE SysInfoTrace ----------------------------
(* Is every recorded execution of system information plugins, with what it wrote to the log, a behaviour of SysInfo? *)
EXTENDS SysInfo, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, k, o, at      \* k: dispatched messages that are explained, o: lines that are, at: dispatched messages whose event has passed
tvars == <<tr, l, k, o, at>>
H == Traces[tr][1]
Ev == Traces[tr][l]
More == l <= Len(Traces[tr])
TraceInit == tr \in DOMAIN Traces /\ l = 2 /\ k = 0 /\ o = 0 /\ at = 0 /\ SInit(H.inst)
Msg(e) == [snd |-> e.snd, top |-> e.top, tx |-> e.tx, p |-> e.p, id |-> e.id]
HasNext == k < Len(H.obs)
Next == H.obs[k + 1]
HasLine == o < Len(H.out)
Line == H.out[o + 1]

\* Lines are explained as soon as they can be, dispatches when they are seen or when the next line needs them.
Duty == {d \in cur.must : inst[d.i].name = Line.pre /\ d.tx = Line.tx}
Said == {i \in DOMAIN inst : inst[i].name = Line.pre /\ Line.tx = "Sent datagram" /\ greets[i].said < greets[i].n}
CanLine == HasLine /\ (Duty # {} \/ Said # {})
LineStep == /\ \/ Duty # {} /\ Note(CHOOSE d \in Duty : TRUE)
               \/ Duty = {} /\ NoteGreeting(CHOOSE i \in Said : TRUE)
            /\ o' = o + 1 /\ UNCHANGED <<tr, l, k, at>>
\* Requests with the same content: the one whose callback is called next to the response (H.ids), or the first of those that never get one.
Fits(r) == IF ToString(r) \in DOMAIN H.ids THEN \E j \in DOMAIN H.ids[ToString(r)] : H.ids[ToString(r)][j] = Next.id
           ELSE \A x \in DOMAIN reqs : (x < r /\ reqs[x].p = reqs[r].p /\ reqs[x].id = "") => ToString(x) \in DOMAIN H.ids
DispatchStep ==
  /\ HasNext
  /\ DispatchPublished(Next) \/ \E r \in DOMAIN reqs : Fits(r) /\ DispatchRequest(r, Next)
  /\ k' = k + 1 /\ UNCHANGED <<tr, l, o, at>>
\* A greeting is published when it is needed: for the dispatch, or for the line that tells of it.
\* (Lines have no time: that a dispatch is explained only when it is seen, or its callback is, leaves all lines explainable that were.)
Waiting == (Ev.e = "in" /\ at = k) \/ Ev.e \in {"unloaded", "settled", "stopped"} \/ (Ev.e = "rc" /\ Ev.r \notin cur.rc)
GreetStep ==
  /\ \E i \in DOMAIN inst : /\ (HasNext /\ Next = Greeting(i) /\ ~\E p \in pend : p.m = Greeting(i)) \/ (HasLine /\ Line.pre = inst[i].name /\ Line.tx = "Sent datagram")
                            /\ Greet(i)
  /\ UNCHANGED tvars

Keep == UNCHANGED svars
Visible ==
  /\ CASE Ev.e = "c" /\ Ev.op = "pub" -> Publish(Msg([Ev EXCEPT !.snd = "env"])) /\ UNCHANGED at
       [] Ev.e = "c" /\ Ev.op = "req" -> SendRequest(Ev.r, Ev.p) /\ UNCHANGED at
       [] Ev.e = "r" -> Keep /\ UNCHANGED at
       [] Ev.e = "up" -> StartOf(Ev.i, Ev.us) /\ UNCHANGED at
       [] Ev.e = "in" -> /\ at < k /\ at' = at + 1
                         /\ IF Ev.top = Topic /\ \E i \in DOMAIN inst : inst[i].name = Ev.snd THEN Seen(CHOOSE i \in DOMAIN inst : inst[i].name = Ev.snd, Ev.us) ELSE Keep
       [] Ev.e = "rc" -> Callback(Ev.r, Ev.p) /\ UNCHANGED at
       [] Ev.e = "settled" -> Settled(Ev.us) /\ Keep /\ UNCHANGED at
       [] Ev.e = "stopped" -> Stopped /\ UNCHANGED at
       [] Ev.e = "unloaded" -> o = Len(H.out) /\ Unloaded /\ UNCHANGED at
       [] OTHER -> FALSE
  /\ l' = l + 1 /\ UNCHANGED <<tr, k, o>>
TraceNext ==
  \/ More /\ CanLine /\ LineStep
  \/ More /\ ~CanLine /\ Visible
  \/ More /\ ~CanLine /\ Waiting /\ (DispatchStep \/ GreetStep)
  \/ ~More /\ l = Len(Traces[tr]) + 1 /\ k = Len(H.obs) /\ o = Len(H.out) /\ at = k /\ phase = "unloaded" /\ PrintT(<<"ACC", tr>>) /\ l' = l + 1 /\ Keep /\ UNCHANGED <<tr, k, o, at>>
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, tvars>>
ASSUME TLCSet(1, 0)
Progress == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Reached1 == PrintT(<<"PROG", TLCGet(1)>>)
=============================================================================

----------------------------- MODULE LinkTrace -----------------------------
(* Is every recorded execution of linked hosts a behaviour of Link? *)
EXTENDS Link, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, at, call
Head1 == Traces[tr][1]
Ev == Traces[tr][l]
More == l <= Len(Traces[tr])
Hosts == 1..Head1.hosts
Outs == [o \in {-i : i \in DOMAIN Head1.outs} |-> {x \in DOMAIN Head1.links : LET d == Head1.outs[-o] k == Head1.links[x] IN
  IF d.bind THEN k.cli /\ k.csub = d.port ELSE k.srv /\ k.ssub = d.port}]
TraceInit == tr \in DOMAIN Traces /\ l = 2 /\ LInit(Head1.links, Hosts, Outs) /\ at = [h \in Hosts |-> 0] /\ call = << >>

\* What host h is going to see next.
Next(h) == Head1.obs[h][Len(seen[h]) + 1]
HasNext(h) == Len(seen[h]) < Len(Head1.obs[h])
Fitting(h) == {p \in pend[h] : p.m = Next(h)}
\* Equal messages are interchangeable.
OwnStep(h) == Fitting(h) # {} /\ DispatchOwn(h, CHOOSE p \in Fitting(h) : \A q \in Fitting(h) : p.n <= q.n)
Step(h) ==
  /\ HasNext(h)
  /\ \/ OwnStep(h)
     \/ \E c \in {c \in DOMAIN chan : Head1.links[c[2]].h = h} : \E i \in DOMAIN chan[c] : Arrive(c, i, Next(h))
\* Steps that only explain what is going to be seen are taken at once; to take a doubtful message for one waits until there is
\* no other explanation.
CanStep(h) ==
  /\ HasNext(h)
  /\ \/ Fitting(h) # {}
     \/ \E c \in {c \in DOMAIN chan : Head1.links[c[2]].h = h} : \E i \in DOMAIN chan[c] :
          /\ \A j \in 1..(i - 1) : Lossy(c) \/ chan[c][j] = Doubtful
          /\ chan[c][i] # Doubtful /\ Next(h) = Received(chan[c][i], c[2])
Ready == {h \in Hosts : CanStep(h)}

Keep == UNCHANGED lvars
Visible ==
  CASE Ev.e = "c" /\ Ev.op = "pub" -> Publish(Ev.h, Msg(Ev.snd, Ev.top, Ev.v)) /\ call' = (Ev.t :> Ev) @@ call /\ UNCHANGED at
    [] Ev.e = "c" /\ Ev.op = "raw" -> Outside(-Ev.c, Ev.kind, Msg(Ev.snd, Ev.top, Ev.v)) /\ call' = (Ev.t :> Ev) @@ call /\ UNCHANGED at
    [] Ev.e = "c" /\ Ev.op = "down" -> Close(Ev.h) /\ call' = (Ev.t :> Ev) @@ call /\ UNCHANGED at
    [] Ev.e = "r" -> Ev.x = "" /\ (IF call[Ev.t].op = "down" THEN Closed(call[Ev.t].h) ELSE Keep) /\ UNCHANGED <<at, call>>
    [] Ev.e = "in" -> at[Ev.h] < Len(seen[Ev.h]) /\ at' = [at EXCEPT ![Ev.h] = @ + 1] /\ Keep /\ UNCHANGED call
    [] Ev.e = "settled" -> (Head1.mode = 0 => Settled) /\ Keep /\ UNCHANGED <<at, call>>
    [] OTHER -> FALSE
TraceNext ==
  \/ More /\ Ready = {} /\ Visible /\ l' = l + 1 /\ UNCHANGED tr
  \/ More /\ Ready # {} /\ (LET h == CHOOSE h \in Ready : \A g \in Ready : h <= g IN Step(h)) /\ UNCHANGED <<tr, l, at, call>>
  \/ More /\ Ready = {} /\ Ev.e = "in" /\ at[Ev.h] = Len(seen[Ev.h]) /\ (\E h \in Hosts : Step(h)) /\ UNCHANGED <<tr, l, at, call>>
  \/ ~More /\ l = Len(Traces[tr]) + 1 /\ PrintT(<<"ACC", tr>>) /\ l' = l + 1 /\ Keep /\ UNCHANGED <<at, call, tr>>
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, tr, l, at, call>>
ASSUME TLCSet(1, 0)
Progress == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Reached1 == PrintT(<<"PROG", TLCGet(1)>>)
=============================================================================

----------------------------- MODULE HostTrace -----------------------------
(* Is every recorded execution of a host or of a plugin manager a behaviour of Host? *)
EXTENDS Host, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, call
Head1 == Traces[tr][1]
Ev == Traces[tr][l]
More == l <= Len(Traces[tr])
Manager == Head1.manager
TraceInit == tr \in DOMAIN Traces /\ l = 2 /\ HInit(Head1.files, {Head1.added[i] : i \in DOMAIN Head1.added}, Head1.entries) /\ call = << >>
HeardAll == stop \/ \A v \in DOMAIN said : \A n \in said[v].to \cup {inst[said[v].by].par} : <<n, v>> \in heard
Known(n) == n \in DOMAIN inst
Called1 == call[Ev.t]
SetCall == call' = (Ev.t :> (Ev @@ [made |-> "", was |-> phase])) @@ call
\* In a manager, instances are not started at once.
Unstarted(n) == Manager /\ Known(n) /\ stop /\ inst[n].st = "ready" /\ Set(n, "deinit") /\ Keep

CallStep ==
  /\ SetCall
  /\ CASE Ev.op \in {"start", "load"} -> Start
       [] Ev.op \in {"stop", "unload", "unloadheld"} -> RequestStop
       [] OTHER -> UNCHANGED hvars
ReturnStep ==
  /\ UNCHANGED call
  /\ CASE Called1.op = "start" -> Ev.x = "" /\ Stopped
       [] Called1.op \in {"unload", "release"} -> Ev.x = "" /\ AllOver /\ UNCHANGED hvars
       \* Instances that the caller still refers to have been through everything but their destruction.
       [] Called1.op = "unloadheld" -> Ev.x = "" /\ (\A n \in DOMAIN inst : inst[n].st \in {"over", "gone", "null"}) /\ UNCHANGED hvars
       [] Called1.op = "isst" -> IF Ev.x = "true" THEN Stopped ELSE Ev.x = "false" /\ Called1.was # "down" /\ UNCHANGED hvars
       [] Called1.op = "inst" -> Ev.x = Called1.made /\ (Called1.made = "" => Called1.was = "new" \/ Called1.id \notin Ids \/ "null" \in DOMAIN Called1) /\ UNCHANGED hvars
       [] Called1.op = "child" ->
            /\ IF Known(Called1.name) /\ inst[Called1.name].par = Called1.par
                 THEN Ev.x = inst[Called1.name].bus \/ (inst[Called1.name].st = "null" /\ Ev.x = "none") ELSE Ev.x = "none"
            /\ UNCHANGED hvars
       [] OTHER -> Ev.x = "" /\ UNCHANGED hvars
CreateStep ==
  /\ IF Manager
     THEN LET c == call[Ev.t] IN
       /\ c.op = "inst" /\ c.made = "" /\ "null" \notin DOMAIN c /\ c.id = files[Ev.f].id /\ c.conf = Ev.conf
       /\ Make(Ev.f, Ev.name, Ev.bus, c.par, Ev.null) /\ UNCHANGED entries
       /\ call' = (Ev.t :> (IF Ev.null THEN [null |-> TRUE] @@ c ELSE [c EXCEPT !.made = Ev.name])) @@ call
     ELSE Create(Ev.f, Ev.name, Ev.conf, Ev.bus, Ev.null) /\ UNCHANGED call
Visible ==
  CASE Ev.e = "c" -> CallStep
    [] Ev.e = "r" -> ReturnStep
    [] Ev.e = "create" -> CreateStep
    [] OTHER -> UNCHANGED call /\
      CASE Ev.e = "sig" -> RequestStop
        [] Ev.e = "open" -> Open(Ev.f)
        [] Ev.e = "info" -> Info(Ev.f)
        [] Ev.e = "close" -> Close(Ev.f)
        [] Ev.e = "init" -> Initialise(Ev.name)
        [] Ev.e = "inited" -> Initialised(Ev.name)
        [] Ev.e = "run" -> Run(Ev.name)
        [] Ev.e = "end" -> End(Ev.name, Ev.own)
        [] Ev.e = "deinit" -> Deinitialise(Ev.name) \/ Unstarted(Ev.name)
        [] Ev.e = "deinited" -> Deinitialised(Ev.name)
        [] Ev.e = "gone" -> Destroy(Ev.name)
        [] Ev.e = "said" -> Say(Ev.name, Ev.v)
        [] Ev.e = "heard" -> Hear(Ev.by, Ev.snd, Ev.v)
        [] Ev.e = "settled" -> (Head1.mode = 0 => IF Manager THEN HeardAll ELSE Settled) /\ UNCHANGED hvars
        [] Ev.e = "done" -> (phase = "down" \/ Manager) /\ UNCHANGED hvars
        [] Ev.e = "exit" -> Ev.code = 0 /\ Stopped
        [] OTHER -> FALSE
TraceNext ==
  \/ More /\ Visible /\ l' = l + 1 /\ UNCHANGED tr
  \/ ~More /\ l = Len(Traces[tr]) + 1 /\ PrintT(<<"ACC", tr>>) /\ l' = l + 1 /\ UNCHANGED <<hvars, call, tr>>
TraceSpec == TraceInit /\ [][TraceNext]_<<hvars, tr, l, call>>
ASSUME TLCSet(1, 0)
Progress == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Reached1 == PrintT(<<"PROG", TLCGet(1)>>)
=============================================================================

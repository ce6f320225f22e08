------------------------------ MODULE LogTrace ------------------------------
(* Is every recorded execution, together with the output it left, a behaviour of Log? *)
EXTENDS Log, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
Ev == Traces[tr][l]
Output == Traces[tr][1].out       \* all lines of the recorded output
More == l <= Len(Traces[tr])
TraceInit == LInit /\ tr \in DOMAIN Traces /\ l = 2
Fits(t) == LET w == Lines(pend[t]) IN Len(out) + Len(w) <= Len(Output) /\ SubSeq(Output, Len(out) + 1, Len(out) + Len(w)) = w
TraceNext ==
  \/ /\ More
     /\ CASE Ev.e = "c" -> Call(Ev.t, Ev.pre, Ev.lv, Ev.tx)
          [] Ev.e = "r" -> Ev.x = "" /\ Return(Ev.t)
          [] OTHER -> FALSE
     /\ l' = l + 1 /\ UNCHANGED tr
  \/ More /\ (\E t \in DOMAIN pend : Fits(t) /\ Write(t)) /\ UNCHANGED <<tr, l>>
  \/ ~More /\ l = Len(Traces[tr]) + 1 /\ out = Output /\ PrintT(<<"ACC", tr>>) /\ l' = l + 1 /\ UNCHANGED <<lvars, tr>>
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, tr, l>>
ASSUME TLCSet(1, 0)
Progress == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Reached1 == PrintT(<<"PROG", TLCGet(1)>>)
=============================================================================

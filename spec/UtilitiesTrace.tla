--------------------------- MODULE UtilitiesTrace ---------------------------
(* Is every recorded sequence of operations a behaviour of Utilities? *)
EXTENDS Utilities, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
Ev == Traces[tr][l]
TraceInit == UInit /\ tr \in DOMAIN Traces /\ l = 2
Do(e) ==
  CASE e.op = "split" -> Split(e.p)
    [] e.op = "combine" -> Combine(e.p, e.q)
    [] e.op = "make" -> Make(e.path, e.k, e.to)
    [] e.op = "delete" -> Delete(e.path)
    [] e.op = "cd" -> ChangeTo(e.path)
    [] e.op = "exists" -> Exists(e.path)
    [] e.op = "isfile" -> IsFile(e.path)
    [] e.op = "isdir" -> IsDirectory(e.path)
    [] e.op = "list" -> Listing(e.path, e.filter, e.r)
    [] e.op = "cwd" -> WorkingDirectory(e.r)
    [] e.op = "exe" -> Ask("TRUE")
    [] e.op = "bnew" -> NewBuffer(e.b, "")
    [] e.op = "bmake" -> NewBuffer(e.b, e.data)
    [] e.op = "bnull" -> NullBuffer
    [] e.op = "append" -> AppendBytes(e.b, e.data)
    [] e.op = "self" -> AppendSelf(e.b)
    [] e.op = "drop" -> DropBuffer(e.b)
    [] e.op = "cnew" -> NewConfiguration(e.c, [paths |-> e.paths, bus |-> e.bus, files |-> e.files])
    [] e.op = "ccopy" -> CopyConfiguration(e.c, e.o)
    [] e.op = "csame" -> SameConfiguration(e.c, e.o, e.whole)
    [] e.op = "fail" -> Failure(e.c, e.arg)
    [] e.op = "snew" -> NewSettings(e.c)
    [] e.op = "sadd" -> AddSetting(e.c, e.p)
    [] e.op = "sget" -> Settings(e.c)
    [] OTHER -> FALSE
TraceNext ==
  \/ /\ l <= Len(Traces[tr]) /\ "op" \in DOMAIN Ev
     /\ Do(Ev)
     /\ x' = Ev.x /\ r' = Ev.r /\ ("bufs" \in DOMAIN Ev => buf' = Ev.bufs)
     /\ l' = l + 1 /\ UNCHANGED tr
  \/ /\ l = Len(Traces[tr]) + 1 /\ PrintT(<<"ACC", tr>>) /\ l' = l + 1 /\ UNCHANGED <<uvars, tr>>
TraceSpec == TraceInit /\ [][TraceNext]_<<uvars, tr, l>>
ASSUME TLCSet(1, 0)
Progress == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Reached1 == PrintT(<<"PROG", TLCGet(1)>>)
=============================================================================

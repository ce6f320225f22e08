---------------------------- MODULE DatagramTrace ----------------------------
(* Is every recorded sequence of operations on real datagrams and messages a behaviour of Datagram? *)
EXTENDS Datagram, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
Ev == Traces[tr][l]
TraceInit == DInit /\ tr \in DOMAIN Traces /\ l = 2

(* Trees as they are recorded: nested lists and dictionaries of one element each may be written as [k: "n", p: the nesting,
   "l" for a list, "d" and the key for a dictionary, t: what is in the innermost one]. *)
Nest(p, t) ==
  LET f[i \in 1..Len(p) + 1] ==
        IF i > Len(p) THEN t
        ELSE IF p[i] = "l" THEN [k |-> "l", l |-> <<f[i + 1]>>]
        ELSE [k |-> "d", d |-> SubSeq(p[i], 2, Len(p[i])) :> f[i + 1]]
  IN f[1]
RECURSIVE Expand(_)
Expand(t) ==
  CASE t.k = "n" -> Nest(t.p, Expand(t.t))
    [] t.k = "l" -> [t EXCEPT !.l = [i \in DOMAIN t.l |-> Expand(t.l[i])]]
    [] t.k = "d" -> [t EXCEPT !.d = [s \in DOMAIN t.d |-> Expand(t.d[s])]]
    [] OTHER -> t
RECURSIVE ExpandDoc(_)
ExpandDoc(d) ==
  CASE d.j = "x" -> LET f[i \in 1..Len(d.p) + 1] ==
                          IF i > Len(d.p) THEN ExpandDoc(d.d)
                          ELSE IF d.p[i] = "l" THEN [j |-> "a", a |-> <<f[i + 1]>>]
                          ELSE [j |-> "o", o |-> SubSeq(d.p[i], 2, Len(d.p[i])) :> f[i + 1]]
                    IN f[1]
    [] OTHER -> d
Deep == "deep" \in DOMAIN Traces[tr][1]
X(t) == IF Deep THEN Expand(t) ELSE t

Do(e) ==
  CASE e.op = "create" -> Create(e.a, X(e.tree))
    [] e.op = "copy" -> CopyOf(e.a, e.b)
    [] e.op = "setv" -> AssignValue(e.a, e.t, e.v)
    [] e.op = "seth" -> AssignFrom(e.a, e.b)
    [] e.op = "sett" -> AssignTree(e.a, X(e.tree))
    [] e.op = "key" -> AtKey(e.a, e.b, e.s)
    [] e.op = "idx" -> AtIndex(e.a, e.b, e.i)
    [] e.op = "add" -> AddTree(e.a, X(e.tree))
    [] e.op = "rmk" -> RemoveKey(e.a, e.s)
    [] e.op = "rmi" -> RemoveIndex(e.a, e.i)
    [] e.op = "clear" -> Clear(e.a)
    [] e.op = "count" -> Count(e.a)
    [] e.op = "exists" -> Exists(e.a, e.s)
    [] e.op = "kind" -> Kind(e.a)
    [] e.op = "isempty" -> IsEmpty(e.a)
    [] e.op = "get" -> GetValue(e.a, e.t)
    [] e.op = "path" -> Lookup(e.a, e.p, e.t, e.def)
    [] e.op = "eq" -> Equal(e.a, e.b)
    [] e.op = "mnew" -> NewMessage(e.m, e.s, e.top, e.a)
    [] e.op = "mcopy" -> CopyMessage(e.m, e.o)
    [] e.op = "mget" -> GetDatagram(e.a, e.m)
    [] e.op = "meq" -> EqualMessages(e.m, e.o)
    [] e.op = "wire" -> Wire(e.m, e.o)
    [] e.op = "prepend" -> Prepend(e.m, e.n)
    [] e.op = "wassent" -> WasSentBy(e.m, e.n)
    [] e.op = "remove" -> RemoveSender(e.m, e.n)
    [] e.op = "json" -> DecodeJson(e.a, e.whole, IF Deep THEN ExpandDoc(e.doc) ELSE e.doc)
    [] e.op = "print" -> PrintDatagram(e.a, Traces[tr][1].keys, Traces[tr][1].texts)
    [] e.op = "mprint" -> PrintMessage(e.m, Traces[tr][1].keys, Traces[tr][1].texts)
    [] e.op = "bytes" -> Bytes(e.m, e.good, e.known, e.msg)
    [] OTHER -> FALSE

TraceNext ==
  \/ /\ l <= Len(Traces[tr]) /\ "op" \in DOMAIN Ev
     /\ Do(Ev)
     /\ x' = Ev.x /\ r' = Ev.r
     /\ "trees" \in DOMAIN Ev => Trees' = [a \in DOMAIN Ev.trees |-> X(Ev.trees[a])]
                                    /\ msg' = [m \in DOMAIN Ev.msgs |-> [Ev.msgs[m] EXCEPT !.tree = X(Ev.msgs[m].tree)]]
     /\ l' = l + 1 /\ UNCHANGED tr
  \/ /\ l = Len(Traces[tr]) + 1 /\ PrintT(<<"ACC", tr>>) /\ l' = l + 1 /\ UNCHANGED <<dvars, tr>>

TraceSpec == TraceInit /\ [][TraceNext]_<<dvars, tr, l>>
ASSUME TLCSet(1, 0)
Progress == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Reached1 == PrintT(<<"PROG", TLCGet(1)>>)
=============================================================================

------------------------------ MODULE Datagram ------------------------------
(***************************************************************************)
(* Datagrams: value trees that are accessed through handles.  A handle     *)
(* refers to a node; element access gives a handle to the element itself,  *)
(* copying gives a handle to a copy of the whole tree.                     *)
(*                                                                         *)
(* Messages hold a sender trail, a topic and a tree of their own.          *)
(*                                                                         *)
(* Texts (keys, values, names, paths) are written in hexadecimal, two      *)
(* digits per byte.  A value is a pair of its type ("i", "d", "s", "b")    *)
(* and its representation.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES
  heap,    \* sequence of nodes: [k: "e"mpty, "v"alue, "l"ist or "d"ictionary, t and v: the value, l: sequence of nodes, d: key -> node]
  h,       \* handle -> node
  msg,     \* message -> [s: sender trail, top: topic, tree]
  x,       \* exception that the last operation threw ("": none)
  r        \* result of the last operation

dvars == <<heap, h, msg, x, r>>

None == [k |-> "e", t |-> "", v |-> "", l |-> << >>, d |-> << >>]
Val(t, v) == [None EXCEPT !.k = "v", !.t = t, !.v = v]
NoList == [None EXCEPT !.k = "l"]
NoDict == [None EXCEPT !.k = "d"]

DInit == heap = << >> /\ h = << >> /\ msg = << >> /\ x = "" /\ r = ""

-----------------------------------------------------------------------------
(* Trees: what a node looks like from outside. *)
RECURSIVE Tree(_, _)
Tree(hp, n) ==
  LET c == hp[n] IN
  CASE c.k = "e" -> [k |-> "e"]
    [] c.k = "v" -> [k |-> "v", t |-> c.t, v |-> c.v]
    [] c.k = "l" -> [k |-> "l", l |-> [i \in DOMAIN c.l |-> Tree(hp, c.l[i])]]
    [] OTHER -> [k |-> "d", d |-> [s \in DOMAIN c.d |-> Tree(hp, c.d[s])]]

\* Two values are equal if they are of the same type and represent the same value (both zeros do).
Zeros == {"0000000000000000", "8000000000000000"}
SameValue(t, v, u, w) == t = u /\ (v = w \/ (t = "d" /\ {v, w} \subseteq Zeros))
RECURSIVE Same(_, _)
Same(a, b) ==
  /\ a.k = b.k
  /\ CASE a.k = "e" -> TRUE
       [] a.k = "v" -> SameValue(a.t, a.v, b.t, b.v)
       [] a.k = "l" -> Len(a.l) = Len(b.l) /\ \A i \in 1..Len(a.l) : Same(a.l[i], b.l[i])
       [] OTHER -> DOMAIN a.d = DOMAIN b.d /\ \A s \in DOMAIN a.d : Same(a.d[s], b.d[s])

Upd(f, a, b) == (a :> b) @@ f
Fresh(hp) == Len(hp) + 1                       \* nodes are numbered from 1 without gaps: the heap is a sequence
Put(hp, n, c) == IF n > Len(hp) THEN Append(hp, c) ELSE [hp EXCEPT ![n] = c]

\* Builds a tree: its root becomes node n, everything below it is new.
RECURSIVE Build(_, _, _)
RECURSIVE BuildSeq(_, _, _, _)
RECURSIVE BuildSet(_, _, _, _)
Build(hp, n, t) ==
  CASE t.k = "e" -> Put(hp, n, None)
    [] t.k = "v" -> Put(hp, n, Val(t.t, t.v))
    [] t.k = "l" -> LET b == BuildSeq(Put(hp, n, NoList), t.l, 1, << >>) IN Put(b[1], n, [NoList EXCEPT !.l = b[2]])
    [] OTHER -> LET b == BuildSet(Put(hp, n, NoDict), t.d, DOMAIN t.d, << >>) IN Put(b[1], n, [NoDict EXCEPT !.d = b[2]])
BuildSeq(hp, ts, i, acc) ==
  IF i > Len(ts) THEN <<hp, acc>>
  ELSE LET n == Fresh(hp) IN BuildSeq(Build(hp, n, ts[i]), ts, i + 1, Append(acc, n))
BuildSet(hp, td, todo, acc) ==
  IF todo = {} THEN <<hp, acc>>
  ELSE LET s == CHOOSE s \in todo : TRUE
           n == Fresh(hp)
       IN BuildSet(Build(hp, n, td[s]), td, todo \ {s}, Upd(acc, s, n))

Ok(res) == x' = "" /\ r' = res
Throw(e) == x' = e /\ r' = "" /\ UNCHANGED <<heap, h, msg>>
Set(n, c) == heap' = [heap EXCEPT ![n] = c]
HandleTo(a, hp, n) == heap' = hp /\ h' = Upd(h, a, n)

-----------------------------------------------------------------------------
(* Creation and assignment *)
Create(a, t) == LET n == Fresh(heap) IN HandleTo(a, Build(heap, n, t), n) /\ Ok("") /\ UNCHANGED msg
CopyOf(a, b) == LET n == Fresh(heap) IN HandleTo(a, Build(heap, n, Tree(heap, h[b])), n) /\ Ok("") /\ UNCHANGED msg
AssignValue(a, t, v) == Set(h[a], Val(t, v)) /\ Ok("") /\ UNCHANGED <<h, msg>>
AssignFrom(a, b) == heap' = Build(heap, h[a], Tree(heap, h[b])) /\ Ok("") /\ UNCHANGED <<h, msg>>
AssignTree(a, t) == heap' = Build(heap, h[a], t) /\ Ok("") /\ UNCHANGED <<h, msg>>

(* Element access *)
AtKey(a, b, s) ==
  LET n == h[b] IN
  IF heap[n].k = "d" /\ s \in DOMAIN heap[n].d
  THEN h' = Upd(h, a, heap[n].d[s]) /\ Ok("") /\ UNCHANGED <<heap, msg>>
  ELSE LET m == Fresh(heap)
           old == IF heap[n].k = "d" THEN heap[n].d ELSE << >>
       IN /\ HandleTo(a, Put(Put(heap, m, None), n, [NoDict EXCEPT !.d = Upd(old, s, m)]), m)
          /\ Ok("") /\ UNCHANGED msg
AtIndex(a, b, i) ==
  LET n == h[b] IN
  IF heap[n].k = "l" /\ i < Len(heap[n].l)
  THEN h' = Upd(h, a, heap[n].l[i + 1]) /\ Ok("") /\ UNCHANGED <<heap, msg>>
  ELSE Throw("IndexOutOfBounds")

(* Structure *)
AddTree(a, t) ==
  LET n == h[a]
      m == Fresh(heap)
      hp == Build(heap, m, t)
      old == IF heap[n].k = "l" THEN heap[n].l ELSE << >>
  IN heap' = [hp EXCEPT ![n] = [NoList EXCEPT !.l = Append(old, m)]] /\ Ok("") /\ UNCHANGED <<h, msg>>
RemoveKey(a, s) ==
  LET n == h[a] IN
  IF heap[n].k # "d" THEN Throw("InvalidOperation")
  ELSE IF s \notin DOMAIN heap[n].d THEN Throw("KeyNotFound")
  ELSE Set(n, [NoDict EXCEPT !.d = [k \in DOMAIN heap[n].d \ {s} |-> heap[n].d[k]]]) /\ Ok("") /\ UNCHANGED <<h, msg>>
RemoveIndex(a, i) ==
  LET n == h[a] IN
  IF heap[n].k # "l" THEN Throw("InvalidOperation")
  ELSE IF i >= Len(heap[n].l) THEN Throw("IndexOutOfBounds")
  ELSE Set(n, [NoList EXCEPT !.l = SubSeq(heap[n].l, 1, i) \o SubSeq(heap[n].l, i + 2, Len(heap[n].l))])
       /\ Ok("") /\ UNCHANGED <<h, msg>>
Clear(a) ==
  LET n == h[a] IN
  IF heap[n].k \notin {"l", "d"} THEN Throw("InvalidOperation")
  ELSE Set(n, IF heap[n].k = "l" THEN NoList ELSE NoDict) /\ Ok("") /\ UNCHANGED <<h, msg>>

(* Questions *)
Ask(res) == Ok(res) /\ UNCHANGED <<heap, h, msg>>
Count(a) ==
  LET c == heap[h[a]] IN
  IF c.k = "l" THEN Ask(ToString(Len(c.l))) ELSE IF c.k = "d" THEN Ask(ToString(Cardinality(DOMAIN c.d))) ELSE Throw("InvalidOperation")
Exists(a, s) == Ask(ToString(heap[h[a]].k = "d" /\ s \in DOMAIN heap[h[a]].d))
Kind(a) == Ask(heap[h[a]].k)
IsEmpty(a) == Ask(ToString(heap[h[a]].k = "e"))
GetValue(a, t) == LET c == heap[h[a]] IN IF c.k = "v" /\ c.t = t THEN Ask(c.v) ELSE Throw("InvalidOperation")

\* The keys that a path names, one after the other.  A slash at the very end does not name another one.
RECURSIVE Tokens(_, _)
Tokens(p, cur) ==
  IF Len(p) = 0 THEN IF cur = "" THEN << >> ELSE <<cur>>
  ELSE IF SubSeq(p, 1, 2) = "2f" THEN <<cur>> \o Tokens(SubSeq(p, 3, Len(p)), "")
  ELSE Tokens(SubSeq(p, 3, Len(p)), cur \o SubSeq(p, 1, 2))
RECURSIVE Follow(_, _)
Follow(n, ts) ==
  IF n = 0 \/ Len(ts) = 0 THEN n
  ELSE Follow(IF heap[n].k = "d" /\ ts[1] \in DOMAIN heap[n].d THEN heap[n].d[ts[1]] ELSE 0, Tail(ts))
Lookup(a, p, t, default) ==
  LET n == Follow(h[a], Tokens(p, "")) IN
  Ask(IF n # 0 /\ heap[n].k = "v" /\ heap[n].t = t THEN heap[n].v ELSE default)

Equal(a, b) == Ask(ToString(Same(Tree(heap, h[a]), Tree(heap, h[b]))))

-----------------------------------------------------------------------------
(* Messages *)
NewMessage(m, s, top, a) == msg' = Upd(msg, m, [s |-> s, top |-> top, tree |-> Tree(heap, h[a])]) /\ Ok("") /\ UNCHANGED <<heap, h>>
CopyMessage(m, o) == msg' = Upd(msg, m, msg[o]) /\ Ok("") /\ UNCHANGED <<heap, h>>
\* The datagram of a message is handed out as a copy.
GetDatagram(a, m) == Create(a, msg[m].tree)
EqualMessages(m, o) == Ask(ToString(msg[m].s = msg[o].s /\ msg[m].top = msg[o].top /\ Same(msg[m].tree, msg[o].tree)))
\* To bytes and back.
Wire(m, o) == CopyMessage(m, o)

\* The elements of a sender trail.
RECURSIVE Trail(_, _)
Trail(s, cur) ==
  IF Len(s) = 0 THEN <<cur>>
  ELSE IF SubSeq(s, 1, 2) = "2f" THEN <<cur>> \o Trail(SubSeq(s, 3, Len(s)), "")
  ELSE Trail(SubSeq(s, 3, Len(s)), cur \o SubSeq(s, 1, 2))
RECURSIVE Text(_)
Text(tr) == IF Len(tr) = 1 THEN tr[1] ELSE tr[1] \o "2f" \o Text(Tail(tr))
IsFrom(m, n) == LET tr == Trail(msg[m].s, "") IN Len(tr) > 1 /\ tr[1] = n

Prepend(m, n) == msg' = [msg EXCEPT ![m].s = Text(<<n>> \o Trail(msg[m].s, ""))] /\ Ok("") /\ UNCHANGED <<heap, h>>
WasSentBy(m, n) == Ask(ToString(IsFrom(m, n)))
RemoveSender(m, n) ==
  /\ msg' = IF IsFrom(m, n) THEN [msg EXCEPT ![m].s = Text(Tail(Trail(msg[m].s, "")))] ELSE msg
  /\ Ok("") /\ UNCHANGED <<heap, h>>

-----------------------------------------------------------------------------
(* JSON documents: [j: "n"ull, "b"ool, "i"nteger, "f"loating, "s"tring, "a"rray or "o"bject, ...]. *)
RECURSIVE Decoded(_)
Decoded(d) ==
  CASE d.j = "n" -> [k |-> "e"]
    [] d.j = "b" -> [k |-> "v", t |-> "b", v |-> d.v]
    [] d.j = "i" -> [k |-> "v", t |-> "i", v |-> d.v]
    [] d.j = "f" -> [k |-> "v", t |-> "d", v |-> d.v]
    [] d.j = "s" -> [k |-> "v", t |-> "s", v |-> d.v]
    [] d.j = "a" -> [k |-> "l", l |-> [i \in DOMAIN d.a |-> Decoded(d.a[i])]]
    [] OTHER -> [k |-> "d", d |-> [s \in DOMAIN d.o |-> Decoded(d.o[s])]]
\* The text of a whole document gives its tree, any other text an empty datagram.
DecodeJson(a, whole, d) == Create(a, IF whole THEN Decoded(d) ELSE [k |-> "e"])

\* Bytes of unknown origin: an exception, or a message if they are well-formed (as all bytes of a message are).
\* (good: are they those of message "known"?  got: the message that was decoded, or nothing)
Bytes(m, good, known, got) ==
  \/ good /\ CopyMessage(m, known)
  \/ ~good /\ Throw("InvalidOperation")
  \/ ~good /\ Len(got) = 1 /\ msg' = Upd(msg, m, got[1]) /\ Ok("") /\ UNCHANGED <<heap, h>>

-----------------------------------------------------------------------------
(* Printing.  keys: all keys that occur, in byte order; texts: how each floating-point number that occurs is printed. *)
Digit == "-" :> "2d" @@ "0" :> "30" @@ "1" :> "31" @@ "2" :> "32" @@ "3" :> "33" @@ "4" :> "34" @@ "5" :> "35" @@ "6" :> "36" @@ "7" :> "37" @@ "8" :> "38" @@ "9" :> "39"
RECURSIVE Digits(_)
Digits(s) == IF Len(s) = 0 THEN "" ELSE Digit[SubSeq(s, 1, 1)] \o Digits(SubSeq(s, 2, Len(s)))
RECURSIVE Join(_)      \* comma and space between the parts
Join(ps) == IF Len(ps) = 0 THEN "" ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o "2c20" \o Join(Tail(ps))
RECURSIVE Printed(_, _, _)
Printed(t, keys, texts) ==
  CASE t.k = "e" -> "6e756c6c"
    [] t.k = "v" -> (CASE t.t = "s" -> "22" \o t.v \o "22"
                       [] t.t = "d" -> texts[t.v]
                       [] OTHER -> Digits(t.v))
    [] t.k = "l" -> "5b" \o Join([i \in DOMAIN t.l |-> Printed(t.l[i], keys, texts)]) \o "5d"
    [] OTHER -> LET Has(k) == k \in DOMAIN t.d
                    ks == SelectSeq(keys, Has)
                IN "7b" \o Join([i \in DOMAIN ks |-> ks[i] \o "3a20" \o Printed(t.d[ks[i]], keys, texts)]) \o "7d"
PrintDatagram(a, keys, texts) == Ask(Printed(Tree(heap, h[a]), keys, texts))
\* "[SENDER to TOPIC]: DATAGRAM"
PrintMessage(m, keys, texts) == Ask("5b" \o msg[m].s \o "20746f20" \o msg[m].top \o "5d3a20" \o Printed(msg[m].tree, keys, texts))

-----------------------------------------------------------------------------
(* What can be observed at any time. *)
Trees == [a \in DOMAIN h |-> Tree(heap, h[a])]

\* Every node but the roots of handles and of what was removed has one parent; nothing is its own descendant.
Children(c) == IF c.k = "l" THEN {c.l[i] : i \in DOMAIN c.l} ELSE IF c.k = "d" THEN {c.d[s] : s \in DOMAIN c.d} ELSE {}
OneParent == \A n \in DOMAIN heap : Cardinality({m \in DOMAIN heap : n \in Children(heap[m])}) <= 1
ListsHaveDistinctNodes == \A n \in DOMAIN heap : heap[n].k = "l" => \A i, j \in DOMAIN heap[n].l : i # j => heap[n].l[i] # heap[n].l[j]
KindsAreClean == \A n \in DOMAIN heap : LET c == heap[n] IN
  (c.k # "l" => c.l = << >>) /\ (c.k # "d" => DOMAIN c.d = {}) /\ (c.k # "v" => c.t = "" /\ c.v = "")
=============================================================================

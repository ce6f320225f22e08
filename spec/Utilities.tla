----------------------------- MODULE Utilities -----------------------------
(***************************************************************************)
(* The parts around the bus: files and paths, byte buffers, configuration  *)
(* comparison.  All texts are in hexadecimal, two digits per byte.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES
  fs,      \* what exists below the scratch directory: sequence of names -> [k: "f"ile, "d"irectory, "p"ipe, "l"ink; to: what a link leads to]
  cwd,     \* working directory, as a sequence of names
  buf,     \* byte buffers: name -> content
  cfg,     \* configurations: name -> record of their parts
  x, r     \* exception and result of the last operation
uvars == <<fs, cwd, buf, cfg, x, r>>
UInit == fs = (<< >> :> [k |-> "d", to |-> << >>]) /\ cwd = << >> /\ buf = << >> /\ cfg = << >> /\ x = "" /\ r = ""

Upd(f, a, b) == (a :> b) @@ f
Ok(res) == x' = "" /\ r' = res
Ask(res) == Ok(res) /\ UNCHANGED <<fs, cwd, buf, cfg>>
Slash == "2f"
Dot == "2e"

-----------------------------------------------------------------------------
(* Paths as texts *)
Bytes(p) == Len(p) \div 2
At(p, i) == SubSeq(p, 2 * i - 1, 2 * i)
From(p, i) == SubSeq(p, 2 * i - 1, Len(p))
To(p, i) == SubSeq(p, 1, 2 * i)
Occurrences(p, c) == {i \in 1..Bytes(p) : At(p, i) = c}
Max(S) == CHOOSE i \in S : \A j \in S : j <= i
FileName(p) == From(p, Max(Occurrences(p, Slash)) + 1)
BaseDirectory(p) == To(p, Max(Occurrences(p, Slash)) - 1)
Extension(p) == LET n == FileName(p) IN IF Occurrences(n, Dot) = {} THEN "" ELSE From(n, Max(Occurrences(n, Dot)) + 1)
Combined(a, b) == a \o Slash \o b

\* For every path that contains a slash.
Split(p) ==
  /\ Occurrences(p, Slash) # {}
  /\ Combined(BaseDirectory(p), FileName(p)) = p          \* nothing is lost
  /\ Ask([base |-> BaseDirectory(p), file |-> FileName(p), ext |-> Extension(p)])
Combine(a, b) == Ask(Combined(a, b))

-----------------------------------------------------------------------------
(* Files *)
Under(d) == {p \in DOMAIN fs : Len(p) = Len(d) + 1 /\ SubSeq(p, 1, Len(d)) = d}
Gone == <<"gone">>
\* Where a path leads to when every link on the way is followed (done: the part that has been followed).
RECURSIVE Real(_, _, _)
Real(done, rest, n) ==
  IF n = 0 THEN Gone
  ELSE IF Len(rest) = 0 THEN done
  ELSE LET q == Append(done, rest[1]) IN
       IF q \notin DOMAIN fs THEN Gone
       ELSE IF fs[q].k = "l" THEN Real(<< >>, fs[q].to \o Tail(rest), n - 1)
       ELSE IF fs[q].k # "d" /\ Len(rest) > 1 THEN Gone
       ELSE Real(q, Tail(rest), n)
Where(p) == Real(<< >>, p, 41)
Kind(p) == LET w == Where(p) IN IF w = Gone THEN "" ELSE fs[w].k
\* The place that the last name of a path has, whatever is there.
Place(p) == Append(Where(SubSeq(p, 1, Len(p) - 1)), p[Len(p)])

Make(p, kind, to) == fs' = Upd(fs, Place(p), [k |-> kind, to |-> to]) /\ Ok("") /\ UNCHANGED <<cwd, buf, cfg>>
Delete(p) ==
  LET w == Place(p) IN
  fs' = [q \in {q \in DOMAIN fs : ~(Len(q) >= Len(w) /\ SubSeq(q, 1, Len(w)) = w)} |-> fs[q]] /\ Ok("") /\ UNCHANGED <<cwd, buf, cfg>>
ChangeTo(p) == cwd' = Where(p) /\ Ok("") /\ UNCHANGED <<fs, buf, cfg>>

Exists(p) == Ask(ToString(Kind(p) # ""))
IsFile(p) == Ask(ToString(Kind(p) = "f"))
IsDirectory(p) == Ask(ToString(Kind(p) = "d"))
\* res: the listing, in any order, without repetitions
Listing(p, filter, res) ==
  LET want == IF filter = 1 THEN {"f"} ELSE IF filter = 2 THEN {"d"} ELSE {"f", "d"}
      all == IF Kind(p) = "d" THEN {q[Len(q)] : q \in {q \in Under(Where(p)) : Kind(q) \in want}} ELSE {}
      seen == {res[i] : i \in DOMAIN res}
      \* a listing of files may not, one of directories does not contain the special entries
  IN /\ seen = all /\ Len(res) = Cardinality(all)
     /\ Ask(res)
WorkingDirectory(res) == res = cwd /\ Ask(res)

-----------------------------------------------------------------------------
(* Byte buffers *)
NewBuffer(b, content) == buf' = Upd(buf, b, content) /\ Ok("") /\ UNCHANGED <<fs, cwd, cfg>>
NullBuffer == x' = "ArgumentNull" /\ r' = "" /\ UNCHANGED <<fs, cwd, buf, cfg>>
AppendBytes(b, content) == buf' = [buf EXCEPT ![b] = @ \o content] /\ Ok("") /\ UNCHANGED <<fs, cwd, cfg>>
AppendSelf(b) == AppendBytes(b, buf[b])
DropBuffer(b) == buf' = [c \in DOMAIN buf \ {b} |-> buf[c]] /\ Ok("") /\ UNCHANGED <<fs, cwd, cfg>>

-----------------------------------------------------------------------------
(* Configurations *)
NewConfiguration(c, parts) == cfg' = Upd(cfg, c, parts) /\ Ok("") /\ UNCHANGED <<fs, cwd, buf>>
CopyConfiguration(c, o) == NewConfiguration(c, cfg[o])
\* whole: compare the host configurations, otherwise their plugin manager configurations
SameConfiguration(c, o, whole) ==
  LET a == cfg[c]
      b == cfg[o]
      same == a.paths = b.paths /\ a.bus = b.bus /\ (whole => a.files = b.files)
  IN Ask([eq |-> same, ne |-> ~same])

-----------------------------------------------------------------------------
(* What a failed operation tells about itself *)
KeyErrors == [c \in {"child-duplicate"} |-> "DuplicateKey"] @@ [c \in {"child-missing", "key-missing", "nested-key-missing"} |-> "KeyNotFound"]
IndexErrors == {"index", "remove-index", "no-list"}
ArgumentErrors == ("bus-noname" :> "name") @@ ("child-noname" :> "name") @@ ("named-bus-noname" :> "name") @@ ("bus-nofunction" :> "publishMessageFunction")
  @@ ("bytes-null" :> "content") @@ ("publisher-null" :> "publishingFunction") @@ ("request-null" :> "callback")
Told(kind, arg) == Ask([kind |-> kind, arg |-> arg, described |-> TRUE])
Failure(c, arg) ==
  IF c \in DOMAIN KeyErrors THEN Told(KeyErrors[c], arg)
  ELSE IF c \in IndexErrors THEN Told("IndexOutOfBounds", arg)
  ELSE c \in DOMAIN ArgumentErrors /\ Told("ArgumentNull", ArgumentErrors[c])

-----------------------------------------------------------------------------
(* Settings: the search paths in the order in which they were added *)
NewSettings(c) == NewConfiguration(c, << >>)
AddSetting(c, p) == cfg' = [cfg EXCEPT ![c] = Append(@, p)] /\ Ok("") /\ UNCHANGED <<fs, cwd, buf>>
Settings(c) == Ask(cfg[c])
=============================================================================

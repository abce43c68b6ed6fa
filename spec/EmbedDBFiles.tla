---------------------------- MODULE EmbedDBFiles ----------------------------
(***************************************************************************)
(* The contract of the page storage under EmbedDB, as the desktop files have *)
(* to implement it.  A file is                                              *)
(*   exists, open                                                          *)
(*   cur   page -> value seen by the running process                         *)
(*   disk  page -> value that is on the medium if the process is killed now   *)
(*   cap   number of pages if the file is a fixed area, -1 otherwise          *)
(* ANY stands for a value nothing is claimed about: a page that was erased,   *)
(* or one written but not flushed before the process was killed.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
ANY == -9
NoPages == [p \in {} |-> 0]
NewFile == [exists |-> FALSE, open |-> FALSE, cap |-> -1, cur |-> NoPages, disk |-> NoPages]
Put(fn, p, v) == [q \in DOMAIN fn \cup {p} |-> IF q = p THEN v ELSE fn[q]]
PutAll(fn, P, v) == [q \in DOMAIN fn \cup P |-> IF q \in P THEN v ELSE fn[q]]
Top(fn) == IF DOMAIN fn = {} THEN -1 ELSE Max(DOMAIN fn)
Res(s, bad) == [s |-> s, bad |-> bad]

Open(f, e) ==
  IF e.keep = 0 THEN Res([f EXCEPT !.exists = TRUE, !.open = TRUE, !.cur = NoPages, !.disk = NoPages], IF e.r = 0 THEN {"open"} ELSE {})
  ELSE IF f.exists THEN Res([f EXCEPT !.open = TRUE], IF e.r = 0 THEN {"open"} ELSE {})
  ELSE Res([f EXCEPT !.exists = (e.r # 0), !.open = (e.r # 0)], IF e.r # 0 THEN {"open_missing"} ELSE {})

\* on a full medium operations may fail; what was not flushed by then is uncertain
Uncertain(f) == [f EXCEPT !.cur = [p \in DOMAIN @ |-> IF p \in DOMAIN f.disk /\ f.disk[p] = @[p] THEN @[p] ELSE ANY]]
\* a transfer that went wrong (x) excuses a failure; what is reported as done has to be done all the same
Failed(f, e, lim, tag) == IF lim THEN Res(Uncertain(f), {}) ELSE Res(f, IF e.x = 1 THEN {} ELSE {tag})

\* a file that is a fixed area of a chip: its pages always exist, with unknown content at first
Area(f, e) == IF f.exists THEN f ELSE [exists |-> TRUE, open |-> TRUE, cap |-> e.cap, cur |-> PutAll(NoPages, 0 .. e.cap - 1, ANY), disk |-> PutAll(NoPages, 0 .. e.cap - 1, ANY)]

Write(f, e, lim) ==
  LET g == [f EXCEPT !.disk = Put(@, e.pg, ANY)] IN
  IF f.cap >= 0 /\ e.pg >= f.cap THEN Res(f, IF e.r # 0 THEN {"write_outside"} ELSE {})
  ELSE IF e.r = 0 THEN Failed([g EXCEPT !.cur = Put(@, e.pg, ANY)], e, lim, "write")
  ELSE Res([g EXCEPT !.cur = Put(@, e.pg, e.v)], IF e.v < 0 THEN {"write"} ELSE {})

Read(f, e, lim) ==
  IF lim /\ e.r = 0 THEN Res(Uncertain(f), {})
  ELSE IF e.x = 1 /\ e.r = 0 THEN Res(f, {})
  ELSE IF e.pg \in DOMAIN f.cur
  THEN LET v == f.cur[e.pg] IN
       IF v = ANY THEN Res(IF e.r # 0 /\ e.v >= 0 /\ ~lim THEN [f EXCEPT !.cur = Put(@, e.pg, e.v)] ELSE f, {})
       ELSE IF e.r = 0 THEN Res(f, {"read"}) ELSE Res(f, IF e.v # v THEN {"read_wrong"} ELSE {})
  \* beyond everything written, reading has to fail; gaps are up to the file system
  ELSE Res(f, IF e.pg > Top(f.cur) /\ e.r # 0 THEN {"read_unwritten"} ELSE {})

\* erasing: the pages of the range are undefined afterwards, the others untouched
Erase(f, e, lim) ==
  LET P == e.a .. e.b - 1  g == [f EXCEPT !.cur = PutAll(@, P, ANY), !.disk = PutAll(@, P, ANY)] IN
  IF e.r = 0 /\ e.b > e.a THEN Failed(g, e, lim, "erase") ELSE Res(g, {})

Sync(f, e, lim) == IF e.r = 0 THEN Failed(f, e, lim, "sync") ELSE Res([f EXCEPT !.disk = f.cur], {})
Close(f, e, lim) ==
  IF lim THEN Res([Uncertain(f) EXCEPT !.open = FALSE, !.disk = Uncertain(f).cur], {})
  ELSE Res([f EXCEPT !.open = FALSE, !.disk = f.cur], IF e.r = 0 THEN {"close"} ELSE {})
Kill(f) == [f EXCEPT !.open = FALSE, !.cur = f.disk]
=============================================================================

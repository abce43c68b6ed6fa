------------------------------ MODULE EmbedDB ------------------------------
(***************************************************************************)
(* State and transitions of one EmbedDB database, at the level of pages,    *)
(* erase blocks, the write buffer and the storage images of its files.      *)
(*                                                                          *)
(* A record is <<k, d, v, vp, vl>>: key rank, data value, variable data     *)
(* length (-1 = none), first and last logical variable page it occupies.    *)
(*                                                                          *)
(* A database instance is a TLA+ record:                                    *)
(*   c      configuration (as announced by the "cfg" event)                 *)
(*   open   TRUE between a successful init and close/crash                  *)
(*   R      records per data page                                           *)
(*   img    image of the data file:  physical page -> [w, id, recs]         *)
(*   ximg   image of the index file: physical page -> [w, id]               *)
(*   vimg   image of the variable data file                                 *)
(*   next   logical id of the next data page, min: oldest live data page    *)
(*   buf    accepted records that are not on a permanent page yet           *)
(*   fb     number of records in buf that are not durable by themselves     *)
(*   last   rank of the newest key in the store, -1 if empty                *)
(*   vn,vo  logical id / fill offset of the variable page being filled      *)
(*   vs     variable pages below this id may be reported as deleted         *)
(*   lk     <<a, b>>: records with variable data and keys in a+1..b were lost *)
(*          in a crash after (part of) their variable data was written        *)
(*   fly    records that may be there after a restart: of an insert in       *)
(*          flight at the last crash, or that failed                         *)
(*   its    open iterators                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

BAD    == -2000000001
ABSENT == -1000000
SHORT  == -7           \* variable data that ends early (right as far as it goes)
NONE   == -9

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

Clean == [w |-> FALSE, id |-> -1, recs |-> <<>>]
CleanX == [w |-> FALSE, id |-> -1]

NumPages(c, f) == CASE f = 0 -> c.N [] f = 1 -> c.NI [] f = 2 -> c.NV

CleanImg(n) == [p \in 0 .. n - 1 |-> Clean]
CleanXImg(n) == [p \in 0 .. n - 1 |-> CleanX]

InitDB(c) ==
  [ c |-> c, open |-> FALSE, R |-> 0, exists |-> FALSE,
    img |-> CleanImg(c.N), ximg |-> CleanXImg(c.NI), vimg |-> CleanXImg(c.NV),
    next |-> 0, min |-> 0, buf |-> <<>>, last |-> -1,
    vn |-> 0, vo |-> c.vh, vs |-> 0, lk |-> <<-1, -2>>, fly |-> {},
    fimg |-> CleanImg(c.N), fx |-> FALSE, fximg |-> CleanXImg(c.NI), fvimg |-> CleanXImg(c.NV), fmin |-> 0,
    its |-> [s \in 0 .. 7 |-> [on |-> FALSE]] ]

(***************************************************************************)
(* Pages and visible content                                                *)
(***************************************************************************)
PageOK(s, L) == LET pg == s.img[L % s.c.N] IN pg.w /\ pg.id = L

\* permanent pages in an image, by logical id.  With er = 0 erasing a page does
\* not change its content (desktop files), so a recovery may still find it.
Perm(s) == { s.img[p].id : p \in { q \in DOMAIN s.img : (s.img[q].w \/ s.c.er = 0) /\ s.img[q].id >= 0
                                                        /\ s.img[q].id % s.c.N = q } }
\* a page after an erase
Erased(c, pg, clean) == IF c.er = 0 THEN [pg EXCEPT !.w = FALSE] ELSE clean

PagesFrom(s, lo, hi) ==   \* concatenation of the records of logical pages lo..hi
  FlattenSeq([ j \in 1 .. (hi - lo + 1) |-> s.img[(lo + j - 1) % s.c.N].recs ])

Stored(s) == PagesFrom(s, s.min, s.next - 1)
Visible(s) == Stored(s) \o s.buf

KD(r) == <<r[1], r[2]>>

\* pages [a,b) still live must be physically intact
LiveIntact(s) == \A L \in s.min .. s.next - 1 : PageOK(s, L)

(***************************************************************************)
(* Retention: what a store of N pages / E-page erase blocks must keep        *)
(***************************************************************************)
Reserve(c) == IF c.rlc = 1 THEN 2 * c.E ELSE 0
Capacity(c) == c.N - Reserve(c)
RetentionOK(c, next, min) ==
  /\ min % c.E = 0
  /\ min >= 0
  /\ min <= next
  /\ next - min <= Capacity(c)
  /\ min <= Max2(0, next - (Capacity(c) - c.E))

(***************************************************************************)
(* Variable data                                                             *)
(***************************************************************************)
\* layout of a value of length len when the page vn is filled up to vo
VarStart(s, full) ==
  IF (s.vo > s.c.ps - 4 \/ (s.c.rlc = 0 /\ full)) /\ s.vo # s.c.vh THEN <<s.vn + 1, s.c.vh>> ELSE <<s.vn, s.vo>>
VarEnd(s, st, len) ==      \* st = <<page, offset>> of the length word; result <<page, offset, lastPage>>
  LET o1 == st[2] + 4
      p2 == IF o1 = s.c.ps THEN <<st[1] + 1, s.c.vh>> ELSE <<st[1], o1>>
      room == s.c.ps - p2[2]
      cap == s.c.ps - s.c.vh
  IN IF len = 0 THEN <<p2[1], p2[2], st[1]>>
     ELSE IF len < room THEN <<p2[1], p2[2] + len, p2[1]>>
     ELSE IF len = room THEN <<p2[1] + 1, s.c.vh, p2[1]>>
     ELSE LET rest == len - room
              fullp == rest \div cap
              r2 == rest % cap
          IN IF r2 = 0 THEN <<p2[1] + fullp + 1, s.c.vh, p2[1] + fullp>>
             ELSE <<p2[1] + fullp + 1, s.c.vh + r2, p2[1] + fullp + 1>>

VarIntact(s, r, ghost) ==
  \A q \in r[4] .. r[5] : \/ q = s.vn            \* still in the write buffer
                          \/ LET pg == s.vimg[q % s.c.NV] IN (pg.w \/ ghost) /\ pg.id = q
\* outcomes allowed for the variable part of record r: length, -1 none, -2 deleted
VarOutcomes(s, r) ==
  IF r[3] = -1 THEN {-1}
  ELSE IF ~VarIntact(s, r, FALSE) THEN {-2} \cup (IF s.c.er = 0 /\ VarIntact(s, r, TRUE) THEN {r[3]} ELSE {})
  ELSE IF r[4] < s.vs THEN {r[3], -2}
  ELSE {r[3]}
\* Known finding KF1: the keys of lost records are still in the headers of the
\* variable pages, so records inserted after the crash with keys up to the
\* largest lost one may be reported as deleted although their data is intact
VarLoose(s, r) == IF r[3] # -1 /\ r[1] > s.lk[1] /\ r[1] <= s.lk[2] THEN {-2} ELSE {}
\* the state after the variable page being filled was written out, which erases
\* the oldest block if the page is the first one of a block
VarSaved(s) ==
  LET p == s.vn % s.c.NV IN
  IF p % s.c.E = 0 /\ s.vo # s.c.vh
  THEN [s EXCEPT !.vimg = [q \in DOMAIN @ |-> IF q \in p .. p + s.c.E - 1 THEN Erased(s.c, @[q], CleanX) ELSE @[q]]] ELSE s
Lost(s, recs) ==
  LET ks == { r[1] : r \in { x \in recs : x[3] # -1 } }
      kept == { k \in { r[1] : r \in ToSet(Visible(s)) } : \A r \in recs : r[1] # k }
      lo == IF kept = {} THEN -1 ELSE Max(kept)
  IN IF ks = {} THEN s ELSE [s EXCEPT !.lk = <<IF @[2] = -2 THEN lo ELSE Min2(@[1], lo), Max2(@[2], Max(ks))>>]

(***************************************************************************)
(* Storage mutations.  m = <<file, kind, a, b, c>>                            *)
(*   kind 0: page a written with logical id b and c records                  *)
(*   kind 1: pages a .. b-1 erased;  kind 2: file created empty (durable at   *)
(*   once);  kind 3: file flushed                                            *)
(* Each returns [s, bad].  nr is the record being inserted, or <<>>.         *)
(***************************************************************************)
DataWrite(s, a, id, cnt, nr) ==
  LET perm == id % s.c.N = a
      content == IF perm THEN s.buf ELSE IF nr = <<>> THEN s.buf ELSE Append(s.buf, nr)
      bad == (IF a \notin 0 .. s.c.N - 1 THEN {"disc_range"} ELSE
              (IF s.img[a].w THEN {"disc_dirty"} ELSE {}))
             \cup (IF id # s.next THEN {"page_id"} ELSE {})
             \cup (IF cnt # Len(content) THEN {"page_content"} ELSE {})
             \cup (IF ~perm /\ s.c.rlc = 0 THEN {"disc_cyclic"} ELSE {})
      s1 == IF a \in 0 .. s.c.N - 1
            THEN [s EXCEPT !.img[a] = [w |-> TRUE, id |-> id, recs |-> content]] ELSE s
      s2 == IF perm /\ id = s.next THEN [s1 EXCEPT !.next = id + 1, !.buf = <<>>] ELSE s1
  IN [s |-> s2, bad |-> bad]

Mutate(s, m, nr) ==
  LET f == m[1]  a == m[3]  b == m[4]  n == NumPages(s.c, f) IN
  CASE m[2] = 0 /\ f = 0 -> DataWrite(s, a, b, m[5], nr)
    [] m[2] = 0 /\ f = 1 ->
         [s |-> IF a \in 0 .. n - 1 THEN [s EXCEPT !.ximg[a] = [w |-> TRUE, id |-> b]] ELSE s,
          bad |-> IF a \notin 0 .. n - 1 THEN {"idx_disc_range"} ELSE
                  (IF s.ximg[a].w THEN {"idx_disc_dirty"} ELSE {})
                  \cup (IF b % n # a THEN {"idx_disc_cyclic"} ELSE {})]
    [] m[2] = 0 /\ f = 2 ->
         [s |-> LET s1 == IF a \in 0 .. n - 1 THEN [s EXCEPT !.vimg[a] = [w |-> TRUE, id |-> b]] ELSE s
                IN [s1 EXCEPT !.vn = b + 1, !.vo = s.c.vh],
          bad |-> IF a \notin 0 .. n - 1 THEN {"var_disc_range"} ELSE
                  (IF s.vimg[a].w THEN {"var_disc_dirty"} ELSE {})
                  \cup (IF b % n # a \/ b # s.vn THEN {"var_disc_cyclic"} ELSE {})]
    [] m[2] = 1 ->
         LET okr == 0 <= a /\ a < b /\ b <= n
             bad == IF ~okr THEN {"disc_erase_range"}
                    ELSE IF a % s.c.E # 0 \/ b % s.c.E # 0 THEN {"disc_erase_align"} ELSE {}
             rng == IF okr THEN a .. b - 1 ELSE {}
         IN [s |-> CASE f = 0 -> [s EXCEPT !.img = [p \in DOMAIN @ |-> IF p \in rng THEN Erased(s.c, @[p], Clean) ELSE @[p]]]
                     [] f = 1 -> [s EXCEPT !.ximg = [p \in DOMAIN @ |-> IF p \in rng THEN Erased(s.c, @[p], CleanX) ELSE @[p]]]
                     [] f = 2 -> [s EXCEPT !.vimg = [p \in DOMAIN @ |-> IF p \in rng THEN Erased(s.c, @[p], CleanX) ELSE @[p]]],
             bad |-> IF f = 1 THEN { "idx_" \o x : x \in bad } ELSE IF f = 2 THEN { "var_" \o x : x \in bad } ELSE bad]
    [] m[2] = 2 ->
         [s |-> CASE f = 0 -> [s EXCEPT !.img = CleanImg(n), !.exists = TRUE, !.fimg = CleanImg(n), !.fx = TRUE, !.fmin = 0]
                  [] f = 1 -> [s EXCEPT !.ximg = CleanXImg(n), !.fximg = CleanXImg(n)]
                  [] f = 2 -> [s EXCEPT !.vimg = CleanXImg(n), !.vn = 0, !.vo = s.c.vh, !.fvimg = CleanXImg(n)],
          bad |-> {}]
    [] m[2] = 3 ->
         [s |-> CASE f = 0 -> [s EXCEPT !.fimg = s.img, !.fx = s.exists, !.fmin = s.min]
                  [] f = 1 -> [s EXCEPT !.fximg = s.ximg]
                  [] f = 2 -> [s EXCEPT !.fvimg = s.vimg],
          bad |-> {}]

\* the storage keeps everything that was written to it
Persist(s) == [s EXCEPT !.fimg = s.img, !.fx = s.exists, !.fmin = s.min, !.fximg = s.ximg, !.fvimg = s.vimg]
\* the files in the mask lose what was not flushed
Revert(s, mask) ==
  LET has(b) == (mask \div b) % 2 = 1 IN
  [s EXCEPT !.img = IF has(1) THEN s.fimg ELSE @, !.exists = IF has(1) THEN s.fx ELSE @, !.min = IF has(1) THEN s.fmin ELSE @,
            !.ximg = IF has(2) THEN s.fximg ELSE @, !.vimg = IF has(4) THEN s.fvimg ELSE @]

ApplyMu(s, mu, nr) ==
  FoldLeft(LAMBDA acc, m : LET r == Mutate(acc.s, m, nr) IN [s |-> r.s, bad |-> acc.bad \cup r.bad],
           [s |-> s, bad |-> {}], mu)

(***************************************************************************)
(* Recovery: which contents are acceptable after reopening an image          *)
(***************************************************************************)
RECURSIVE RunStart(_, _)
RunStart(P, m) == IF (m - 1) \in P THEN RunStart(P, m - 1) ELSE m

\* s: state whose img is the surviving image and whose buf holds the
\* acknowledged records newer than the permanent pages (RLC) ; nx, mn, L: the
\* recovered counters and content as observed
RecoverBad(s, nx, mn, L) ==
  LET P == Perm(s)
      top == IF P = {} THEN -1 ELSE Max(P)
      lo == IF P = {} THEN 0 ELSE RunStart(P, top)
      c == s.c
      okrange == mn >= lo /\ mn <= nx
      perm == IF okrange THEN PagesFrom(s, mn, top) ELSE <<>>
      tails == IF c.rlc = 0 THEN {<<>>}
               ELSE {s.buf} \cup { Append(s.buf, x) : x \in s.fly }
      kd(x) == [i \in 1 .. Len(x) |-> KD(x[i])]
      LL == [i \in 1 .. Len(L) |-> <<L[i][1], L[i][2]>>]
      PT == kd(perm)
  IN (IF nx # top + 1 THEN {"rec_next"} ELSE {})
     \cup (IF ~okrange THEN {"rec_min"} ELSE {})
     \cup (IF okrange /\ ~RetentionOK(c, nx, mn) THEN {"rec_retention"} ELSE {})
     \cup (IF okrange /\ mn > Max2(lo, s.min) + c.E THEN {"rec_dropped"} ELSE {})
     \cup (IF okrange /\ \A t \in tails : LL # PT \o kd(t) THEN {"rec_content"} ELSE {})

\* the buffer after recovery, given the listing
RecoverBuf(s, mn, top, L) ==
  LET n == Len(PagesFrom(s, mn, top)) IN
  IF s.c.rlc = 0 THEN <<>>
  ELSE LET f == { x \in s.fly : Len(L) = n + Len(s.buf) + 1 /\ KD(x) = KD(L[Len(L)]) }
       IN IF f # {} THEN Append(s.buf, CHOOSE x \in f : TRUE) ELSE s.buf

(***************************************************************************)
(* Queries                                                                   *)
(***************************************************************************)
Matches(r, kmin, kmax, hasd, dmin, dmax) ==
  /\ kmin = NONE \/ r[1] >= kmin
  /\ kmax = NONE \/ r[1] <= kmax
  /\ (hasd % 2 = 0) \/ r[2] >= dmin
  /\ (hasd < 2) \/ r[2] <= dmax

Select(recs, kmin, kmax, hasd, dmin, dmax) ==
  SelectSeq(recs, LAMBDA r : Matches(r, kmin, kmax, hasd, dmin, dmax))

\* listing L (pairs or triples) agrees with records rs
FixedOK(rs, L) == Len(L) = Len(rs) /\ \A i \in 1 .. Len(L) : L[i][1] = rs[i][1] /\ L[i][2] = rs[i][2]

(***************************************************************************)
(* Configuration requirements (docs/setup.md, docs/usageInfo.md).  CfgNo: has *)
(* to be refused.  CfgMust: has to be accepted.  In between (how many bytes   *)
(* the header of a page takes is up to the implementation, and nothing is     *)
(* documented about a variable area of a single erase block) both are fine,   *)
(* but what is accepted has to work.                                          *)
(***************************************************************************)
BmBytes(c) == IF c.idx = 1 \/ c.bmap = 1 THEN c.bm \div 8 ELSE 0
RecSize(c) == c.ks + c.ds + (IF c.vdata = 1 THEN 4 ELSE 0)
MinHeader(c) == 6 + BmBytes(c) + (IF c.maxmin = 1 THEN 2 * c.ks + 2 * c.ds ELSE 0)
MaxHeader(c) == IF c.maxmin = 1 THEN 14 + 2 * c.ks + 2 * c.ds ELSE 6 + BmBytes(c)
NoFile(c, f) == (c.nofile \div f) % 2 = 1 \/ (c.noopen \div f) % 2 = 1   \* not there or cannot be opened
\* the files a store uses while it is open
FilesOf(c) == 1 + 2 * c.idx + 4 * c.vdata

CfgNo(c) ==
  \/ c.ks \notin 1 .. 8
  \/ IF c.E < 1 THEN TRUE
     ELSE \/ c.N % c.E # 0
          \/ c.N < (IF c.rlc = 1 \/ c.idx = 1 THEN 4 ELSE 2) * c.E
          \/ (c.idx = 1 /\ (c.NI % c.E # 0 \/ c.NI < 2 * c.E))
          \/ (c.vdata = 1 /\ (c.NV % c.E # 0 \/ c.NV < c.E))
  \/ c.buf < 2 + 2 * c.idx + 2 * c.vdata
  \/ (c.bin = 0 /\ c.spl < 4)
  \/ (c.idx = 1 /\ (c.bm < 8 \/ c.ps < 16 + c.bm \div 8))
  \/ NoFile(c, 1) \/ (c.idx = 1 /\ NoFile(c, 2)) \/ (c.vdata = 1 /\ NoFile(c, 4))
  \/ c.ps < MinHeader(c) + RecSize(c)

CfgMust(c) ==
  /\ ~CfgNo(c)
  /\ c.ps >= MaxHeader(c) + RecSize(c)
  /\ c.vdata = 1 => c.ps >= c.vh + 8 /\ c.NV >= 2 * c.E
=============================================================================

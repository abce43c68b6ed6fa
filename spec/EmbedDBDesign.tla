---------------------------- MODULE EmbedDBDesign ----------------------------
(***************************************************************************)
(* Design model of the storage engine: the algorithms that insert, flush,   *)
(* write and erase pages, keep records safe with temporary pages, move the   *)
(* temporary blocks, store variable data and recover everything after a      *)
(* crash, on a device with a few pages.  TLC explores every sequence of       *)
(* operations up to Depth with a crash after every single storage mutation   *)
(* (also inside recovery), and has every event of the design judged by Step  *)
(* (EmbedDBStep), the same transition relation that judges the events         *)
(* recorded from the code.  The behaviours (ops) are printed and replayed on *)
(* the code.                                                                 *)
(*                                                                           *)
(* s: the state of the specification, which also holds the storage images.   *)
(* d: the volatile state of the design (<<>> while the store is closed) and   *)
(*    e: what else is on the storage (extent of the files, the largest key in *)
(*    the header of each variable page).                                      *)
(***************************************************************************)
EXTENDS EmbedDBStep, IOUtils

N == atoi(IOEnv.D_N)
E == atoi(IOEnv.D_E)
NV == atoi(IOEnv.D_NV)
R == atoi(IOEnv.D_R)
RLC == atoi(IOEnv.D_RLC)
VD == atoi(IOEnv.D_VD)
ER == atoi(IOEnv.D_ER)      \* does erasing change the content of a page
PS == atoi(IOEnv.D_PS)
K0 == atoi(IOEnv.D_K0)      \* the key of rank 0
Mix == VD = 0 \/ atoi(IOEnv.D_MIX) = 1   \* records without variable data as well
Depth == atoi(IOEnv.D_DEPTH)
Crashes == atoi(IOEnv.D_CRASHES)
Lens == IF VD = 0 THEN {} ELSE {atoi(IOEnv.D_L1), atoi(IOEnv.D_L2)}
VH == 8

Cfg == [op |-> "cfg", i |-> 0, N |-> N, E |-> E, NI |-> 0, NV |-> NV, ps |-> PS, vh |-> VH, ks |-> 4, ds |-> 4, buf |-> 4, spl |-> 0,
        err |-> 0, idx |-> 0, maxmin |-> 0, bmap |-> 0, vdata |-> VD, rlc |-> RLC, bin |-> 1, noclean |-> 0, er |-> ER, bm |-> 8,
        nofile |-> 0, noopen |-> 0]

Keep == atoi(IOEnv.D_KEEP)  \* one of so many behaviours is printed
\* the files that may lose what was not flushed when the power is lost: 7 all, 1 data, 4 variable data; 0: nothing is lost
Masks == CASE atoi(IOEnv.D_LOSS) = 0 -> {0} [] atoi(IOEnv.D_LOSS) = 1 -> {0, 7} [] OTHER -> IF VD = 1 THEN {1, 4, 7} ELSE {7}
Pick == atoi(IOEnv.D_PICK)

\* ops: the operations so far as text;  h: <<their number, a number to choose behaviours by>>;  nc: number of crashes so far
VARIABLES s, d, e, bad, ops, h, nc
vars == <<s, d, e, bad, ops, h, nc>>

INF == 1000000
\* extents of the files, keys in the headers of the variable pages; fext, fvext, fhk: as of the last flush
E0 == LET k == [p \in 0 .. NV - 1 |-> 0] IN [ext |-> 0, vext |-> 0, hk |-> k, fext |-> 0, fvext |-> 0, fhk |-> k]
Fresh == [next |-> 0, avail |-> N - 2 * RLC * E, min |-> 0, buf |-> <<>>, rs |-> E, rn |-> E,
          vnext |-> 0, voff |-> VH, vavail |-> NV, vmin |-> INF, vhk |-> 0]

Key(r) == r[1] + K0
(***************************************************************************)
(* What is on the storage.  A state of the design algorithms is               *)
(*   [d, e, s, mu]: s only for its images, mu the mutations so far            *)
(***************************************************************************)
Mut(x, m, hk) ==
  LET s1 == Mutate(x.s, m, <<>>).s     \* the images; records of data pages are set by Step
      ext == CASE m[1] = 0 /\ m[2] = 0 -> Max2(x.e.ext, m[3] + 1)
               [] m[1] = 0 /\ m[2] = 1 -> IF ER = 0 THEN x.e.ext ELSE Max2(x.e.ext, m[4])
               [] m[1] = 0 /\ m[2] = 2 -> 0
               [] OTHER -> x.e.ext
      vext == CASE m[1] = 2 /\ m[2] = 0 -> Max2(x.e.vext, m[3] + 1)
                [] m[1] = 2 /\ m[2] = 1 -> IF ER = 0 THEN x.e.vext ELSE Max2(x.e.vext, m[4])
                [] m[1] = 2 /\ m[2] = 2 -> 0
                [] OTHER -> x.e.vext
      hks == IF m[1] = 2 /\ m[2] = 0 THEN [x.e.hk EXCEPT ![m[3]] = hk] ELSE x.e.hk
      dur(f) == m[1] = f /\ m[2] \in {2, 3}
      e1 == [ext |-> ext, vext |-> vext, hk |-> hks, fext |-> IF dur(0) THEN ext ELSE x.e.fext,
             fvext |-> IF dur(2) THEN vext ELSE x.e.fvext, fhk |-> IF dur(2) THEN hks ELSE x.e.fhk]
  IN [x EXCEPT !.s = [s1 EXCEPT !.img = IF m[1] = 0 /\ m[2] = 0 THEN [@ EXCEPT ![m[3]].recs = x.w] ELSE @],
               !.e = e1, !.es = Append(@, e1), !.mu = Append(@, m)]
\* after a power loss in which the files in the mask lose what was not flushed
Kept(x, mask) ==
  LET y == [x EXCEPT !.ext = IF mask % 2 = 1 THEN x.fext ELSE @, !.vext = IF mask >= 4 THEN x.fvext ELSE @, !.hk = IF mask >= 4 THEN x.fhk ELSE @]
  IN [y EXCEPT !.fext = y.ext, !.fvext = y.vext, !.fhk = y.hk]

Start(dd) == [d |-> dd, e |-> e, es |-> <<>>, s |-> s, mu |-> <<>>, w |-> <<>>]

\* a page that holds a plausible count of records
Plausible(x, p) == p < x.e.ext /\ x.s.img[p].id >= 0 /\ x.s.img[p].id % N = p /\ Len(x.s.img[p].recs) \in 1 .. R

EraseD(x, p) == Mut(x, <<0, 1, p, p + E, 0>>, 0)
Sync(x, f) == Mut(x, <<f, 3, 0, 0, 0>>, 0)
EraseV(x, p) == Mut(x, <<2, 1, p, p + E, 0>>, 0)

(***************************************************************************)
(* Inserting                                                                 *)
(***************************************************************************)
WritePage(x) ==
  LET p == x.d.next % N
      x1 == IF x.d.avail > 0 THEN x ELSE EraseD([x EXCEPT !.d.avail = @ + E, !.d.min = @ + E], p)
      x2 == Mut([x1 EXCEPT !.w = x.d.buf], <<0, 0, p, x.d.next, Len(x.d.buf)>>, 0)
  IN [x2 EXCEPT !.d.next = @ + 1, !.d.avail = @ - 1, !.d.buf = <<>>]

Shift(x) ==
  LET wrapped == x.d.min % N = (x.d.rs + 2 * E) % N
      b(i) == (x.d.rs + i * E) % N
      x1 == EraseD(EraseD(Sync(x, 0), b(0)), b(1))
      x2 == IF wrapped THEN [x1 EXCEPT !.d.avail = @ + E, !.d.min = @ + E] ELSE EraseD(x1, b(2))
  IN [x2 EXCEPT !.d.rs = (@ + E) % N, !.d.rn = (x.d.rs + E) % N]

TempPage(x) ==
  LET n0 == x.d.rn % N
      lin == IF n0 < x.d.rs THEN n0 + N ELSE n0
      n == IF lin - x.d.rs >= 2 * E THEN x.d.rs ELSE n0
      x1 == IF E = 1 THEN EraseD(x, n)
            ELSE IF n % E = 1 THEN EraseD(x, IF n = x.d.rs + 1 THEN (x.d.rs + E) % N ELSE x.d.rs) ELSE x
  IN Sync([Mut([x1 EXCEPT !.w = x.d.buf], <<0, 0, n, x.d.next, Len(x.d.buf)>>, 0) EXCEPT !.d.rn = n + 1], 0)

PutRec(x, r) ==
  LET x1 == IF Len(x.d.buf) >= R THEN WritePage(x) ELSE x
      x2 == IF RLC = 1 /\ x1.d.next % N = x1.d.rs THEN Shift(x1) ELSE x1
      x3 == [x2 EXCEPT !.d.buf = Append(@, r)]
  IN IF RLC = 1 THEN TempPage(x3) ELSE x3

(***************************************************************************)
(* Variable data                                                             *)
(***************************************************************************)
SaveVar(x) ==
  LET p == x.d.vnext % NV
      x1 == IF x.d.vavail > 0 THEN x
            ELSE EraseV([x EXCEPT !.d.vavail = @ + E, !.d.vmin = x.e.hk[(p + E - 1) % NV] + 1], p)
      x2 == Mut(x1, <<2, 0, p, x.d.vnext, 0>>, x.d.vhk)
  IN [x2 EXCEPT !.d.vnext = @ + 1, !.d.vavail = @ - 1, !.d.voff = VH, !.d.vhk = 0]
FlushVar(x) == Sync(IF x.d.voff # VH THEN SaveVar(x) ELSE x, 2)

RECURSIVE Fill(_, _, _)
Fill(x, k, left) ==     \* voff may be PS here: the page is full
  LET x1 == IF x.d.voff = PS THEN [SaveVar(x) EXCEPT !.d.vhk = k] ELSE x
      a == Min2(PS - x1.d.voff, left)
  IN IF left = 0 THEN x1 ELSE Fill([x1 EXCEPT !.d.voff = @ + a], k, left - a)
PutVarData(x, k, len) == Fill([x EXCEPT !.d.vhk = k, !.d.voff = @ + 4], k, len)

PutVar(x, k, dv, len) ==
  LET x1 == IF RLC = 0 /\ Len(x.d.buf) >= R THEN FlushVar(x) ELSE IF x.d.voff # VH /\ x.d.voff > PS - 4 THEN SaveVar(x) ELSE x
      r == NewRec(s, [k |-> k, d |-> dv, v |-> len])
      x2 == PutVarData(x1, k + K0, len)
      x3 == IF RLC = 1 THEN FlushVar(x2) ELSE x2
      x4 == PutRec(x3, r)
  IN [x4 EXCEPT !.d.vmin = IF @ = INF THEN k + K0 ELSE @]
PutPlain(x, k, dv) == PutRec(IF VD = 1 /\ Len(x.d.buf) >= R THEN FlushVar(x) ELSE x, <<k, dv, -1, 0, -1>>)

Flush(x) == LET x1 == IF VD = 1 THEN FlushVar(x) ELSE x IN Sync(IF x1.d.buf = <<>> THEN x1 ELSE WritePage(x1), 0)

(***************************************************************************)
(* Recovery                                                                  *)
(***************************************************************************)
RECURSIVE FirstPage(_, _, _)
FirstPage(x, p, tries) == IF tries = 0 \/ p >= x.e.ext THEN -1 ELSE IF Plausible(x, p) THEN p ELSE FirstPage(x, p + E, tries - 1)
RECURSIVE LastOf(_, _)      \* the last page of the run of consecutive pages that starts at p
LastOf(x, p) == IF p + 1 < N /\ p + 1 < x.e.ext /\ x.s.img[p + 1].id = x.s.img[p].id + 1 THEN LastOf(x, p + 1) ELSE p

RecoverData(x) ==
  LET f == FirstPage(x, 0, 2) IN
  IF f = -1 THEN x
  ELSE LET l == LastOf(x, f)
           top == x.s.img[l].id
           cnt == l + 1
           there == cnt < N /\ cnt < x.e.ext
           gap == E - (cnt % E)
           x1 == IF there /\ gap = E THEN EraseD(x, cnt) ELSE x
           p == (cnt + gap) % N
           wrapped == there /\ p < x1.e.ext /\ top + 1 + gap >= N /\ x1.s.img[p].id = top + 1 + gap - N
           mn == x1.s.img[IF wrapped THEN p ELSE f].id
       IN [x1 EXCEPT !.d.next = top + 1, !.d.min = mn, !.d.avail = N + mn - top - 1]

RECURSIVE BestTemp(_, _, _, _, _)
BestTemp(x, st, want, i, best) ==     \* <<index, count>> of the temporary page with the most records
  LET p == (st + i) % N IN
  IF i = 2 * E \/ p >= x.e.ext THEN best
  ELSE BestTemp(x, st, want, i + 1,
         IF x.s.img[p].id = want /\ Len(x.s.img[p].recs) \in 1 .. R /\ Len(x.s.img[p].recs) > best[2] THEN <<i, Len(x.s.img[p].recs)>> ELSE best)

RecoverRLC(x) ==
  LET f == FirstPage(x, 0, 4)
      l == IF f = -1 THEN -1 ELSE LastOf(x, f)
      top == IF f = -1 THEN -1 ELSE x.s.img[l].id
      cnt == (l + 1) % N
      gap == E - (cnt % E)
      x1 == IF gap = E THEN EraseD(x, cnt) ELSE x
      st == (cnt + gap) % N
      t == BestTemp(x1, st, top + 1, 0, <<-1, 0>>)
      x2 == IF t[1] = -1 THEN EraseD(EraseD(x1, st), (st + E) % N)
            ELSE EraseD([x1 EXCEPT !.d.buf = x1.s.img[(st + t[1]) % N].recs], (st + IF t[1] < E THEN E ELSE 0) % N)
      x3 == [x2 EXCEPT !.d.rs = st, !.d.rn = IF t[1] = -1 THEN st ELSE (st + t[1] + 1) % N]
      far == gap + 2 * E
      p == (st + 2 * E) % N
      wrapped == top + 1 + far >= N /\ p < x3.e.ext /\ x3.s.img[p].id = top + 1 + far - N
      mn == x3.s.img[IF wrapped THEN p ELSE f].id
  IN IF f = -1 THEN x3 ELSE [x3 EXCEPT !.d.next = top + 1, !.d.min = mn, !.d.avail = N + mn - top - 1 - 2 * E]

RECURSIVE FirstVar(_, _, _, _)     \* <<page or -1, first page may hold key 0>>
FirstVar(x, p, tries, maybe) ==
  IF tries = 0 \/ p >= x.e.vext THEN <<-1, maybe>>
  ELSE LET id == x.s.vimg[p].id IN
       IF id >= 0 /\ id % NV = p
       THEN IF id # 0 \/ x.e.hk[p] # 0 THEN <<p, maybe>> ELSE FirstVar(x, p + 1, tries, TRUE)
       ELSE FirstVar(x, p + (E - (p % E)), tries - 1, maybe)
RECURSIVE LastVarOf(_, _)
LastVarOf(x, p) == IF p + 1 < NV /\ p + 1 < x.e.vext /\ x.s.vimg[p + 1].id = x.s.vimg[p].id + 1 THEN LastVarOf(x, p + 1) ELSE p

RecoverVar(x) ==
  LET fv == FirstVar(x, 0, 2, FALSE)
      f == IF fv[1] = -1 THEN 0 ELSE fv[1]
      small == IF fv[1] = -1 \/ f < E \/ (fv[2] /\ x.s.vimg[f].id = 1) THEN 0 ELSE f
      l == LastVarOf(x, f)
      top == x.s.vimg[l].id
      cnt == l + 1
      there == cnt < NV /\ cnt < x.e.vext
      gap == E - (cnt % E)
      x1 == IF there /\ gap = E THEN EraseV(x, cnt) ELSE x
      p == (cnt + gap) % NV
      wrapped == there /\ p < x1.e.vext /\ top + 1 + gap >= NV /\ x1.s.vimg[p].id = top + 1 + gap - NV
      sp == IF wrapped THEN p ELSE small
      mn == x1.s.vimg[sp].id
      mink == IF mn # 0 THEN x1.e.hk[sp] + 1
              ELSE IF RLC = 1 /\ x.d.next = 0 THEN (IF x.d.buf = <<>> THEN INF ELSE Key(x.d.buf[1]))
              ELSE Key(x1.s.img[x.d.min % N].recs[1])
  IN IF fv[1] = -1 /\ ~fv[2] THEN x
     ELSE [x1 EXCEPT !.d.vnext = top + 1, !.d.voff = VH, !.d.vavail = NV + mn - top - 1, !.d.vmin = mink]

Open(reset) ==
  LET x == Start(Fresh)
      xd == IF reset THEN Mut(x, <<0, 2, 0, 0, 0>>, 0) ELSE IF RLC = 1 THEN RecoverRLC(x) ELSE RecoverData(x)
  IN IF VD = 0 THEN xd
     ELSE IF ~reset /\ (xd.d.next > 0 \/ RLC = 1) THEN RecoverVar(xd) ELSE Mut(xd, <<2, 2, 0, 0, 0>>, 0)

(***************************************************************************)
(* What the design answers                                                   *)
(***************************************************************************)
Pages(x) == FlattenSeq([ j \in 1 .. x.d.next - x.d.min |-> x.s.img[(x.d.min + j - 1) % N].recs ])
VarAns(x, r) ==
  IF r[3] = -1 THEN -1 ELSE IF Key(r) < x.d.vmin THEN -2
  ELSE IF \A q \in r[4] .. r[5] : q % NV < x.e.vext /\ x.s.vimg[q % NV].id = q THEN r[3] ELSE BAD
NoDel(v) == IF v = -2 THEN -1 ELSE v
Listing(x) ==      \* as an iteration with variable data delivers it
  LET a == Pages(x)
      y == IF VD = 1 /\ x.d.buf # <<>> THEN FlushVar(x) ELSE x
  IN [i \in 1 .. Len(a) |-> <<a[i][1], a[i][2], NoDel(VarAns(x, a[i]))>>]
     \o [i \in 1 .. Len(x.d.buf) |-> <<x.d.buf[i][1], x.d.buf[i][2], NoDel(VarAns(y, x.d.buf[i]))>>]

Event(x, rest) == [mu |-> x.mu, nx |-> x.d.next, mn |-> x.d.min, i |-> 0, r |-> 0] @@ rest
Audit(x, s1) == IF d = <<>> THEN {} ELSE
  Step(s1, [op |-> "aud", i |-> 0, mu |-> <<>>, nx |-> x.d.next, mn |-> x.d.min, var |-> VD, L |-> Listing(x), e2 |-> 0]).bad

(***************************************************************************)
(* Steps: an operation runs to its end, or the store crashes in it after j    *)
(* storage mutations                                                          *)
(***************************************************************************)
Same(x, s1) == \* the images of the specification and of the design agree
  IF x.s.img = s1.img /\ x.s.vimg = s1.vimg THEN {} ELSE {"image"}
Placed(x, s1) == IF VD = 1 /\ (x.d.vnext # s1.vn \/ x.d.voff # s1.vo) THEN {"var_layout"} ELSE {}

Log(tok) == ops' = ops \o tok \o ";" /\ h' = <<h[1] + 1, (h[2] * 31 + Len(tok) + s.last) % 1000003>>
Done(x, ev, tok) ==
  LET r == Step(s, ev)
      x1 == [x EXCEPT !.s = r.s]
  IN /\ s' = r.s /\ d' = x.d /\ e' = x.e
     /\ bad' = r.bad \cup Placed(x, r.s) \cup Step(r.s, [op |-> "aud", i |-> 0, mu |-> <<>>, nx |-> x.d.next, mn |-> x.d.min, var |-> VD, L |-> Listing(x1), e2 |-> 0]).bad
     /\ Log(tok) /\ UNCHANGED nc
\* mask: the files that lose what was not flushed; without that, a flush is no point of its own
Crash(x, j, mask, w, tok) ==
  /\ nc < Crashes /\ j < Len(x.mu) /\ (mask = 0 => x.mu[j + 1][2] # 3)
  /\ LET r == Step(s, [op |-> "crash", i |-> 0, mu |-> SubSeq(x.mu, 1, j), nx |-> 0, mn |-> 0, f |-> mask] @@ w) IN
     /\ s' = r.s /\ bad' = r.bad /\ d' = <<>>
     /\ e' = Kept(IF j = 0 THEN e ELSE x.es[j], mask)
  /\ Log((IF mask = 0 THEN "X" \o ToString(Len(SelectSeq(SubSeq(x.mu, 1, j), LAMBDA m : m[2] # 3))) ELSE "Y" \o ToString(mask) \o " " \o ToString(j)) \o " " \o tok)
  /\ nc' = nc + 1
OpOrCrash(x, ev, w, tok) == Done(x, ev, tok) \/ \E j \in 0 .. Len(x.mu) - 1, mask \in Masks : Crash(x, j, mask, w, tok)

Up == d # <<>>
NextKey == s.last + 1
\* data values are irrelevant here; they follow from the key
DV(k) == (k * 7) % 5
DoP(len) ==
  LET k == NextKey
      x == IF len = NONE THEN PutPlain(Start(d), k, DV(k)) ELSE PutVar(Start(d), k, DV(k), len)
      f == IF len = NONE THEN [k |-> k, d |-> DV(k), v |-> -1] ELSE [k |-> k, d |-> DV(k), v |-> len]
      o == IF len = NONE THEN "put" ELSE "putv"
  IN OpOrCrash(x, Event(x, [op |-> o] @@ f), [w |-> o] @@ f, IF len = NONE THEN "P" ELSE "V" \o ToString(len))
DoF == LET x == Flush(Start(d)) IN OpOrCrash(x, Event(x, [op |-> "flush"]), [w |-> "flush"], "F")
\* a lookup of the newest record, if it is buffered its variable page is written out
DoG ==
  LET v == Visible(s) IN
  /\ VD = 1 /\ d.buf # <<>> /\ d.voff # VH
  /\ LET r == d.buf[Len(d.buf)]
         x == FlushVar(Start(d))
         a == VarAns(x, r)
     IN Done(x, Event(x, [op |-> "getv", k |-> r[1], d |-> r[2], v |-> a]), "G")
PowerOff ==    \* closed (or the power is lost) between two operations
  /\ nc < Crashes
  /\ \E mask \in Masks :
       /\ s' = Step(s, IF mask = 0 THEN [op |-> "drop", i |-> 0] ELSE [op |-> "loss", i |-> 0, f |-> mask]).s
       /\ e' = Kept(e, mask) /\ Log(IF mask = 0 THEN "D" ELSE "L" \o ToString(mask))
  /\ d' = <<>> /\ bad' = {} /\ nc' = nc + 1
DoO == LET x == Open(FALSE)
           L == Listing(x)
       IN OpOrCrash(x, Event(x, [op |-> "open", reset |-> 0, R |-> R, L |-> L, fo |-> 1 + 4 * VD, lm |-> 0]), [w |-> "open", reset |-> 0], "O")

Init ==
  LET s0 == InitDB(Cfg)
      x0 == [d |-> Fresh, e |-> E0, es |-> <<>>, s |-> s0, mu |-> <<>>, w |-> <<>>]
      x1 == Mut(x0, <<0, 2, 0, 0, 0>>, 0)
      x == IF VD = 1 THEN Mut(x1, <<2, 2, 0, 0, 0>>, 0) ELSE x1
      r == Step(s0, Event(x, [op |-> "open", reset |-> 1, R |-> R, L |-> <<>>, fo |-> 1 + 4 * VD, lm |-> 0]))
  IN s = r.s /\ d = Fresh /\ e = x.e /\ bad = r.bad /\ ops = "" /\ h = <<0, 0>> /\ nc = 0

Next ==
  /\ h[1] < Depth
  /\ IF Up THEN (Mix /\ DoP(NONE)) \/ (\E l \in Lens : DoP(l)) \/ DoF \/ DoG \/ PowerOff ELSE DoO

Spec == Init /\ [][Next]_vars
\* behaviours that lead to the same store are not told apart
View == IF Masks # {0} THEN <<s, d, e, bad, nc>>
        ELSE <<[s EXCEPT !.fimg = <<>>, !.fximg = <<>>, !.fvimg = <<>>, !.fx = FALSE, !.fmin = 0], d, [e EXCEPT !.fext = 0, !.fvext = 0, !.fhk = <<>>], bad, nc>>

Correct == bad \subseteq {"KF1"}
Emit == (Keep > 0 /\ h[1] = Depth /\ h[2] % Keep = Pick % Keep) => PrintT(<<"OPS", s.next, s.min, ops>>)
=============================================================================

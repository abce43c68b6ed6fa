----------------------------- MODULE EmbedDBStep -----------------------------
(***************************************************************************)
(* The transitions of a store: judges one observed event against the state  *)
(* and gives the next state.  Step(s, e) = [s, bad], bad the set of          *)
(* disagreements.  Used by EmbedDBTrace (events recorded from the code) and  *)
(* by EmbedDBDesign (events of the design model).                            *)
(***************************************************************************)
EXTENDS EmbedDB

Res(s, bad) == [s |-> s, bad |-> bad]

\* judge the counters logged after an operation and adopt the observed minimum
Settle(s0, s, e, bad) ==
  LET b1 == IF e.nx # s.next THEN {"next_page"} ELSE {}
      b2 == IF ~RetentionOK(s.c, e.nx, e.mn) THEN {"retention"} ELSE {}
      b3 == IF e.mn < s0.min THEN {"min_back"} ELSE {}
      s1 == IF b3 = {} /\ e.mn <= s.next THEN [s EXCEPT !.min = e.mn] ELSE s
      b4 == IF ~LiveIntact(s1) THEN {"live_destroyed"} ELSE {}
  IN Res(s1, bad \cup b1 \cup b2 \cup b3 \cup b4)

NewRec(s, e) ==
  IF e.v < 0 THEN <<e.k, e.d, -1, 0, -1>>
  ELSE LET st == VarStart(s, Len(s.buf) >= s.R)
           en == VarEnd(s, st, e.v)
       IN <<e.k, e.d, e.v, st[1], en[3]>>

\* position of the variable page after the insert, as the layout predicts it
VarAfter(s, e) ==
  IF e.op # "putv" THEN <<s.vn, s.vo>>
  ELSE LET st == VarStart(s, Len(s.buf) >= s.R)
           en == IF e.v >= 0 THEN VarEnd(s, st, e.v) ELSE <<st[1], st[2], 0>>
       IN IF s.c.rlc = 1 /\ e.v >= 0 /\ en[2] # s.c.vh THEN <<en[1] + 1, s.c.vh>> ELSE <<en[1], en[2]>>

\* variable data needs a store with variable data
VarAllowed(s, e) == s.c.vdata = 1 \/ (IF e.op = "crash" THEN e.w # "putv" ELSE e.op # "putv")

DoPut(s, e) ==
  LET asc == e.k > s.last /\ VarAllowed(s, e)
      nr == NewRec(s, e)
      va == VarAfter(s, e)
      m == ApplyMu(s, e.mu, IF asc THEN nr ELSE <<>>)
      acc == e.r = 0
      bad == (IF asc # acc THEN {IF acc THEN "put_accepted" ELSE "put_refused"} ELSE {})
      s1 == IF acc THEN [m.s EXCEPT !.buf = Append(@, nr), !.last = e.k, !.fly = {}] ELSE m.s
      b2 == IF acc /\ e.op = "putv" /\ m.s.vn # va[1] THEN {"var_layout"} ELSE {}
      s2 == IF acc /\ e.op = "putv" /\ m.s.vn = va[1] THEN [s1 EXCEPT !.vo = va[2]] ELSE s1
  IN Settle(s, s2, e, bad \cup m.bad \cup b2)

\* operations that must not change the content
DoRead(s, e, bad) ==
  LET m == ApplyMu(s, e.mu, <<>>) IN Settle(s, m.s, e, bad \cup m.bad)

Lookup(s, k) ==
  LET v == Visible(s)
      I == { i \in DOMAIN v : v[i][1] = k }
  IN IF I = {} THEN <<>> ELSE v[CHOOSE i \in I : TRUE]

DoGet(s, e) ==
  LET r == Lookup(s, e.k)
      bad == IF r = <<>> THEN (IF e.r = 0 THEN {"get_phantom"} ELSE {})
             ELSE IF e.r # 0 THEN {"get_missing"}
             ELSE IF e.d # r[2] THEN {"get_wrong"} ELSE {}
  IN DoRead(s, e, bad)

\* a read of a buffered record may write a variable page out and so delete old variable data: outs are the
\* outcomes allowed before or after that
Outs(s, t, r) == VarOutcomes(s, r) \cup VarOutcomes(t, r)
\* an iterator reports deleted variable data as none
It(S) == { IF x = -2 THEN -1 ELSE x : x \in S }
\* variable data listed by an iterator; tag is reported if it disagrees
JudgeVL(s, t, rs, L, tag) ==
  IF Len(L) # Len(rs) THEN {}
  ELSE IF \E i \in 1 .. Len(L) : L[i][3] \notin It(Outs(s, t, rs[i]) \cup VarLoose(t, rs[i])) THEN {tag}
  ELSE IF \E i \in 1 .. Len(L) : L[i][3] \notin It(Outs(s, t, rs[i])) THEN {"KF1"} ELSE {}

JudgeGetV(s, t, r, ret, d, v) ==
  IF r = <<>> THEN (IF ret = 0 \/ ret = 1 THEN {"getv_phantom"} ELSE {})
  ELSE IF ret # 0 /\ ret # 1 THEN {"getv_missing"}
  ELSE (IF d # r[2] THEN {"getv_wrong"} ELSE {})
       \cup (IF v \in Outs(s, t, r) THEN {}
             ELSE IF v \in VarLoose(t, r) THEN {"KF1"}
             ELSE IF v = -2 THEN {"var_deleted"} ELSE IF Outs(s, t, r) = {-2} THEN {"var_stale"} ELSE {"var_wrong"})

DoGetV(s, e) ==
  \* reading a buffered record may write the variable page out
  LET m == ApplyMu(s, e.mu, <<>>)
  IN Settle(s, m.s, e, m.bad \cup JudgeGetV(s, m.s, IF s.c.vdata = 0 THEN <<>> ELSE Lookup(s, e.k), e.r, e.d, e.v))

DoGall(s, e) ==
  LET v == Visible(s)
      hi == e.lo + Len(e.L) - 1
      exp == { KD(v[i]) : i \in { j \in DOMAIN v : v[j][1] >= e.lo /\ v[j][1] <= hi } }
      got == { <<e.lo + j - 1, e.L[j]>> : j \in { x \in DOMAIN e.L : e.L[x] # ABSENT } }
      ek == { x[1] : x \in exp }
      gk == { x[1] : x \in got }
      bad == (IF gk \ ek # {} THEN {"get_phantom"} ELSE {})
             \cup (IF ek \ gk # {} THEN {"get_missing"} ELSE {})
             \cup (IF \E x \in got : x[1] \in ek /\ x \notin exp THEN {"get_wrong"} ELSE {})
  IN DoRead(s, e, bad)

DoGVall(s, e) ==
  LET m == ApplyMu(s, e.mu, <<>>)
      v == Visible(s)
      hi == e.lo + Len(e.L) - 1
      at == [ k \in { v[i][1] : i \in DOMAIN v } |-> v[CHOOSE i \in DOMAIN v : v[i][1] = k] ]
      bad == UNION { JudgeGetV(s, m.s, IF (e.lo + j - 1) \in DOMAIN at THEN at[e.lo + j - 1] ELSE <<>>,
                               e.L[j][1], e.L[j][2], e.L[j][3]) : j \in DOMAIN e.L }
  IN Settle(s, m.s, e, bad \cup m.bad)

DoIter(s, e) ==
  LET m == ApplyMu(s, e.mu, <<>>)
      misuse == e.var = 1 /\ s.c.vdata = 0
      rs == IF misuse THEN <<>> ELSE Select(Visible(s), e.kmin, e.kmax, e.hasd, e.dmin, e.dmax)
      bad == (IF ~FixedOK(rs, e.L) THEN {"iter"} ELSE IF e.var = 1 THEN JudgeVL(s, m.s, rs, e.L, "iter_var") ELSE {})
             \cup (IF e.e2 # 0 /\ ~misuse THEN {"iter_end"} ELSE {})
  IN Settle(s, m.s, e, bad \cup m.bad)

DoAud(s, e) ==
  LET rs == Visible(s)
      bad == (IF ~FixedOK(rs, e.L) THEN {"content"} ELSE IF e.var = 1 THEN JudgeVL(s, VarSaved(s), rs, e.L, "content_var") ELSE {})
             \cup (IF e.e2 # 0 THEN {"iter_end"} ELSE {})
  IN DoRead(s, e, bad)

\* the live pages are in storage even if what was not flushed is lost
Durable(s) == \A L \in s.min .. s.next - 1 : s.fimg[L % s.c.N].id = L /\ s.fimg[L % s.c.N].recs = s.img[L % s.c.N].recs

DoFlush(s, e) ==
  LET m == ApplyMu(s, e.mu, <<>>)
      s1 == m.s
      bad == (IF e.r # 0 THEN {"flush_failed"} ELSE {})
             \cup (IF s1.buf # <<>> \/ ~Durable([s1 EXCEPT !.min = Max2(@, e.mn)]) THEN {"flush_not_written"} ELSE {})
      s2 == [s1 EXCEPT !.fly = IF s1.next # s.next THEN {} ELSE @]
  IN Settle(s, s2, e, bad \cup m.bad)

\* The power is lost.  Files in the mask lose what was not flushed, the others keep everything.  acked:
\* the records that are in the store; m: the state after what was written; fly: the insert in flight, or {}
PowerLoss(s, m, mask, acked, fly) ==
  LET r == Revert(m, mask)
      P == Perm(r)
      newest == IF P = {} THEN <<>> ELSE r.img[Max(P) % s.c.N].recs
      top == IF newest = <<>> THEN -1 ELSE newest[Len(newest)][1]
      \* what is not on a permanent page is only kept by record-level consistency
      tail == IF mask % 2 = 0 THEN m.buf ELSE SelectSeq(acked, LAMBDA x : x[1] > top)
      lost == (IF s.c.rlc = 1 THEN {} ELSE ToSet(tail)) \cup fly
      l == IF mask % 2 = 0 THEN Lost(m, lost) ELSE Lost(s, lost)
  IN Persist([r EXCEPT !.lk = l.lk, !.open = FALSE, !.buf = IF s.c.rlc = 1 THEN tail ELSE <<>>, !.fly = @ \cup fly,
                       !.its = [x \in 0 .. 7 |-> [on |-> FALSE]]])

DoLoss(s, e) == Res(PowerLoss(s, s, e.f, Visible(s), {}), {})

DoOpen(s, e) ==
  LET must == CfgMust(s.c) /\ (e.reset = 1 \/ s.exists)
      no == CfgNo(s.c) \/ ~(e.reset = 1 \/ s.exists)
      m == ApplyMu(IF e.reset = 1 THEN [s EXCEPT !.buf = <<>>] ELSE s, e.mu, <<>>)
      s1 == m.s
      \* an open store has opened exactly the files it uses; a refused one keeps neither files nor memory
      held == IF e.r # 0 THEN (IF e.fo # 0 THEN {"open_files"} ELSE {}) \cup (IF e.lm # 0 THEN {"open_memory"} ELSE {})
              ELSE IF e.fo # FilesOf(s.c) THEN {"open_files"} ELSE {}
  IN IF e.r # 0 THEN Res([s1 EXCEPT !.open = FALSE], held \cup IF must THEN {"open_refused"} ELSE {})
     ELSE IF no THEN Res([s1 EXCEPT !.open = FALSE], {"open_accepted"})
     ELSE IF e.reset = 1
     THEN Res([s1 EXCEPT !.open = TRUE, !.R = e.R, !.img = CleanImg(s.c.N), !.ximg = CleanXImg(s.c.NI), !.vimg = CleanXImg(s.c.NV),
                         !.next = 0, !.min = 0, !.buf = <<>>, !.last = -1, !.vn = 0, !.vo = s.c.vh, !.vs = 0, !.lk = <<-1, -2>>, !.fly = {}],
              held \cup (IF e.nx # 0 \/ e.mn # 0 THEN {"next_page"} ELSE {}) \cup (IF e.L # <<>> THEN {"reset_content"} ELSE {}))
     ELSE LET top == e.nx - 1
              bad == m.bad \cup RecoverBad(s1, e.nx, e.mn, e.L)
              okc == "rec_next" \notin bad /\ "rec_min" \notin bad
              nb == IF okc THEN RecoverBuf(s1, e.mn, top, e.L) ELSE <<>>
              VP == { s1.vimg[p].id : p \in { q \in DOMAIN s1.vimg : s1.vimg[q].w /\ s1.vimg[q].id % s.c.NV = q } }
              s2 == [s1 EXCEPT !.open = TRUE, !.R = e.R,
                       !.img = [p \in DOMAIN @ |-> IF okc /\ @[p].id \in e.mn .. top /\ @[p].id % s.c.N = p THEN [@[p] EXCEPT !.w = TRUE] ELSE @[p]],
                       !.next = e.nx, !.min = IF okc THEN e.mn ELSE e.nx, !.buf = nb, !.fly = {},
                       !.vn = IF VP = {} THEN 0 ELSE Max(VP) + 1, !.vo = s.c.vh,
                       !.vs = IF VP = {} THEN 0 ELSE RunStart(VP, Max(VP)) + 1]
              vis == Visible(s2)
              s3 == [s2 EXCEPT !.last = IF vis = <<>> THEN -1 ELSE vis[Len(vis)][1]]
              b2 == IF s.c.vdata = 1 /\ "rec_content" \notin bad /\ okc THEN JudgeVL(s3, VarSaved(s3), vis, e.L, "rec_var") ELSE {}
          IN Res(s3, held \cup bad \cup b2)

\* a crash in the middle of an operation, after the mutations e.mu
DoCrash(s, e) ==
  LET put == e.w = "put" \/ e.w = "putv"
      asc == put /\ e.k > s.last /\ VarAllowed(s, e)
      nr == IF asc THEN NewRec(s, e) ELSE <<>>
      m == ApplyMu(IF e.w = "open" /\ e.reset = 1 THEN [s EXCEPT !.buf = <<>>] ELSE s, e.mu, nr)
  IN Res(PowerLoss(s, m.s, e.f, IF e.w = "open" THEN s.buf ELSE Visible(s), IF asc THEN {nr} ELSE {}), m.bad)

DoDrop(s, e) == Res(PowerLoss(s, s, 0, Visible(s), {}), {})

\* closing gives back everything opening and using the store took
DoClose(s, e) == LET r == DoDrop(s, e) IN Res(r.s, (IF e.fo # 0 THEN {"close_files"} ELSE {}) \cup (IF e.lm # 0 THEN {"close_memory"} ELSE {}))

\* a file of a store that is not open disappears
DoRm(s, e) == Res(CASE e.f = 0 -> [s EXCEPT !.exists = FALSE, !.fx = FALSE, !.img = CleanImg(s.c.N), !.fimg = CleanImg(s.c.N)]
                    [] e.f = 1 -> [s EXCEPT !.ximg = CleanXImg(s.c.NI), !.fximg = CleanXImg(s.c.NI)]
                    [] e.f = 2 -> [s EXCEPT !.vimg = CleanXImg(s.c.NV), !.fvimg = CleanXImg(s.c.NV)], {})

\* A store that is not open grows old: the logical ids of every file move up by whole
\* laps, as if it had been written for a long time before (the driver does it to the files)
DoAge(s, e) ==
  LET rec(r) == IF r[3] < 0 THEN r ELSE <<r[1], r[2], r[3], r[4] + e.dv, r[5] + e.dv>>
      recs(q) == [i \in DOMAIN q |-> rec(q[i])]
      pg(x) == IF x.id < 0 THEN x ELSE [x EXCEPT !.id = @ + e.dd, !.recs = recs(@)]
      id(x, dl) == IF x.id < 0 THEN x ELSE [x EXCEPT !.id = @ + dl]
      im(f) == [p \in DOMAIN f |-> pg(f[p])]
      ix(f, dl) == [p \in DOMAIN f |-> id(f[p], dl)]
  IN Res([s EXCEPT !.img = im(@), !.fimg = im(@), !.ximg = ix(@, e.dx), !.fximg = ix(@, e.dx), !.vimg = ix(@, e.dv), !.fvimg = ix(@, e.dv),
                   !.next = @ + e.dd, !.min = @ + e.dd, !.fmin = @ + e.dd, !.buf = recs(@), !.fly = { rec(x) : x \in @ },
                   !.vn = @ + e.dv, !.vs = IF @ = 0 THEN 0 ELSE @ + e.dv], {})

\* iterators that stay open while the store changes
DoII(s, e) ==
  LET st == { r[1] : r \in ToSet(Select(Visible(s), e.kmin, e.kmax, e.hasd, e.dmin, e.dmax)) }
      it == [on |-> TRUE, kmin |-> e.kmin, kmax |-> e.kmax, hasd |-> e.hasd, dmin |-> e.dmin, dmax |-> e.dmax,
             last |-> -1, start |-> st, got |-> {}]
  IN DoRead([s EXCEPT !.its[e.s] = it], e, {})

DoIN(s, e) ==
  LET it == s.its[e.s]
      m == ApplyMu(s, e.mu, <<>>)
      v == Visible(s)
      ks == [ i \in DOMAIN e.L |-> e.L[i][1] ]
      at == [ k \in { v[i][1] : i \in DOMAIN v } |-> v[CHOOSE i \in DOMAIN v : v[i][1] = k] ]
      asc == \A i \in DOMAIN ks : ks[i] > (IF i = 1 THEN it.last ELSE ks[i - 1])
      real == \A i \in DOMAIN e.L : ks[i] \in DOMAIN at /\ at[ks[i]][2] = e.L[i][2]
                                    /\ Matches(at[ks[i]], it.kmin, it.kmax, it.hasd, it.dmin, it.dmax)
      vbad == IF e.var = 0 \/ ~real THEN {} ELSE JudgeVL(s, m.s, [i \in DOMAIN e.L |-> at[ks[i]]], e.L, "it_var")
      got == it.got \cup ToSet(ks)
      miss == { k \in it.start : k \in DOMAIN at } \ got
      \* even before the end, a record that is skipped is lost: everything below the position must have been delivered
      pos == IF Len(ks) = 0 THEN it.last ELSE ks[Len(ks)]
      skipped == { k \in miss : k < pos }
      bad == (IF ~asc THEN {"it_order"} ELSE {}) \cup (IF ~real THEN {"it_phantom"} ELSE {})
             \cup vbad
             \cup (IF (e.end = 1 /\ miss # {}) \/ skipped # {} THEN {"it_missing"} ELSE {})
      s1 == [m.s EXCEPT !.its[e.s] = IF e.end = 1 THEN [on |-> FALSE]
                                      ELSE [it EXCEPT !.last = pos, !.got = got]]
  IN Settle(s, s1, e, bad \cup m.bad)

\* The statistics count the pages that went between the store and its files since they were
\* reset: e.dr and e.dw are the transfers the storage has seen, by file; e.app the data pages
\* that were added.  Pages that are only kept until a page is full need not be counted.
DoStat(s, e) ==
  Settle(s, s, e,
         (IF e.sr # e.dr[1] + e.dr[3] \/ e.ir # e.dr[2] THEN {"stat_reads"} ELSE {})
         \cup (IF e.iw # e.dw[2] \/ e.sw > e.dw[1] + e.dw[3] \/ e.sw < (IF s.c.rlc = 1 THEN e.app ELSE e.dw[1]) + e.dw[3] THEN {"stat_writes"} ELSE {}))

(***************************************************************************)
(* Storage call failures: e.flt is set; e.L is the content listed by a clone *)
(***************************************************************************)
Faulty(e) == "flt" \in DOMAIN e

IsSub(L, rs) == \* L is a subsequence prefix-wise: every delivered record is right and in order
  /\ \A i \in DOMAIN L : \E j \in DOMAIN rs : rs[j][1] = L[i][1] /\ rs[j][2] = L[i][2]
  /\ \A i \in 1 .. Len(L) - 1 : L[i][1] < L[i + 1][1]

\* what a lookup of variable data may say: it failed, or the data that is there, or a part of it
FaultV(s, t, r, ret, d, v) == ret \notin {0, 1} \/ (r # <<>> /\ d = r[2] /\ (v = SHORT \/ v \in It(Outs(s, t, r)) \cup Outs(s, t, r) \cup VarLoose(t, r)))
\* L is a beginning of the records rs
FaultIter(s, t, var, rs, L) ==
  /\ Len(L) <= Len(rs)
  /\ \A i \in DOMAIN L : L[i][1] = rs[i][1] /\ L[i][2] = rs[i][2]
  /\ var = 1 => \A i \in DOMAIN L : L[i][3] = SHORT \/ L[i][3] \in It(Outs(s, t, rs[i]) \cup VarLoose(t, rs[i]))

DoFault(s, e) ==
  LET put == e.op \in {"put", "putv"}
      asc == put /\ e.k > s.last /\ VarAllowed(s, e)
      nr == IF asc THEN NewRec(s, e) ELSE <<>>
      m == ApplyMu(s, e.mu, nr)
      s1 == [m.s EXCEPT !.min = Max2(s.min, Min2(e.mn, m.s.next))]
      vis == Visible(s1)
      LL == [ i \in DOMAIN e.L |-> KD(e.L[i]) ]
      base == [ i \in DOMAIN vis |-> KD(vis[i]) ]
      with == IF asc THEN Append(base, KD(nr)) ELSE base
      stored == asc /\ LL = with
      b0 == IF put THEN
               IF e.r = 0 THEN (IF asc THEN (IF LL # with THEN {"fault_lost"} ELSE {}) ELSE {"put_accepted"})
               ELSE IF LL # base /\ LL # with THEN {"fault_damage"} ELSE {}
            ELSE IF LL # base THEN {"fault_damage"} ELSE {}
      b1 == CASE e.op = "get" -> IF e.r = 0 /\ LET r == Lookup(s, e.k) IN r = <<>> \/ r[2] # e.d THEN {"fault_wrong"} ELSE {}
              [] e.op = "getv" -> IF FaultV(s, m.s, Lookup(s, e.k), e.r, e.d, e.v) THEN {} ELSE {"fault_wrong"}
              \* a lookup may fail, an iteration may end early; what is delivered is right, in order and without gaps
              [] e.op = "gall" -> IF \A i \in DOMAIN e.I : e.I[i] = ABSENT \/ LET r == Lookup(s, e.lo + i - 1) IN r # <<>> /\ r[2] = e.I[i]
                                  THEN {} ELSE {"fault_wrong"}
              [] e.op = "gvall" -> IF \A i \in DOMAIN e.I : FaultV(s, m.s, Lookup(s, e.lo + i - 1), e.I[i][1], e.I[i][2], e.I[i][3])
                                   THEN {} ELSE {"fault_wrong"}
              [] e.op = "iter" -> IF FaultIter(s, m.s, e.var, Select(Visible(s), e.kmin, e.kmax, e.hasd, e.dmin, e.dmax), e.I)
                                  THEN {} ELSE {"fault_iter"}
              [] e.op = "in" -> LET it == s.its[e.s]
                                    all == Select(Visible(s), it.kmin, it.kmax, it.hasd, it.dmin, it.dmax)
                                    to == IF e.I = <<>> THEN it.last ELSE e.I[Len(e.I)][1]
                                    rs == SelectSeq(all, LAMBDA r : r[1] > it.last /\ r[1] <= to /\ (r[1] \in it.start \/ \E i \in DOMAIN e.I : e.I[i][1] = r[1]))
                                IN IF Len(rs) = Len(e.I) /\ FaultIter(s, m.s, e.var, rs, e.I) THEN {} ELSE {"fault_iter"}
              \* what has to be in storage when the call returns is not reported as done if a file could not be flushed
              [] e.op = "flush" -> IF e.r = 0 /\ (s1.buf # <<>> \/ ~Durable(s1) \/ e.sf > 0) THEN {"fault_flush_ok"} ELSE {}
              [] put -> IF e.r = 0 /\ s.c.rlc = 1 /\ e.sf > 0 THEN {"fault_flush_ok"} ELSE {}
              [] OTHER -> {}
      b2 == (IF e.nx # s1.next THEN {"fault_next"} ELSE {})
            \cup (IF ~RetentionOK(s.c, s1.next, e.mn) THEN {"retention"} ELSE {})
            \cup (IF ~LiveIntact(s1) THEN {"live_destroyed"} ELSE {})
      s2 == IF stored THEN [s1 EXCEPT !.buf = Append(@, nr), !.last = e.k, !.fly = {}] ELSE IF asc THEN [Lost(s1, {nr}) EXCEPT !.fly = @ \cup {nr}] ELSE s1
      va == VarAfter(s, e)
      s3 == IF stored /\ e.op = "putv" /\ s2.vn = va[1] THEN [s2 EXCEPT !.vo = va[2]] ELSE s2
      b3 == IF s.c.vdata = 1 /\ b0 = {} THEN JudgeVL(s3, VarSaved(s3), Visible(s3), e.L, "fault_var") ELSE {}
      \* an iterator that is open stays open until it says that it ended
      s4 == IF e.op # "in" THEN s3
            ELSE [s3 EXCEPT !.its[e.s] = IF e.end = 1 THEN [on |-> FALSE]
                                         ELSE [@ EXCEPT !.last = IF e.I = <<>> THEN @ ELSE e.I[Len(e.I)][1], !.got = @ \cup { e.I[i][1] : i \in DOMAIN e.I }]]
  IN Res(s4, m.bad \cup b0 \cup b1 \cup b2 \cup b3)

Step(s, e) ==
  IF e.op = "cfg" THEN Res(InitDB(e), {})
  ELSE IF e.op = "mod" THEN Res([s EXCEPT !.c = e], {})   \* not open: the same files, another configuration
  ELSE IF e.op = "died" THEN Res(s, {"died"})
  \* nothing is claimed about a store that should not have been opened (open_accepted was reported for it)
  ELSE IF e.op \in {"put", "putv", "get", "getv", "gall", "gvall", "iter", "aud", "flush", "stat", "ii", "in"} /\ ~s.open THEN Res(s, {})
  ELSE IF Faulty(e) /\ e.op # "open" THEN DoFault(s, e)
  ELSE CASE e.op = "open" -> DoOpen(s, e)
         [] e.op \in {"put", "putv"} -> DoPut(s, e)
         [] e.op = "get" -> DoGet(s, e)
         [] e.op = "getv" -> DoGetV(s, e)
         [] e.op = "gall" -> DoGall(s, e)
         [] e.op = "gvall" -> DoGVall(s, e)
         [] e.op = "iter" -> DoIter(s, e)
         [] e.op = "aud" -> DoAud(s, e)
         [] e.op = "flush" -> DoFlush(s, e)
         [] e.op = "stat" -> DoStat(s, e)
         [] e.op = "loss" -> DoLoss(s, e)
         [] e.op = "crash" -> DoCrash(s, e)
         [] e.op = "drop" -> DoDrop(s, e)
         [] e.op = "close" -> DoClose(s, e)
         [] e.op = "rm" -> DoRm(s, e)
         [] e.op = "age" -> DoAge(s, e)
         [] e.op = "ii" -> DoII(s, e)
         [] e.op = "in" -> DoIN(s, e)
=============================================================================

---------------------------- MODULE EmbedDBBulkTrace ----------------------------
(* Judges runs of operations on big stores (driver/gdrv.c). *)
EXTENDS EmbedDBBulk, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Roots == JsonDeserialize(IOEnv.ROOTS)
VARIABLES node, s
Res(x, bad) == [s |-> x, bad |-> bad]
Empty == [c |-> <<>>, open |-> FALSE, R |-> 1, n |-> 0, next |-> 0, min |-> 0, runs |-> <<>>, len |-> <<>>, pages |-> 0, lax |-> FALSE, alt |-> <<>>]

Settle(x, y, e, bad) ==
  LET b1 == IF e.nx # y.next THEN {"next_page"} ELSE {}
      b2 == IF ~RetentionOK(y.c, y.next, e.mn) THEN {"retention"} ELSE {}
      b3 == IF e.mn < x.min THEN {"min_back"} ELSE {}
      b4 == (IF e.dirty # 0 THEN {"disc_dirty"} ELSE {}) \cup (IF e.out # 0 THEN {"disc_range"} ELSE {})
  IN Res([y EXCEPT !.min = IF b2 \cup b3 = {} THEN e.mn ELSE @], bad \cup b1 \cup b2 \cup b3 \cup b4)

\* variable pages that k values of length len take at most; beyond the area old values may be gone
VarPages(x, k, len) == IF len < 0 THEN 0 ELSE ((len + 4) * k) \div (x.c.ps - x.c.vh) + 1 + Max2(0, (k \div x.R) + 1) + (IF x.c.rlc = 1 THEN k ELSE 0)
Var(x, k, len) == LET p == IF len > 0 /\ k > 2000000000 \div (len + 4) THEN 1000000 ELSE x.pages + VarPages(x, k, len)
                  IN [x EXCEPT !.len = Append(@, <<x.n, len>>), !.pages = Min2(p, 1000000), !.lax = @ \/ p > x.c.NV - 2 * x.c.E]
Accept(x, k, len) == Fill(Var(x, k, len), k)

DoGet(x, e) == UNION { LET r == e.q[i][1] IN
   IF e.q[i][2] = 0 THEN (IF ~Stored(x, r) THEN {"get_phantom"} ELSE IF e.q[i][3] = 0 THEN {"get_wrong"} ELSE {})
   ELSE IF Stored(x, r) THEN {"get_missing"} ELSE {} : i \in DOMAIN e.q }
DoGetV(x, e) == UNION { LET r == e.q[i][1]  v == e.q[i][4]  l == LenOf(x.len, r, Len(x.len)) IN
   IF e.q[i][2] \in {0, 1} THEN
     IF ~Stored(x, r) THEN {"getv_phantom"}
     ELSE IF e.q[i][3] = 0 THEN {"getv_wrong"}
     ELSE IF v = l THEN {}
     ELSE IF v = -2 THEN (IF x.lax /\ l >= 0 THEN {} ELSE {"var_deleted"}) ELSE {"var_wrong"}
   ELSE IF Stored(x, r) THEN {"getv_missing"} ELSE {} : i \in DOMAIN e.q }
\* newer records keep their variable data when older ones do
Ordered(x, e) == \A i, j \in DOMAIN e.q : (e.q[i][1] < e.q[j][1] /\ e.q[i][4] >= 0 /\ e.q[j][4] = -2) => FALSE
DoScan(x, e) ==
  LET a == Max2(First(x), IF e.kmin = -9 THEN 0 ELSE e.kmin)
      b == Min2(x.n - 1, IF e.kmax = -9 THEN x.n - 1 ELSE e.kmax)
      lo == IF e.dmin = -9 THEN 0 ELSE Max2(0, e.dmin)
      hi == IF e.dmax = -9 THEN x.c.M - 1 ELSE Min2(x.c.M - 1, e.dmax)
      k == Count(x, a, b, lo, hi)
  IN IF e.wrong # 0 \/ e.cnt # k THEN {"iter"}
     ELSE IF k > 0 /\ e.dmin = -9 /\ e.dmax = -9 /\ (e.first # a \/ e.last # b) THEN {"iter"}
     ELSE IF k > 0 /\ (e.first < a \/ e.last > b \/ e.first % x.c.M < lo \/ e.last % x.c.M > hi) THEN {"iter"} ELSE {}
Lose(x) == IF x.c.rlc = 1 THEN x ELSE LET m == PageFirst(x, x.next) IN [x EXCEPT !.n = m, !.len = SelectSeq(@, LAMBDA l : l[1] <= m)]
Reopen(x, e) ==
  LET fly == IF x.c.rlc = 1 /\ e.last = x.n THEN 1 ELSE 0     \* the insert in flight at the crash may be there
       y == [x EXCEPT !.open = TRUE, !.n = @ + fly]
       b1 == IF e.nx # x.next THEN {"rec_next"} ELSE {}
       b2 == IF ~RetentionOK(x.c, x.next, e.mn) \/ e.mn < Max2(0, x.next - x.c.N) THEN {"rec_retention"} ELSE {}
       b3 == IF e.mn > x.min + x.c.E THEN {"rec_dropped"} ELSE {}
       b4 == IF y.n > PageFirst(y, e.mn) /\ e.last # y.n - 1 THEN {"rec_content"} ELSE {}
       b5 == (IF e.dirty # 0 THEN {"disc_dirty"} ELSE {}) \cup (IF e.out # 0 THEN {"disc_range"} ELSE {})
              IN Res([y EXCEPT !.min = IF b1 \cup b2 = {} THEN e.mn ELSE @], b1 \cup b2 \cup b3 \cup b4 \cup b5)
Step(x, e) ==
  CASE e.op = "init" -> Res([Empty EXCEPT !.c = e], {})
    [] e.op = "died" -> Res(x, {"died"})
    [] e.op = "open" ->
         IF e.r # 0 THEN Res([x EXCEPT !.open = FALSE], {"open_refused"})
         ELSE IF e.reset = 1 THEN Settle([x EXCEPT !.min = 0], [Empty EXCEPT !.c = x.c, !.open = TRUE, !.R = e.R], e, {})
         ELSE IF x.alt # <<>> /\ e.nx = x.alt[1].next /\ e.nx # x.next THEN Reopen([x.alt[1] EXCEPT !.alt = <<>>], e)
         ELSE Reopen([x EXCEPT !.alt = <<>>], e)
    [] ~x.open -> Res(x, {})
    [] e.op = "fill" -> Settle(x, Accept(x, e.acc, e.len), e, IF e.acc # e.k THEN {"put_refused"} ELSE {})
    \* a crash in the insert after acc accepted ones: if the write buffer was full, that insert may have written it out
    [] e.op = "crash" -> LET y == [Accept(x, e.acc, e.len) EXCEPT !.min = Max2(@, e.mn)]
                             z == IF Buffered(y) = y.R THEN [Fill(y, 1) EXCEPT !.n = y.n] ELSE y
                         IN Res([Lose(y) EXCEPT !.open = FALSE, !.alt = <<Lose(z)>>], {})
    [] e.op = "drop" -> Res([Lose(x) EXCEPT !.open = FALSE], {})
    [] e.op = "flush" -> Settle(x, Flush(x), e, IF e.r # 0 THEN {"flush_failed"} ELSE {})
    [] e.op = "get" -> Settle(x, x, e, DoGet(x, e))
    [] e.op = "getv" -> Settle(x, x, e, DoGetV(x, e) \cup IF Ordered(x, e) THEN {} ELSE {"var_deleted"})
    [] e.op = "scan" -> Settle(x, x, e, DoScan(x, e))
Kids(n) == IF n = 0 THEN Roots ELSE Trace[n].c
Init == node = 0 /\ s = Empty
Next ==
  \E m \in {Kids(node)[i] : i \in DOMAIN Kids(node)} :
    LET e == Trace[m]
        r == Step(IF node = 0 THEN Empty ELSE s, e)
    IN node' = m /\ s' = r.s /\ (r.bad # {} => PrintT(<<"BAD", m, e.t, e.op, r.bad>>))
Spec == Init /\ [][Next]_<<node, s>>
View == node
=============================================================================

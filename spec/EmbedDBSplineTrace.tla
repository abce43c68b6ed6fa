------------------------- MODULE EmbedDBSplineTrace -------------------------
(* Judges recorded operations of the learned index. *)
EXTENDS EmbedDBSpline, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Roots == JsonDeserialize(IOEnv.ROOTS)
VARIABLES node, s
Res(x, bad) == [s |-> x, bad |-> bad]
Empty == [h |-> <<>>, err |-> 0, size |-> 0]
Step(x, e) ==
  CASE e.op = "si" -> Res([h |-> <<>>, err |-> e.err, size |-> e.size], {})
    [] e.op = "sa" -> Res([x EXCEPT !.h = AddKey(@, e.k, e.pg)], IF e.cnt > x.size \/ e.cnt < 1 THEN {"capacity"} ELSE {})
    [] e.op = "se" -> Res(IF e.cnt = 0 THEN [x EXCEPT !.h = <<>>] ELSE x,
                          IF e.r = 0 THEN (IF e.cnt # e.c0 - e.e THEN {"erase"} ELSE {})
                          ELSE (IF e.cnt # e.c0 THEN {"erase"} ELSE {}))
    [] e.op = "sf" ->
         Res(x, UNION { LET k == e.q[i][1]  loc == e.q[i][2]  low == e.q[i][3]  high == e.q[i][4]
                        IN IF x.h = <<>> THEN {}
                           ELSE (IF Brackets(x.h, k, loc, low, high) THEN {} ELSE {"bracket"})
                                \cup (IF k >= e.k0 /\ k <= x.h[Len(x.h)][1] /\ ~Within(x.h, x.err, k, loc, low, high) THEN {"error_bound"} ELSE {})
                        : i \in DOMAIN e.q })
    [] e.op = "died" -> Res(x, {"died"})
Kids(n) == IF n = 0 THEN Roots ELSE Trace[n].c
Init == node = 0 /\ s = Empty
Next ==
  \E m \in {Kids(node)[i] : i \in DOMAIN Kids(node)} :
    LET e == Trace[m]
        r == Step(IF node = 0 THEN Empty ELSE s, e)
    IN node' = m /\ s' = r.s /\ (r.bad # {} => PrintT(<<"BAD", m, e.t, e.op, r.bad>>))
Spec == Init /\ [][Next]_<<node, s>>
View == node
=============================================================================

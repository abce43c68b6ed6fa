-------------------------- MODULE EmbedDBQueryTrace --------------------------
(* Judges recorded executions of query trees. *)
EXTENDS EmbedDBQuery, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Roots == JsonDeserialize(IOEnv.ROOTS)
VARIABLES node, qs
Res(s, bad) == [s |-> s, bad |-> bad]
Step(s, e) ==
  CASE e.op = "q" ->
         LET q == Open(e.tree) IN Res([s EXCEPT ![e.s] = q], IF e.sch # q.sch /\ ~Refused(e.tree) THEN {"schema"} ELSE {})
    [] e.op = "n" ->
         Res(s, (IF SchemaOK(e.cols) THEN (IF e.r = 0 \/ e.sch # SchemaOf(e.cols) \/ e.len # Width(e.sch) THEN {"schema"} ELSE {})
                 ELSE IF e.r # 0 THEN {"schema"} ELSE {})
                \cup (IF e.lm # 0 THEN {"query_memory"} ELSE {}))
    [] e.op = "x" ->
         LET q == s[e.s]
         IN Res([s EXCEPT ![e.s] = Advance(q)],
                IF Done(q) THEN (IF e.r # 0 THEN {"extra_row"} ELSE {})
                ELSE IF e.r = 0 THEN {"missing_row"}
                ELSE IF RowOK(q.sch, q.rows[q.pos], e.b) THEN {} ELSE {"wrong_row"})
    \* closing a query and freeing its operators, schemas, iterators and functions leaves nothing behind
    [] e.op = "c" -> Res(s, IF e.lm # 0 THEN {"query_memory"} ELSE {})
    [] e.op = "died" -> Res(s, {"died"})
Kids(n) == IF n = 0 THEN Roots ELSE Trace[n].c
Init == node = 0 /\ qs = [i \in 0 .. 3 |-> [sch |-> <<>>, rows |-> <<>>, pos |-> 1]]
Next ==
  \E m \in {Kids(node)[i] : i \in DOMAIN Kids(node)} :
    LET e == Trace[m]
        r == Step(IF node = 0 THEN [i \in 0 .. 3 |-> [sch |-> <<>>, rows |-> <<>>, pos |-> 1]] ELSE qs, e)
    IN node' = m /\ qs' = r.s /\ (r.bad # {} => PrintT(<<"BAD", m, e.t, e.op, r.bad>>))
Spec == Init /\ [][Next]_<<node, qs>>
View == node
=============================================================================

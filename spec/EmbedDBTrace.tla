---------------------------- MODULE EmbedDBTrace ----------------------------
(***************************************************************************)
(* Trace validation: walks the forest of events recorded from the real code *)
(* (node 0 is the root; Trace[n].c lists the children of n) and judges every *)
(* event against the specification.  A disagreement is printed as            *)
(*   <<"BAD", node, op, {tags}>>  and validation goes on.                    *)
(***************************************************************************)
EXTENDS EmbedDBStep, Json, IOUtils

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)
Roots == JsonDeserialize(IOEnv.ROOTS)

VARIABLES node, dbs
vars == <<node, dbs>>

Kids(n) == IF n = 0 THEN Roots ELSE Trace[n].c

Init == node = 0 /\ dbs = [i \in 0 .. 3 |-> [c |-> 0]]

Next ==
  \E m \in ToSet(Kids(node)) :
    LET e == Trace[m]
        r == Step(dbs[e.i], e)
    IN /\ node' = m
       /\ dbs' = [dbs EXCEPT ![e.i] = r.s]
       /\ (r.bad # {} => PrintT(<<"BAD", m, e.t, e.op, r.bad>>))

Spec == Init /\ [][Next]_vars
View == node
=============================================================================

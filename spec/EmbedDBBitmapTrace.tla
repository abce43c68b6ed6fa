------------------------- MODULE EmbedDBBitmapTrace -------------------------
(* Judges recorded calls of the bitmap functions and the comparators. *)
EXTENDS EmbedDBBitmap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Roots == JsonDeserialize(IOEnv.ROOTS)
VARIABLE node
Judge(e) ==
  CASE e.op = "upd" -> UpdateBad(e)
    [] e.op = "rng" -> RangeBad(e)
    [] e.op = "cmp" -> CompareBad(e)
    [] e.op = "died" -> {"died"}
Kids(n) == IF n = 0 THEN Roots ELSE Trace[n].c
Init == node = 0
Next == \E m \in ToSet(Kids(node)) :
          LET e == Trace[m]  bad == Judge(e)
          IN node' = m /\ (bad # {} => PrintT(<<"BAD", m, e.t, e.op, bad>>))
Spec == Init /\ [][Next]_node
=============================================================================

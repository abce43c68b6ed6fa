----------------------------- MODULE EmbedDBTwin -----------------------------
(***************************************************************************)
(* Two implementations of one specification, run on the same history, must   *)
(* take the same steps.  EmbedDB leaves no choice in its results, so the     *)
(* refinement mapping between two builds is the identity on everything a     *)
(* user observes: x and y are the observable parts of the i-th step of both. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Roots == JsonDeserialize(IOEnv.ROOTS)
VARIABLE node

Same(a, b) == DOMAIN a = DOMAIN b /\ \A f \in DOMAIN a : a[f] = b[f]
Judge(e) ==
  CASE e.what = "missing" -> {"steps_differ"}
    [] e.op = "died" -> {}                       \* both ended: other properties
    [] OTHER -> IF Same(e.x, e.y) THEN {} ELSE {IF e.what = "images" THEN "image_not_shared" ELSE "results_differ"}

Kids(n) == IF n = 0 THEN Roots ELSE Trace[n].c
Init == node = 0
Next == \E m \in ToSet(Kids(node)) :
          LET e == Trace[m]  bad == Judge(e)
          IN node' = m /\ (bad # {} => PrintT(<<"BAD", m, e.t, e.op, bad>>))
Spec == Init /\ [][Next]_node
=============================================================================

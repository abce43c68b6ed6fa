-------------------------- MODULE EmbedDBFilesTrace --------------------------
(* Judges recorded calls of the desktop storage interface. *)
EXTENDS EmbedDBFiles, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Roots == JsonDeserialize(IOEnv.ROOTS)
VARIABLES node, fs
Fresh == [lim |-> FALSE, f |-> [i \in 0 .. 3 |-> NewFile]]
Step(s, e) ==
  LET one(r) == Res([s EXCEPT !.f[e.f] = r.s], r.bad)  f == s.f[e.f] IN
  CASE e.op = "died" -> Res(s, {"died"})
    [] e.op = "kill" -> Res([lim |-> FALSE, f |-> [i \in 0 .. 3 |-> Kill(s.f[i])]], {})
    [] e.op = "limit" -> Res([s EXCEPT !.lim = TRUE], {})
    [] e.op = "area" -> one(Res(Area(f, e), {}))
    [] e.op = "open" -> one(Open(f, e))
    [] e.op = "write" -> one(Write(f, e, s.lim))
    [] e.op = "read" -> one(Read(f, e, s.lim))
    [] e.op = "erase" -> one(Erase(f, e, s.lim))
    [] e.op = "sync" -> one(Sync(f, e, s.lim))
    [] e.op = "close" -> one(Close(f, e, s.lim))
Kids(n) == IF n = 0 THEN Roots ELSE Trace[n].c
Init == node = 0 /\ fs = Fresh
Next == \E m \in ToSet(Kids(node)) :
          LET e == Trace[m]  r == Step(IF node = 0 THEN Fresh ELSE fs, e)
          IN node' = m /\ fs' = r.s /\ (r.bad # {} => PrintT(<<"BAD", m, e.t, e.op, r.bad>>))
Spec == Init /\ [][Next]_<<node, fs>>
View == node
=============================================================================

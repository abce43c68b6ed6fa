--------------------------- MODULE EmbedDBSplineMC ---------------------------
(***************************************************************************)
(* Design model of the learned index: the greedy spline corridor with a     *)
(* bounded number of points, checked exhaustively over all short sequences  *)
(* of key gaps and removals.  Its behaviours (variable ops) are printed and *)
(* replayed on the code.                                                    *)
(***************************************************************************)
EXTENDS EmbedDBSpline, SequencesExt, IOUtils
Gaps == {atoi(IOEnv.G1), atoi(IOEnv.G2), atoi(IOEnv.G3)}
L == atoi(IOEnv.LEN)
Size == atoi(IOEnv.SIZE)
Err == atoi(IOEnv.ERR)

VARIABLES h, pts, up, lo, tmp, first, ops
vars == <<h, pts, up, lo, tmp, first, ops>>

Init == h = <<>> /\ pts = <<>> /\ up = <<0, 0>> /\ lo = <<0, 0>> /\ tmp = FALSE /\ first = 0 /\ ops = <<>>

Lower(p) == IF p < Err THEN 0 ELSE p - Err
\* is the line to a steeper than the line to b, seen from o ?
Left(o, a, b) == (a[2] - o[2]) * (b[1] - o[1]) > (b[2] - o[2]) * (a[1] - o[1])
Drop(p, m) == IF m > Len(p) \/ Len(p) - m = 1 THEN p ELSE SubSeq(p, m + 1, Len(p))

Add(g) ==
  LET page == IF h = <<>> THEN 0 ELSE LastPage(h) + 1
      key == IF h = <<>> THEN g ELSE h[Len(h)][1] + g
      pt == <<key, page>>
  IN /\ h' = Append(h, pt)
     /\ ops' = Append(ops, g)
     /\ IF pts = <<>>
        THEN pts' = <<pt>> /\ first' = page /\ tmp' = FALSE /\ UNCHANGED <<up, lo>>
        ELSE LET fresh == Len(h) = 1
                 up0 == IF fresh THEN <<key, page + Err>> ELSE up
                 lo0 == IF fresh THEN <<key, Lower(page)>> ELSE lo
                 base == IF tmp THEN SubSeq(pts, 1, Len(pts) - 1) ELSE pts
                 o == base[Len(base)]
                 b1 == IF Len(base) >= Size THEN Drop(base, 1) ELSE base
             IN IF Left(o, pt, up0) \/ Left(o, lo0, pt)
                THEN LET b2 == Append(b1, h[Len(h)])
                         b3 == IF Len(b2) >= Size THEN Drop(b2, 1) ELSE b2
                     IN pts' = Append(b3, pt) /\ tmp' = TRUE /\ up' = <<key, page + Err>> /\ lo' = <<key, Lower(page)>> /\ UNCHANGED first
                ELSE /\ pts' = Append(b1, pt) /\ tmp' = TRUE /\ UNCHANGED first
                     /\ up' = IF Left(o, up0, <<key, page + Err>>) THEN <<key, page + Err>> ELSE up0
                     /\ lo' = IF Left(o, <<key, Lower(page)>>, lo0) THEN <<key, Lower(page)>> ELSE lo0

Erase(m) ==
  /\ m < Len(pts) /\ Len(pts) - m # 1
  /\ pts' = SubSeq(pts, m + 1, Len(pts)) /\ ops' = Append(ops, -m)
  /\ UNCHANGED <<h, up, lo, tmp, first>>

Next == Len(ops) < L /\ ((\E g \in Gaps : Add(g)) \/ (\E m \in 1 .. 2 : Erase(m)))
Spec == Init /\ [][Next]_vars

\* the answer the design gives to a search
Find(k) ==
  IF k < pts[1][1] \/ Len(pts) = 1 THEN <<first, pts[1][2], (first + pts[1][2]) \div 2>>
  ELSE IF k > pts[Len(pts)][1] THEN <<pts[Len(pts)][2], pts[Len(pts)][2], pts[Len(pts)][2]>>
  ELSE LET i == CHOOSE j \in 2 .. Len(pts) : pts[j - 1][1] <= k /\ k <= pts[j][1]
           d == pts[i - 1]  u == pts[i]
           loc == d[2] + ((k - d[1]) * (u[2] - d[2])) \div (u[1] - d[1])
       IN <<IF Err > loc THEN 0 ELSE loc - Err, IF loc + Err > LastPage(h) THEN LastPage(h) ELSE loc + Err, loc>>
Bracketed == h = <<>> \/ \A k \in h[1][1] .. h[Len(h)][1] + 1 : LET f == Find(k) IN Brackets(h, k, f[3], f[1], f[2])
Bounded == Len(pts) <= Size
Emit == Len(ops) = L => PrintT(<<"OPS", ops>>)
=============================================================================

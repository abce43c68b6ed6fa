---------------------------- MODULE EmbedDBQuery ----------------------------
(***************************************************************************)
(* The query operators as functions on sequences of records, and a query in *)
(* execution as a state machine that delivers one row of the result per     *)
(* step and then reports the end for ever.                                  *)
(* A schema is a sequence of column widths in bytes, negative for signed    *)
(* columns; a record is a sequence of column values; a column value is      *)
(* [k |-> 0, b |-> bytes] or, for averages, the exact quotient              *)
(* [k |-> 1, sg, s, n, fits] which is compared up to rounding.               *)
(***************************************************************************)
EXTENDS Bytes, SequencesExt

RECURSIVE Cols(_, _, _)
Cols(sch, bytes, i) ==            \* split a record into its columns
  IF i > Len(sch) THEN <<>>
  ELSE LET w == Abs(sch[i]) IN <<[k |-> 0, b |-> SubSeq(bytes, 1, w)]>> \o Cols(sch, SubSeq(bytes, w + 1, Len(bytes)), i + 1)
Split(sch, bytes) == Cols(sch, bytes, 1)

Holds(op, c) ==
  CASE op = 0 -> c > 0 [] op = 1 -> c < 0 [] op = 2 -> c >= 0 [] op = 3 -> c <= 0 [] op = 4 -> c = 0 [] op = 5 -> c # 0

Select(rows, Test(_)) == SelectSeq(rows, Test)

\* --- groups of consecutive records: records i and i+1 belong together if Same ---
Same(g, a, x, y) ==
  CASE g = 0 -> TRUE
    [] g = 1 -> FALSE
    [] g = 2 -> x[a + 1].b = y[a + 1].b
    [] g = 3 -> LET p == x[1].b  q == y[1].b
                IN p[1] \div (2 ^ a) = q[1] \div (2 ^ a) /\ Tail(p) = Tail(q)
Groups(rows, g, a) ==
  IF rows = <<>> THEN <<>>
  ELSE LET B == {1} \cup {i \in 2 .. Len(rows) : ~Same(g, a, rows[i - 1], rows[i])}
           bs == SetToSortSeq(B, LAMBDA p, q : p < q)
       IN [j \in DOMAIN bs |-> SubSeq(rows, bs[j], IF j = Len(bs) THEN Len(rows) ELSE bs[j + 1] - 1)]

ColVals(grp, c) == [i \in DOMAIN grp |-> grp[i][c + 1].b]
SumMod(vals, signed) == FoldLeft(LAMBDA acc, v : AddMod(acc, IF signed THEN SignExt(v, 8) ELSE ZeroExt(v, 8), 8), Fill(8, 0), vals)
Extreme(vals, signed, want) == FoldLeft(LAMBDA acc, v : IF Cmp(v, acc, signed) = want THEN v ELSE acc, vals[1], vals)
SumNat(vals) == FoldLeft(LAMBDA acc, v : SubSeq(NAdd(acc, v), 1, 12), Fill(12, 0), vals)
Two63 == <<0, 0, 0, 0, 0, 0, 0, 128>>
Two64 == <<0, 0, 0, 0, 0, 0, 0, 0, 1>>
Average(vals, signed) ==
  LET pos == SumNat(IF signed THEN SelectSeq(vals, LAMBDA v : ~Neg(v)) ELSE vals)
      ng == IF signed THEN SelectSeq(vals, Neg) ELSE <<>>
      neg == SumNat([i \in DOMAIN ng |-> MagOf(ng[i])])
      sg == NCmp(pos, neg) < 0
      s == IF sg THEN NSub(neg, pos) ELSE NSub(pos, neg)
  IN [k |-> 1, sg |-> sg, s |-> s, n |-> Len(vals), b |-> <<>>, \* the 64-bit sum of the library holds it
      fits |-> NCmp(s, IF signed THEN Two63 ELSE Two64) < 0]

\* aggregate functions <<kind, arg>>: count sum min max avg last first
Fn(f, grp, sch) ==
  LET c == IF f[1] = 4 THEN f[2] % 100 ELSE f[2]
      signed == sch[c + 1] < 0
      B(x) == [k |-> 0, b |-> x]
  IN CASE f[1] = 0 -> B(LE(Len(grp), 4))
       [] f[1] = 1 -> B(SumMod(ColVals(grp, c), signed))
       [] f[1] = 2 -> B(Extreme(ColVals(grp, c), signed, -1))
       [] f[1] = 3 -> B(Extreme(ColVals(grp, c), signed, 1))
       [] f[1] = 4 -> Average(ColVals(grp, c), signed)
       [] f[1] = 5 -> grp[Len(grp)][c + 1]
       [] f[1] = 6 -> grp[1][c + 1]
FnWidth(f, sch) ==
  CASE f[1] = 0 -> 4 [] f[1] = 1 -> -8 [] f[1] = 4 -> f[2] \div 100 [] OTHER -> sch[f[2] + 1]

\* --- long groups: n records of which record i (from 0) has i \div L in column 0 and row i % m of a table in the other
\* columns.  A group is known by how often each row of the table occurs in it and by its first and last record. ---
CycGroups(t, K) ==                \* K: the rows of the table (from 0) that pass the selection, if there is one
  LET m == Len(t.rows)
      One(g) ==
        LET a == g * t.L  b == MinI(t.n, a + t.L) - 1
            Before(k, i) == (i - k + m - 1) \div m               \* how many of 0 .. i-1 are k modulo m
            Cnt(k) == Before(k, b + 1) - Before(k, a)
            Ks == {k \in K : Cnt(k) > 0}
            Row(k) == <<[k |-> 0, b |-> LE(g, Abs(t.sch[1]))]>> \o Split(Tail(t.sch), t.rows[k + 1])
            F == CHOOSE k \in Ks : \A j \in Ks : (k - a) % m <= (j - a) % m
            Z == CHOOSE k \in Ks : \A j \in Ks : (b - k) % m <= (b - j) % m
        IN IF Ks = {} THEN <<>> ELSE <<[w |-> [j \in DOMAIN SetToSeq(Ks) |-> <<Cnt(SetToSeq(Ks)[j]), Row(SetToSeq(Ks)[j])>>], first |-> Row(F), last |-> Row(Z)]>>
  IN FlattenSeq([g \in 1 .. (t.n + t.L - 1) \div t.L |-> One(g - 1)])
FnW(f, grp, sch) ==
  LET c == IF f[1] = 4 THEN f[2] % 100 ELSE f[2]
      signed == sch[c + 1] < 0
      B(x) == [k |-> 0, b |-> x]
      Vals == [i \in DOMAIN grp.w |-> grp.w[i][2][c + 1].b]
      Times(neg) == FoldLeft(LAMBDA acc, i : IF (signed /\ Neg(Vals[i])) # neg THEN acc
                                             ELSE NAdd(acc, NMul(IF neg THEN MagOf(Vals[i]) ELSE Vals[i], grp.w[i][1])), <<0>>, [i \in DOMAIN Vals |-> i])
      pos == Times(FALSE)  neg == Times(TRUE)
      sg == NCmp(pos, neg) < 0
      s == IF sg THEN NSub(neg, pos) ELSE NSub(pos, neg)
      n == FoldLeft(LAMBDA acc, x : acc + x[1], 0, grp.w)
  IN CASE f[1] = 0 -> B(LE(n, 4))
       [] f[1] = 1 -> B(IF sg THEN SubSeq(AddC(Invert(Pad(s, 8)), <<1>>, 1, 8, 0), 1, 8) ELSE SubSeq(Pad(s, 8), 1, 8))
       [] f[1] = 2 -> B(Extreme(Vals, signed, -1))
       [] f[1] = 3 -> B(Extreme(Vals, signed, 1))
       [] f[1] = 4 -> [k |-> 1, sg |-> sg, s |-> s, n |-> n, b |-> <<>>, fits |-> NCmp(s, IF signed THEN Two63 ELSE Two64) < 0]
       [] f[1] = 5 -> grp.last[c + 1]
       [] f[1] = 6 -> grp.first[c + 1]

\* equal keys; both inputs ascending and distinct in their first column
Joined(x, y) ==
  LET R(i) == SelectSeq(y, LAMBDA r : r[1].b = x[i][1].b)
  IN FoldLeft(LAMBDA acc, i : LET m == R(i) IN IF m = <<>> THEN acc ELSE Append(acc, x[i] \o m[1]), <<>>, [i \in DOMAIN x |-> i])

\* --- what is refused ---
\* a schema with a column that has no size, or neither sign (0 signed, 1 unsigned)
SchemaOK(cols) == \A i \in DOMAIN cols : cols[i][1] > 0 /\ cols[i][2] \in {0, 1}
SchemaOf(cols) == [i \in DOMAIN cols |-> IF cols[i][2] = 0 THEN -cols[i][1] ELSE cols[i][1]]
Width(sch) == FoldLeft(LAMBDA acc, c : acc + Abs(c), 0, sch)
\* a scan whose schema does not describe the records of the store, a join whose first columns cannot be compared
\* as keys, and everything that reads from one of them: such a query delivers no rows
RECURSIVE Cols1(_)
Cols1(t) ==
  CASE t.t \in {"src", "scan", "cyc"} -> t.sch
    [] t.t = "proj" -> LET x == Cols1(t.x) IN [i \in DOMAIN t.c |-> x[t.c[i] + 1]]
    [] t.t = "sel" -> Cols1(t.x)
    [] t.t = "join" -> Cols1(t.x) \o Cols1(t.y)
    [] t.t = "agg" -> LET x == Cols1(t.x) IN [i \in DOMAIN t.f |-> FnWidth(t.f[i], x)]
RECURSIVE Refused(_)
Refused(t) ==
  CASE t.t = "scan" -> t.sch[1] # t.ks \/ Width(t.sch) # t.ks + t.ds
    [] t.t = "join" -> LET x == Cols1(t.x)  y == Cols1(t.y) IN Refused(t.x) \/ Refused(t.y) \/ x[1] # y[1] \/ x[1] < 0
    [] t.t \in {"proj", "sel", "agg"} -> Refused(t.x)
    [] OTHER -> FALSE

\* result of a query tree: [sch, rows]
RECURSIVE Eval(_)
Eval(t) ==
  CASE t.t = "src" -> [sch |-> t.sch, rows |-> [i \in DOMAIN t.rows |-> Split(t.sch, t.rows[i])]]
    [] t.t = "scan" ->
         LET all == [i \in DOMAIN t.rows |-> Split(t.sch, t.rows[i])]
         IN [sch |-> t.sch, rows |-> SelectSeq(all, LAMBDA r : (t.lo = <<>> \/ CmpU(r[1].b, t.lo) >= 0) /\ (t.hi = <<>> \/ CmpU(r[1].b, t.hi) <= 0))]
    [] t.t = "proj" ->
         LET x == Eval(t.x) IN [sch |-> [i \in DOMAIN t.c |-> x.sch[t.c[i] + 1]], rows |-> [j \in DOMAIN x.rows |-> [i \in DOMAIN t.c |-> x.rows[j][t.c[i] + 1]]]]
    [] t.t = "sel" ->
         LET x == Eval(t.x) IN [sch |-> x.sch, rows |-> SelectSeq(x.rows, LAMBDA r : Holds(t.o, Cmp(r[t.c + 1].b, t.v, x.sch[t.c + 1] < 0)))]
    [] t.t = "join" ->
         LET x == Eval(t.x)  y == Eval(t.y) IN [sch |-> x.sch \o y.sch, rows |-> Joined(x.rows, y.rows)]
    [] t.t = "agg" /\ t.x.t = "cyc" ->
         LET x == t.x
             K == {k \in 0 .. Len(x.rows) - 1 : x.sel = <<>> \/ Holds(x.sel.o, Cmp(Split(Tail(x.sch), x.rows[k + 1])[x.sel.c].b, x.sel.v, x.sch[x.sel.c + 1] < 0))}
             g == CycGroups(x, K)
         IN [sch |-> [i \in DOMAIN t.f |-> FnWidth(t.f[i], x.sch)], rows |-> [j \in DOMAIN g |-> [i \in DOMAIN t.f |-> FnW(t.f[i], g[j], x.sch)]]]
    [] t.t = "agg" ->
         LET x == Eval(t.x)  g == Groups(x.rows, t.g, t.a)
         IN [sch |-> [i \in DOMAIN t.f |-> FnWidth(t.f[i], x.sch)], rows |-> [j \in DOMAIN g |-> [i \in DOMAIN t.f |-> Fn(t.f[i], g[j], x.sch)]]]

\* a delivered row against the expected one
ColOK(want, got) == IF want.k = 0 THEN want.b = got ELSE (~want.fits \/ IsQuotient(got, want.sg, want.s, want.n))
RowOK(sch, want, bytes) ==
  LET g == Split(sch, bytes) IN \A i \in DOMAIN want : ColOK(want[i], g[i].b)

\* --- the state machine: a query is [sch, rows, pos] ---
Open(t) == IF Refused(t) THEN [sch |-> Cols1(t), rows |-> <<>>, pos |-> 1]
           ELSE LET x == Eval(t) IN [sch |-> x.sch, rows |-> x.rows, pos |-> 1]
Done(q) == q.pos > Len(q.rows)
Advance(q) == IF Done(q) THEN q ELSE [q EXCEPT !.pos = @ + 1]
=============================================================================

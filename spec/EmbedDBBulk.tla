------------------------------ MODULE EmbedDBBulk ------------------------------
(***************************************************************************)
(* A store of any size, abstracted: records are numbered 0, 1, 2, .. in the  *)
(* order they were accepted; record r has data r % M.  What is stored is an   *)
(* interval of records, determined by the pages that are kept.                *)
(*   n     records accepted and not lost         next  pages written          *)
(*   min   oldest page kept                                                    *)
(*   runs  sequence of <<page, record, per>>: pages from page on (up to the    *)
(*         page of the next run) hold per records each, beginning with record  *)
(*   len   intervals of records with their variable data: <<record, length>>   *)
(*   lax   variable data may have been overwritten                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

Reserve(c) == IF c.rlc = 1 THEN 2 * c.E ELSE 0
Capacity(c) == c.N - Reserve(c)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

RetentionOK(c, next, min) ==
  /\ min % c.E = 0 /\ min >= 0 /\ min <= next
  /\ next - min <= Capacity(c)
  /\ min <= Max2(0, next - (Capacity(c) - c.E))

RECURSIVE RunOf(_, _, _)
RunOf(runs, p, i) == IF i = Len(runs) \/ runs[i + 1][1] > p THEN runs[i] ELSE RunOf(runs, p, i + 1)
\* the first record of page p; of the page after the last one: the first record that is not on a page
PageFirst(s, p) ==
  IF s.runs = <<>> THEN 0
  ELSE LET r == RunOf(s.runs, p, 1) IN r[2] + (p - r[1]) * r[3]
First(s) == PageFirst(s, s.min)
Buffered(s) == s.n - PageFirst(s, s.next)

AddRun(s, page, rec, per) ==
  IF Len(s.runs) > 0 /\ s.runs[Len(s.runs)][3] = per THEN s.runs ELSE Append(s.runs, <<page, rec, per>>)

\* k records are inserted: a full write buffer is written out before the next record
Fill(s, k) ==
  LET b == Buffered(s)
      f == IF k = 0 THEN 0 ELSE (b + k - 1) \div s.R
      rs == IF f = 0 THEN s.runs ELSE AddRun(s, s.next, s.n - b, s.R)
  IN [s EXCEPT !.n = @ + k, !.next = @ + f, !.runs = rs]

\* runs of different lengths of the last page must not be mistaken for longer runs: a partly filled page ends its run
Flush(s) ==
  LET b == Buffered(s) IN
  IF b = 0 THEN s ELSE [s EXCEPT !.next = @ + 1, !.runs = AddRun(s, s.next, s.n - b, b)]

Stored(s, r) == First(s) <= r /\ r < s.n

\* the number of records in a..b whose data is in lo..hi, 0 <= lo, hi < M
Below(x, m, lo, hi) ==      \* among 0 .. x - 1
  (x \div m) * (hi - lo + 1) + Max2(0, Min2(x % m, hi + 1) - lo)
Count(s, a, b, lo, hi) == IF a > b \/ lo > hi THEN 0 ELSE Below(b + 1, s.c.M, lo, hi) - Below(a, s.c.M, lo, hi)

RECURSIVE LenOf(_, _, _)
LenOf(ls, r, i) == IF i = 0 THEN -1 ELSE IF ls[i][1] <= r THEN ls[i][2] ELSE LenOf(ls, r, i - 1)
=============================================================================

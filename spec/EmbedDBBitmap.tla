--------------------------- MODULE EmbedDBBitmap ---------------------------
(***************************************************************************)
(* The contract between the bitmap functions an application hands to        *)
(* EmbedDB, and the order the supplied comparators implement.  A bitmap is   *)
(* the set of its bits; what the bits mean is up to the implementation.      *)
(***************************************************************************)
EXTENDS Bytes, SequencesExt

\* adding a value keeps what is there, and the value is found afterwards
UpdateBad(e) ==
  LET b0 == ToSet(e.b0)  b1 == ToSet(e.b1)  z == ToSet(e.z) IN
  (IF z = {} \/ b1 # b0 \cup z THEN {"bitmap_update"} ELSE {})
  \cup (IF e.in1 = 0 \/ (e.in0 # 0) # (z \cap b0 # {}) THEN {"bitmap_member"} ELSE {})
  \cup (IF e.same = 0 THEN {"bitmap_update"} ELSE {})

\* the bitmap of a range overlaps the bitmap of every value in the range
RangeBad(e) ==
  LET b == ToSet(e.b) IN
  UNION { LET v == q[1]  z == ToSet(q[3])  in == (e.hl = 0 \/ v >= e.lo) /\ (e.hh = 0 \/ v <= e.hi)
          IN (IF in /\ z \cap b = {} THEN {"bitmap_range"} ELSE {})
             \cup (IF (q[2] # 0) # (z \cap b # {}) THEN {"bitmap_member"} ELSE {}) : q \in ToSet(e.q) }

Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
CompareBad(e) == IF Sign(e.r) = CmpS(e.a, e.b) /\ Sign(e.rr) = CmpS(e.b, e.a) THEN {} ELSE {"comparator"}
=============================================================================

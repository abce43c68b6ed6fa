---------------------------- MODULE EmbedDBSpline ----------------------------
(***************************************************************************)
(* The learned index as its user sees it: a history of (first key, page)    *)
(* pairs, pages numbered consecutively, keys ascending, from which old      *)
(* points may be dropped.  A search must bracket the page whose key range   *)
(* contains the key, and stay within the error where the key is modelled.   *)
(* h = sequence of <<key, page>>; keys are numbers (ranks) in ascending     *)
(* order of the real keys.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* position in h of the page that holds key k (0: before the first)
RECURSIVE Search(_, _, _, _)
Search(h, k, lo, hi) ==       \* largest i in lo..hi with h[i][1] <= k, lo-1 if none
  IF lo > hi THEN lo - 1
  ELSE LET m == (lo + hi) \div 2 IN IF h[m][1] <= k THEN Search(h, k, m + 1, hi) ELSE Search(h, k, lo, m - 1)
PageOf(h, k) == LET i == Search(h, k, 1, Len(h)) IN IF i = 0 THEN -1 ELSE h[i][2]

FirstPage(h) == h[1][2]
LastPage(h) == h[Len(h)][2]

\* the answer to a search for key k: estimate loc in low..high
\* (the search starts at loc, so it has to lie in the range, too)
Brackets(h, k, loc, low, high) == LET p == PageOf(h, k) IN p = -1 \/ (low <= p /\ p <= high /\ low <= loc /\ loc <= high)
Within(h, err, k, loc, low, high) ==
  LET p == PageOf(h, k) IN p # -1 => (loc - p <= err /\ p - loc <= err /\ high - low <= 2 * err)

AddKey(h, k, page) == IF h # <<>> /\ k <= h[Len(h)][1] THEN h ELSE Append(h, <<k, page>>)
=============================================================================

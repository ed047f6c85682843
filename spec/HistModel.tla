------------------------------ MODULE HistModel -----------------------------
(***************************************************************************)
(* All histories of insertions of a few values (on edges, inside bins,     *)
(* outside the range) into histograms with one to four bins, keeping the   *)
(* running mean and sum of squares by the one-pass recurrence.  The state  *)
(* of the specification advances along; in every state each accepted datum *)
(* is counted once, in the bin that contains it, and the running values    *)
(* are those of the data, whatever their order.                            *)
(***************************************************************************)
EXTENDS Hist
CONSTANTS Values, Depth
VARIABLES s, avg, tss, mx, mn, tried
vars == <<s, avg, tss, mx, mn, tried>>
Init == /\ \E n \in 1..4 : \E r \in {<<"0", "3">>, <<"-1", "1">>} : s = HNext(H0, [op |-> "new", n |-> n, lo |-> r[1], hi |-> r[2], bins |-> Zeros(n)])
        /\ avg = "0" /\ tss = "0" /\ mx = "none" /\ mn = "none" /\ tried = 0
Insert(x) ==
  /\ tried' = tried + 1
  /\ IF ~InRange(s, x) THEN UNCHANGED <<s, avg, tss, mx, mn>>
     ELSE LET i == CHOOSE j \in Bins(s, x) : TRUE
              m == RAdd(avg, RDiv(RSub(x, avg), Len(s.data) + 1))
          IN  /\ s' = HNext(s, [op |-> "ins", x |-> x, bins |-> Add1(s.bins, i)])
              /\ avg' = m /\ tss' = RAdd(tss, RMul(RSub(x, avg), RSub(x, m)))
              /\ mx' = (IF mx = "none" \/ RLt(mx, x) THEN RCanon(x) ELSE mx) /\ mn' = (IF mn = "none" \/ RLt(x, mn) THEN RCanon(x) ELSE mn)
Next == tried < Depth /\ \E x \in Values : Insert(x)
\* exact edges of bin i (from 0)
Edge(i) == RAdd(s.lo, RMul(i, RDiv(RSub(s.hi, s.lo), s.n)))
Inside(x, i) == RLe(Edge(i), x) /\ (RLt(x, Edge(i + 1)) \/ (i = s.n - 1 /\ RLe(x, s.hi)))
Count(i) == Len(SelectSeq(s.data, LAMBDA x : Inside(x, i)))
Total(b) == RSum(b)
Counted == /\ REq(Total(s.bins), Len(s.data))
           \* exact positions are never shared
           /\ (\A k \in 1..Len(s.data) : Exact(s, s.data[k])) => \A i \in 0..(s.n - 1) : s.bins[i + 1] = Count(i)
Once1 == \A k \in 1..Len(s.data) : /\ \E i \in 0..(s.n - 1) : Inside(s.data[k], i) /\ i \in Bins(s, s.data[k])
                                   /\ \A i, j \in 0..(s.n - 1) : Inside(s.data[k], i) /\ Inside(s.data[k], j) => i = j
Running == s.data # <<>> => REq(avg, Mean(s.data)) /\ REq(tss, Tss(s.data)) /\ REq(mx, MaxOf(s.data)) /\ REq(mn, MinOf(s.data))
=============================================================================

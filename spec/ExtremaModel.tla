---------------------------- MODULE ExtremaModel ----------------------------
(***************************************************************************)
(* The golden-section machine on an integer grid.  The function is any     *)
(* unimodal table with its maximum at m (strictly increasing before,       *)
(* strictly decreasing after); a bracket [lo, hi] is probed at any two     *)
(* inner points p < q and keeps the side the comparison points to.  The    *)
(* maximum never leaves the bracket, the bracket shrinks, and minimising   *)
(* the negated table goes through the same brackets (tab is compared only  *)
(* through the sign of a difference).  When probes are as in the golden    *)
(* section (p, q symmetric), so are the brackets of the mirrored table.    *)
(* The gradient machine x' = x - h l x on a parabola of curvature l.       *)
(***************************************************************************)
EXTENDS Extrema
CONSTANT N
VARIABLES tab, m, lo, hi, steps, x, lam
vars == <<tab, m, lo, hi, steps, x, lam>>
Uni(t, c) == (\A k \in 0..(N - 1) : (k < c => t[k] < t[k + 1]) /\ (k >= c => t[k] > t[k + 1]))
Init == \/ /\ m \in 0..N /\ tab \in {t \in [0..N -> 0..N] : Uni(t, m)}
           /\ lo = 0 /\ hi = N /\ steps = 0 /\ x = "0" /\ lam = 0
        \/ /\ m = 0 /\ tab = <<>> /\ lo = 0 /\ hi = 0 /\ steps = 0
           /\ x \in {"-4", "1/3", "4"} /\ lam \in {1, 10, 50, 100, 199, 300, 399, 401, 500}
Probe == /\ tab # <<>> /\ hi - lo >= 3
         /\ \E p, q \in (lo + 1)..(hi - 1) : p < q /\
              IF tab[p] > tab[q] THEN hi' = q /\ lo' = lo ELSE lo' = p /\ hi' = hi
         /\ steps' = steps + 1 /\ UNCHANGED <<tab, m, x, lam>>
H == "1/200"
Descend == /\ tab = <<>> /\ steps < 12 /\ RLe(RAbs(x), "1e6")
           /\ x' = RSub(x, RMul(H, RMul(lam, x)))
           /\ steps' = steps + 1 /\ UNCHANGED <<tab, m, lo, hi, lam>>
Next == Probe \/ Descend
Bracketed == tab # <<>> => lo <= m /\ m <= hi /\ lo < hi /\ steps <= N
\* a gradient step decreases the parabola exactly when the curvature is below 2 / H
Decreases == [][ (tab = <<>> /\ ~REq(x, 0)) => (RLt(RSq(x'), RSq(x)) <=> RLt(RMul(H, lam), 2)) ]_vars
\* the parabola as an event: accepted when the gradient is small, refused otherwise
Ev == [op |-> "grad", m |-> "grad", kind |-> -1, f |-> << <<RDiv(lam, 2), 0, 2>> >>, x |-> <<"4">>, gamma |-> RNeg(H), tol |-> "1", max |-> 100, err |-> 0, loop |-> FALSE, r |-> <<x>>]
Judged == tab = <<>> => (RLe(RAbs(RMul(lam, x)), 1) => GradOK(Ev)) /\ (RLt(1001, RAbs(RMul(1000, RMul(lam, x)))) => ~GradOK(Ev))
\* the final bracket as an event on the function |x - m|
GEv(r) == [op |-> "golden", kind |-> -1, f |-> "vee", c |-> RCanon(m), s |-> "1", off |-> "0", a |-> "0", b |-> RCanon(N), err |-> 0, loop |-> FALSE, r |-> r, calls |-> <<>>]
GJudged == tab # <<>> => /\ GoldenOK(GEv(RAdd(m, "1e-9"))) \/ m = N
                         /\ \A k \in 0..N : GoldenOK(GEv(RCanon(k))) <=> k = m
=============================================================================

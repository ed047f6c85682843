------------------------------ MODULE PdfModel ------------------------------
(***************************************************************************)
(* Every density of the specification, integrated cell by cell over an     *)
(* interval that holds nearly all of its mass, from below and from above   *)
(* (each is unimodal, so its bounds on a cell are the values at the ends,  *)
(* or at the mode).  When the interval has been covered the two sums       *)
(* enclose one, up to the mass of the tails.  Mass functions add up to one *)
(* exactly.  The Gamma function agrees with factorials and its recurrence. *)
(***************************************************************************)
EXTENDS Pdf
VARIABLES i, c, lo, up
\* name, parameters, interval, mode, number of cells, bound of the mass outside
Dists == <<
  [f |-> "gaussian", th |-> <<"1", "2">>, a |-> "-9", b |-> "11", m |-> "1", n |-> 96, t |-> "1/1000"],
  [f |-> "chi_squared", th |-> <<"5">>, a |-> "0", b |-> "30", m |-> "3", n |-> 96, t |-> "1/1000"],
  [f |-> "chi_squared", th |-> <<"2">>, a |-> "0", b |-> "20", m |-> "0", n |-> 128, t |-> "1/1000"],
  [f |-> "gamma", th |-> <<"5/2", "3">>, a |-> "0", b |-> "6", m |-> "1/2", n |-> 96, t |-> "1/1000"],
  [f |-> "erlang", th |-> <<"3", "2">>, a |-> "0", b |-> "8", m |-> "1", n |-> 96, t |-> "1/1000"],
  [f |-> "beta", th |-> <<"5/2", "3/2">>, a |-> "0", b |-> "1", m |-> "3/4", n |-> 96, t |-> "0"],
  [f |-> "student", th |-> <<"5">>, a |-> "-12", b |-> "12", m |-> "0", n |-> 160, t |-> "1/1000"],
  [f |-> "log_normal", th |-> <<"0", "1/2">>, a |-> "0", b |-> "6", m |-> "exp(-1/4)", n |-> 96, t |-> "1/1000"],
  [f |-> "exponential", th |-> <<"3/2">>, a |-> "0", b |-> "6", m |-> "0", n |-> 128, t |-> "1/1000"],
  [f |-> "rayleigh", th |-> <<"2">>, a |-> "0", b |-> "9", m |-> "2", n |-> 96, t |-> "1/1000"],
  [f |-> "cauchy", th |-> <<"1", "1/2">>, a |-> "-15", b |-> "17", m |-> "1", n |-> 480, t |-> "1/40"],
  [f |-> "breit_wigner", th |-> <<"1", "1">>, a |-> "-15", b |-> "17", m |-> "1", n |-> 480, t |-> "1/40"],
  [f |-> "maxwell", th |-> <<"1">>, a |-> "0", b |-> "5", m |-> "sqrt2", n |-> 96, t |-> "1/1000"],
  [f |-> "laplace", th |-> <<"-1", "1">>, a |-> "-9", b |-> "7", m |-> "-1", n |-> 192, t |-> "1/1000"],
  [f |-> "pareto", th |-> <<"1", "4">>, a |-> "1", b |-> "7", m |-> "1", n |-> 320, t |-> "1/1000"] >>
Mode(d) == IF d.m = "exp(-1/4)" THEN IMid(ExpE("-1/4")) ELSE IF d.m = "sqrt2" THEN IMid(SqrtE(2)) ELSE d.m
At(d, k) == RAdd(d.a, RMul(k, RDiv(RSub(d.b, d.a), d.n)))
Den(d, x) == LET y == Eager(RDown(x, 100)) e == Eager(Dens(d.f, y, d.th)) IN Eager(Val(e))
Init == i \in 1..Len(Dists) /\ c = 0 /\ lo = "0" /\ up = "0"
\* eight cells at a time
Cell(d, k) == LET p == Eager(At(d, k)) q == Eager(At(d, k + 1)) h == RSub(q, p) u == Eager(Den(d, p)) v == Eager(Den(d, q)) m == Eager(Mode(d))
                  s == IF RLe(p, m) /\ RLe(m, q) THEN RMul(Den(d, m)[2], "1.00001") ELSE RMax(u[2], v[2])
              IN  <<RDown(RMul(h, RMin(u[1], v[1])), 100), RDown(RMul(h, s), 100)>>
Next == LET d == Dists[i] w == IF c + 8 <= d.n THEN 8 ELSE d.n - c IN
        /\ c < d.n /\ c' = c + w /\ i' = i
        /\ \E s \in {Eager([k \in 1..w |-> Cell(d, c + k - 1)])} :
               lo' = RAdd(lo, RSum([k \in 1..w |-> s[k][1]])) /\ up' = RAdd(up, RSum([k \in 1..w |-> s[k][2]]))
Normal == c = Dists[i].n => RLe(lo, 1) /\ RLe(1, RAdd(RMul(up, "1.000001"), Dists[i].t)) /\ RLt(RSub(up, lo), "1/6")
Masses == (c = 0 /\ i = 1) =>
  /\ \A p \in {"0", "1/3", "1"} : \A n \in 0..7 : REq(RSum([k \in 1..(n + 1) |-> Val(Dens("binomial", k - 1, <<n, p>>))[1]]), 1)
  /\ REq(RSum([k \in 1..36 |-> LET a == (k - 1) \div 6 b == (k - 1) % 6 IN IF a + b > 5 THEN "0" ELSE Val(Multi(<<a, b, 5 - a - b>>, 5, <<"1/2", "1/3", "1/6">>))[1]]), 1)
  /\ LET s == RSum([k \in 1..40 |-> Val(Dens("poisson", k - 1, <<"4">>))[2]]) IN RLe(RAbs(RSub(s, 1)), "1e-15")
  /\ \A n \in 1..40 : IContains(GammaE(n), FactE(n - 1)) /\ RLt(RSub(GammaE(n)[2], GammaE(n)[1]), RMul("1e-33", FactE(n - 1)))
  /\ IMeet(GammaE("1/2"), ISqrt(PiE)) /\ \A x \in {"1/3", "7/4", "-5/3", "-1/10"} : IMeet(GammaE(RAdd(x, 1)), IScale(x, GammaE(x)))
=============================================================================

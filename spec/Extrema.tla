------------------------------ MODULE Extrema -------------------------------
(***************************************************************************)
(* Extrema.  One kind of event per family of methods:                      *)
(*   golden: f is s*g(x - c) + off with g >= 0 increasing away from 0 (or  *)
(*   monotone): the extremum of a bracket is known.  The answer is in the  *)
(*   bracket and within tolerance of it, up to the distance at which the   *)
(*   values of the function are lost in the rounding of off.               *)
(*   newton, bisect: f is a polynomial; the derivative vanishes at the     *)
(*   answer within tolerance (changes sign next to it) and the second      *)
(*   derivative does not have the wrong sign.                              *)
(*   multi: f is a polynomial in several variables; the gradient at the    *)
(*   answer is within tolerance and the function moved in the right        *)
(*   direction.                                                            *)
(* kind is 1 for a maximum and -1 for a minimum.                           *)
(***************************************************************************)
EXTENDS Roots

OTol == "1e-8"
(**************************** golden section *******************************)
\* shape of the function away from its extremum: exponent of |x - c|
Expo(f) == CASE f \in {"vee", "skew", "mono"} -> 1 [] f = "quad" -> 2 [] f = "quart" -> 4 [] f = "expm" -> 2
Clip(x, a, b) == RMax(a, RMin(x, b))
\* where the extremum of the kind asked for lies in the bracket
Best(e) == IF e.f = "mono" THEN (IF (Sg(e.s) > 0) = (e.kind > 0) THEN e.b ELSE e.a) ELSE Clip(e.c, e.a, e.b)
Unimodal(e) == e.f = "mono" \/ (e.f # "any" /\ Sg(e.s) = -e.kind)
Reachable(e) == RLe(RMax(RAbs(e.a), RAbs(e.b)), "1e4")
GoldenOK(e) ==
  /\ ~e.loop
  /\ IF RLt(e.b, e.a) THEN Refused(e)
     ELSE LET w == RMul(RMul(16, U), RMax(RAbs(e.a), RAbs(e.b)))
          IN  /\ \A i \in 1..Len(e.calls) : InSeg(e.calls[i], e.a, e.b, w)
              /\ IF e.err # 0 THEN e.r = "nan" /\ ~Reachable(e)
                 ELSE /\ InSeg(e.r, e.a, e.b, w)
                      /\ Unimodal(e) =>
                         LET d == RMax(0, RSub(RAbs(RSub(e.r, Best(e))), RAdd(OTol, w)))
                             noise == RAdd(RMul(RMul(64, U), RAbs(e.off)), "1e-300")
                         IN  RLe(RMul(RDiv(RAbs(e.s), 4), RPow(d, Expo(e.f))), noise)

(************************ derivative based methods *************************)
NewtonOK(e) ==
  LET d1 == YDer(e.p) d2 == YDer(d1)
  IN  /\ ~e.loop
      /\ IF e.err = 0
         THEN /\ RIsNum(e.r)
              /\ RLe(RAbs(YVal(d1, e.r)), RAdd(RMul(OTol, RAdd(1, U)), Noise(d1, e.r)))
              /\ RLe(RMul(e.kind, YVal(d2, e.r)), Noise(d2, e.r))
         ELSE /\ e.r = "nan"
              \* starting next to an extremum of the right kind it is found
              /\ ~(/\ Len(d1) >= 2 /\ Sure([p |-> d1, guess |-> e.guess, max |-> 100, tol |-> OTol])
                   /\ RLt(RMul(e.kind, YVal(d2, e.guess)), "-1/10"))
\* h is the step of the difference quotient that tests the second derivative
BisectOK(e) ==
  LET d1 == YDer(e.p) d2 == YDer(d1)
      ya == YVal(d1, e.a) yb == YVal(d1, e.b)
      w == RAdd(RMul(RMul(64, U), RMax(RAbs(e.a), RAbs(e.b))), OTol)
      clear(y, x) == RLt(Noise(d1, x), RAbs(y))
      \* exact sign changes of the derivative within tolerance of r, counted between two points around it
      lo == RSub(e.r, w) hi == RAdd(e.r, w)
  IN  /\ ~e.loop
      /\ IF RLt(e.b, e.a) THEN Refused(e)
         ELSE /\ (clear(ya, e.a) /\ clear(yb, e.b) /\ Sg(ya) = Sg(yb)) => Refused(e)
              /\ IF e.err = 0
                 THEN /\ InSeg(e.r, e.a, e.b, w)
                      /\ RLe(RMul(e.kind, YVal(d1, hi)), Noise(d1, hi)) /\ RLe(RMul(-e.kind, YVal(d1, lo)), Noise(d1, lo))
                 ELSE /\ e.r = "nan"
                      \* a quadratic with its extremum inside is solved
                      /\ ~(/\ Len(e.p) = 3 /\ RLt(e.a, e.b) /\ clear(ya, e.a) /\ clear(yb, e.b)
                           /\ Sg(ya) = e.kind /\ Sg(yb) = -e.kind /\ RLe(RSub(e.b, e.a), "1e4"))

(************************** several variables ******************************)
\* a term is <<c, 0, q1, ..., qn>>
DTerm(m, j) == IF m[2 + j] = 0 THEN [m EXCEPT ![1] = "0"] ELSE [m EXCEPT ![1] = RMul(m[1], m[2 + j]), ![2 + j] = m[2 + j] - 1]
GradT(f, n) == [j \in 1..n |-> [k \in 1..Len(f) |-> DTerm(f[k], j)]]
FVal(f, x) == RSum([k \in 1..Len(f) |-> TermV(f[k], "0", x)])
FMag(f, x) == RSum([k \in 1..Len(f) |-> TermV([f[k] EXCEPT ![1] = RAbs(f[k][1])], "0", VAbs(x))])
\* value of the second derivatives of a quadratic form
Hess(f, n, i, j) == FVal([k \in 1..Len(f) |-> DTerm(DTerm(f[k], i), j)], [m \in 1..n |-> "0"])
Quadratic(f, n) == \A k \in 1..Len(f) : RLe(RSum([m \in 1..n |-> f[k][2 + m]]), 2)
\* -kind * f strictly convex with curvature between 1/2 and 100, by diagonal dominance
Convex(e) ==
  LET n == Len(e.x)
      H == Eager([i \in 1..n |-> [j \in 1..n |-> RMul(-e.kind, Hess(e.f, n, i, j))]])
      off(i) == RSum([j \in 1..n |-> IF i = j THEN "0" ELSE RAbs(H[i][j])])
  IN  /\ Quadratic(e.f, n)
      /\ \A i \in 1..n : RLe("1/2", RSub(H[i][i], off(i))) /\ RLe(RAdd(H[i][i], off(i)), 100)
\* -kind * f has no minimum: it is linear and not constant, or its negative is convex
Unbounded(e) ==
  LET n == Len(e.x)
  IN  Quadratic(e.f, n) /\ LET H == Eager([i \in 1..n |-> RMul(-e.kind, Hess(e.f, n, i, i))]) IN \A i \in 1..n : RLe(H[i], "-1/2")
NormLe(v, m, tol) == RLe(RSum([i \in 1..Len(v) |-> RSq(RMax(0, RSub(RAbs(v[i]), RMul(RMul(100, U), m[i]))))]), RMul(RSq(tol), "1.000001"))
GradOK(e) ==
  LET n == Len(e.x) g == GradT(e.f, n)
  IN  /\ ~e.loop
      /\ IF e.m = "grad" /\ RLe(0, e.gamma) THEN e.err # 0 /\ Len(e.r) = n /\ \A i \in 1..n : e.r[i] = "nan"
         ELSE IF e.err = 0
         THEN /\ Len(e.r) = n /\ \A i \in 1..n : RIsNum(e.r[i])
              /\ NormLe(F(g, "0", e.r), F(GAbs(g), "0", VAbs(e.r)), e.tol)
              \* a step that is not too long goes the right way
              /\ (Convex(e) \/ e.m # "grad") => RLe(RMul(-e.kind, RSub(FVal(e.f, e.r), FVal(e.f, e.x))), RAdd(RMul(RMul(1000, U), RAdd(FMag(e.f, e.x), FMag(e.f, e.r))), RSq(e.tol)))
         ELSE /\ Len(e.r) = n /\ \A i \in 1..n : e.r[i] = "nan"
              /\ ~(/\ Convex(e) /\ RLe(RMaxAbs(e.x), 10) /\ RLe("1e-5", e.tol) /\ e.max >= 20000
                   /\ (e.m = "grad" => RLe("-1/100", e.gamma) /\ RLe(e.gamma, "-1/250"))
                   /\ RLe(FMag(e.f, e.x), "1e5"))

E0 == 0
EStep(s, e) ==
  CASE e.op = "golden" -> GoldenOK(e)
    [] e.op = "newton" -> NewtonOK(e)
    [] e.op = "bisect" -> BisectOK(e)
    [] e.op = "grad" -> GradOK(e)
ENext(s, e) == s
=============================================================================

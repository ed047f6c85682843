------------------------------ MODULE OdeModel ------------------------------
(***************************************************************************)
(* The methods as specified have the order they promise.  The walk takes   *)
(* steps of varying size (constant for the multi-step methods, as they     *)
(* require), with every method at once on the problems x' = k t^(k-1), and *)
(* every method of order >= k stays on the solution t^k.                   *)
(***************************************************************************)
EXTENDS Ode
CONSTANT Max
VARIABLES m, t, n, x, h
Methods == OneStep \cup {"adams2", "adams3"}
Ord(k) == IF k = "adams2" THEN 2 ELSE IF k = "adams3" THEN 3 ELSE Tab(k).p
Pr(k) == <<<<<<RCanon(k), k - 1, 0>>>>>>
Init == m \in Methods /\ t = "0" /\ n = 0 /\ x = [k \in 1..5 |-> "0"] /\ h \in {"1/2", "1", "-1/3"}
Past(k, i) == RPow(RSub(t, RMul(i, h)), k)            \* exact history
Do(g) == IF m \in OneStep THEN [k \in 1..5 |-> Step1(m, Pr(k), t, <<x[k]>>, g)[1]]
         ELSE LET w == Adams(m) c == Len(w) IN
              [k \in 1..5 |-> StepM(w, Pr(k), [j \in 1..c |-> RSub(t, RMul(c - j, g))], [j \in 1..c |-> IF j = c THEN <<x[k]>> ELSE <<Past(k, c - j)>>], g)[1]]
Next == /\ n < Max /\ n' = n + 1
        /\ \E g \in (IF m \in OneStep THEN {h, RMul(h, "1/2"), RMul(h, "-2")} ELSE {h}) :
             t' = RAdd(t, g) /\ x' = Eager(Do(g))
        /\ UNCHANGED <<m, h>>
Follows == \A k \in 1..5 : k <= Ord(m) => REq(x[k], Pw(t, k))
\* and it leaves the solution of the next degree with its first step
Leaves == n = 1 => ~REq(x[Ord(m) + 1], Pw(t, Ord(m) + 1))
(* order conditions of the tableaux *)
T == Tab(m)
S(v) == RSum(v)
Ix == 1..Len(T.b)
Ac(i) == RSum([j \in 1..Len(T.a[i]) |-> RMul(T.a[i][j], T.c[j])])
Ac2(i) == RSum([j \in 1..Len(T.a[i]) |-> RMul(T.a[i][j], RSq(T.c[j]))])
AAc(i) == RSum([j \in 1..Len(T.a[i]) |-> RMul(T.a[i][j], Ac(j))])
Sum(W(_)) == RSum([i \in Ix |-> RMul(T.b[i], W(i))])
Cond == m \in OneStep =>
  /\ \A i \in Ix : REq(RSum(T.a[i]), T.c[i])
  /\ REq(Sum(LAMBDA i : "1"), 1)
  /\ T.p >= 2 => REq(Sum(LAMBDA i : T.c[i]), "1/2")
  /\ T.p >= 3 => REq(Sum(LAMBDA i : RSq(T.c[i])), "1/3") /\ REq(Sum(Ac), "1/6")
  /\ T.p >= 4 => REq(Sum(LAMBDA i : RPow(T.c[i], 3)), "1/4") /\ REq(Sum(LAMBDA i : RMul(T.c[i], Ac(i))), "1/8")
                 /\ REq(Sum(Ac2), "1/12") /\ REq(Sum(AAc), "1/24")
\* on x' = x a step multiplies by the truncated exponential series
Growth == m \in OneStep => LET z == h
                               e[k \in 0..4] == IF k = 0 THEN "1" ELSE RDiv(RMul(e[k - 1], z), k)
                           IN  REq(Step1(m, <<<<<<"1", 0, 1>>>>>>, t, <<"1">>, h)[1], RSum([k \in 1..(Ord(m) + 1) |-> e[k - 1]]))
(* the grid predicate has exactly the grids with full steps and a last one not longer *)
Up(k, a, b) == [i \in 1..(k + 1) |-> RAdd(a, RMul(i - 1, b))]
GridTest == /\ GridOK(<<"0", "3/10", "6/10", "9/10", "1">>, "0", "1", "3/10")
            /\ GridOK(Up(4, "0", "1/4"), "0", "1", "1/4") /\ ~GridOK(Up(3, "0", "1/4"), "0", "1", "1/4") /\ ~GridOK(Up(5, "0", "1/4"), "0", "1", "1/4")
            /\ GridOK(<<"2">>, "2", "2", "1") /\ ~GridOK(<<"2">>, "2", "3", "1") /\ ~GridOK(<<"0", "1">>, "0", "1", "1/2") /\ ~GridOK(<<"0", "1/3", "1">>, "0", "1", "1/2")
=============================================================================

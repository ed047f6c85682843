------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* Error signalling.  The state is the error register (errno) as the last  *)
(* call left it, and what every valid call made so far returned.  A call   *)
(* whose arguments break its precondition is signalled in the configured   *)
(* way:  "errno" sets the register and returns an invalid result, "throw"  *)
(* sets the register and throws, "only" throws and leaves the register     *)
(* alone.  A valid call signals nothing, leaves the register as it was and *)
(* returns what it returned before, whatever happened in between.          *)
(***************************************************************************)
EXTENDS Encl, FiniteSets

D == "DIV_BY_ZERO"
O == "OUT_OF_DOMAIN"
RG == "OUT_OF_RANGE"
IM == "IMPOSSIBLE_OPERATION"
NC == "NO_ALGO_CONVERGENCE"
IV == "INVALID_ARGUMENT"
Errno(k) == IF k \in {D, RG, NC} THEN "ERANGE" ELSE IF k \in {O, IM} THEN "EDOM" ELSE "EINVAL"
Kinds == {D, O, RG, IM, NC, IV}

(************************** preconditions **********************************)
\* the kinds a call with these arguments may signal, and whether it has to
None == [need |-> FALSE, kinds |-> {}]
Must(b, k) == [need |-> b, kinds |-> IF b THEN {k} ELSE {}]
May(b, k) == [need |-> FALSE, kinds |-> IF b THEN {k} ELSE {}]
Both(p, q) == [need |-> p.need \/ q.need, kinds |-> p.kinds \cup q.kinds]
EPS == R2Pow(-52)
\* zero divides nothing; numbers below the machine epsilon may count as zero
DivZ(x) == IF REq(x, 0) THEN Must(TRUE, D) ELSE May(RLt(RAbs(x), EPS), D)
\* whether x is within d of an element of pi (k + h), h = 0 or 1/2
NearPi(x, h, d) == LET q == RSub(RDiv(x, PiE[1]), h)
                       k == RFloor(RAdd(q, "1/2"))
                   IN  RLt(RAbs(RSub(x, RMul(PiE[1], RAdd(k, h)))), d)
\* a pole can only be met exactly at zero; a rounded one may be reported
Pole(x, h) == IF REq(x, 0) /\ h = "0" THEN Must(TRUE, D) ELSE May(NearPi(x, h, "1e-15"), D)
LogDom(x) == IF REq(x, 0) THEN Must(TRUE, RG) ELSE Must(RLt(x, 0), O)
DualLog(x) == Must(RLe(x, 0), O)
IsInt(x) == RDen(x) = "1"
Pow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128}
ThetaSize == [d_gaussian |-> 2, d_bernoulli |-> 1, d_poisson |-> 1, d_binomial |-> 2, d_chi_squared |-> 1, d_gamma |-> 2, d_beta |-> 2, d_student |-> 1,
              d_log_normal |-> 2, d_exponential |-> 1, d_rayleigh |-> 1, d_cauchy |-> 2, d_breit_wigner |-> 2, d_maxwell |-> 1, d_laplace |-> 2, d_pareto |-> 2, d_erlang |-> 2,
              r_uniform |-> 2, r_diceroll |-> 1, r_exponential |-> 1, r_rayleigh |-> 1, r_cauchy |-> 2, r_laplace |-> 2, r_pareto |-> 2,
              gxos |-> 4, gwy |-> 3, gmid |-> 1, vcross |-> 3, fadd |-> 3, fdot |-> 3, qrot |-> 3]
Total == {"cbrt", "exp", "sin", "cos", "atan", "sinh", "tanh", "asinh", "dualexp", "dual2exp", "multiexp", "csum"}
TwoSizes == {"vsum", "vdiff", "vadd", "vsub", "vdot", "adot", "asum", "adiff", "dmink", "deuc", "dman", "dcheb", "dcan", "dcos", "dham", "ddis", "dmap", "smap", "propprod", "i_gauss"}
NonEmpty == {"product", "sumsq", "dmax", "dmin", "qmean", "tss", "pval", "erl", "rdice", "shuf", "i_rom", "d_rid"}
NonZero == {"amean", "hmean", "i_mid", "i_trap", "i_simp", "rootsn"}
Divides == {"coth", "cdivr", "cdiveq", "qdivr", "qdiveq", "pinv", "pinvert", "pdiv", "pdiveq", "dualinv", "dualdivr", "dualdiveq", "dualdiv", "dual2inv", "dual2divr", "dual2diveq", "dual2div",
            "multiinv", "multidivr", "multidiveq", "multidiv", "vdivr", "vdiveq", "fdivr", "vunit", "mkunit", "mdivr", "mdiveq", "rot3ax", "hmean0", "relerr", "chisq0", "rexp", "pdivr", "pdiveqr"}
Logs == {"ln", "log2", "log10"}
DualLogs == {"dualln", "duallog2", "duallog10", "dual2ln", "dual2log2", "dual2log10", "multiln", "multilog2", "multilog10"}
DualArcs == {"dualasin", "dualacos", "dual2asin", "dual2acos", "multiasin", "multiacos"}
DualRoots == {"dualsqrt", "dual2sqrt", "multisqrt"}
DualCots == {"dualcot", "dual2cot", "multicot"}
DualTans == {"dualtan", "dual2tan", "multitan"}
SameShape == {"msum", "mdiff", "amsum", "amdiff", "alin", "madd", "msub"}
Square == {"minv", "minvert", "mdet", "mtpose", "lu", "chol"}

Pre(f, a) ==
  LET n(i) == RToInt(a[i])
      x == a[1]
      norm2 == RAdd(RMul(a[1], a[1]), RMul(a[2], a[2]))
  IN
  CASE f \in Total -> None
    [] f = "sqrt" -> Must(RLt(x, 0), O)
    [] f \in Logs -> LogDom(x)
    [] f = "ilog2" -> Must(REq(x, 0), RG)
    [] f = "powf" -> Must(REq(x, 0) /\ RLt(a[2], 0), D)
    [] f = "pow" -> Must(REq(x, 0) /\ RLt(a[2], 0), D)
    [] f = "root" -> Must(n(2) = 0 \/ (n(2) % 2 = 0 /\ RLt(x, 0)), O)
    [] f \in {"tan"} \cup DualTans -> Pole(x, "1/2")
    [] f \in {"cot"} \cup DualCots -> Pole(x, "0")
    [] f \in {"asin", "acos"} -> Must(RLt(1, RAbs(x)), O)
    [] f = "atan2" -> Must(REq(x, 0) /\ REq(a[2], 0), O)
    [] f = "acosh" -> Must(RLt(x, 1), O)
    [] f = "atanh" -> Must(RLt(1, RAbs(x)), O)
    [] f = "binom" -> Must(RLt(x, a[2]), IM)
    [] f \in {"gammak", "halfgamma"} -> Must(REq(x, 0), O)
    [] f = "gamma" -> Must(RLe(x, 0) /\ IsInt(x), O)
    [] f = "lngamma" -> Must(RLe(x, 0) /\ (IsInt(x) \/ RToInt(RFloor(x)) % 2 = 1), O)      \* poles, and where the function is negative
    [] f \in {"cinv", "cinvert", "cdiv", "cdiveqc"} -> DivZ(norm2)
    [] f \in {"qinv", "qinvert"} -> DivZ(RAdd(norm2, RAdd(RMul(a[3], a[3]), RMul(a[4], a[4]))))
    [] f \in Divides -> DivZ(x)
    [] f \in DualRoots -> Both(Must(RLt(x, 0), O), Must(REq(x, 0), D))
    [] f \in DualLogs -> DualLog(x)
    [] f \in DualArcs -> Must(RLe(1, RAbs(x)), O)
    [] f \in DOMAIN ThetaSize -> Must(n(1) # ThetaSize[f], IV)
    [] f \in TwoSizes -> Must(n(1) # n(2), IV)
    [] f = "asum3" -> Must(n(1) # n(2) \/ n(1) # n(3), IV)
    [] f = "across" -> Must(n(1) # 3 \/ n(2) # 3, IV)
    [] f = "base" -> Must(n(1) >= n(2), IV)
    [] f \in SameShape -> Must(n(1) # n(3) \/ n(2) # n(4), IV)
    [] f \in {"mmul", "ammul"} -> Must(n(2) # n(3), IV)
    [] f \in {"mtrans", "atrans"} -> Must(n(2) # n(3), IV)
    [] f = "vecmat" -> Must(n(1) # n(3), IV)
    [] f \in Square -> Must(n(1) # n(2), IV)
    [] f = "swaprows" -> Must(n(3) >= n(1) \/ n(4) >= n(1), IV)
    [] f = "swapcols" -> Must(n(3) >= n(2) \/ n(4) >= n(2), IV)
    [] f = "lusing" -> [need |-> REq(x, 4), kinds |-> IF REq(x, 4) THEN {IM, D} ELSE {}]
    [] f = "invsing" -> Must(REq(x, 4), IM)
    [] f = "cholneg" -> IF REq(x, "1/2") THEN May(TRUE, IV) ELSE Must(RLt(x, "1/2"), IV)
    [] f = "cholasym" -> Must(~REq(x, 1), IV)
    [] f = "solve" -> Must(n(1) # n(2) \/ n(1) # n(3), IV)
    [] f \in {"trilow", "triup"} -> Both(DivZ(x), Must(n(2) # 2, IV))
    [] f \in {"eigpow", "eiginv"} -> Must(n(1) # n(2) \/ n(1) # n(3), IV)
    [] f = "eigray" -> IF n(1) # n(2) \/ n(1) # n(3) THEN Must(TRUE, IV) ELSE [need |-> FALSE, kinds |-> {NC, D, IM}]    \* may hit an eigenvalue
    [] f = "rayq" -> DivZ(RMul(x, x))
    [] f = "rot2" -> Must(n(1) < 2 \/ n(2) < 2, IV)
    [] f \in {"rot3x", "rot3y", "rot3z", "rot3"} -> Must(n(1) < 3 \/ n(2) < 3, IV)
    [] f \in {"persp", "ortho"} -> Must(n(1) < 4 \/ n(2) < 4, IV)
    [] f = "symp" -> Must(n(1) # n(2) \/ n(1) % 2 = 1, IV)
    [] f \in NonEmpty -> Must(n(1) = 0, IV)
    [] f \in NonZero -> Must(n(1) = 0, D)
    [] f \in {"psum", "psumsq", "qsum"} -> Must(n(1) # n(2) \/ n(1) = 0, IV)
    [] f = "psum3" -> Must(n(1) # n(2) \/ n(1) # n(3) \/ n(1) = 0, IV)
    [] f = "qsum0" -> Both(DivZ(a[1]), DivZ(a[2]))
    [] f \in {"variance", "stdev"} -> Must(n(1) <= n(2), IV)
    [] f = "cov" -> Must(n(1) # n(2) \/ n(1) <= n(3), IV)
    [] f = "autoc" -> Must(n(1) > 5, IV)
    [] f \in {"chisq", "chilin", "wls"} -> Must(n(1) # n(2) \/ n(1) # n(3), IV)
    [] f = "redchi" -> Must(n(1) <= 2, IV)
    [] f = "ols" -> IF n(1) # n(2) THEN Must(TRUE, IV) ELSE Must(n(1) < 2, D)
    [] f = "olserr" -> Must(n(1) # n(2), IV)
    [] f = "olsvert" -> Must(REq(x, 0), D)
    [] f = "model" -> Must(n(1) # n(2) \/ n(1) <= 2, IV)
    [] f = "models" -> Both(Must(n(1) <= 2, IV), IF REq(a[2], 0) THEN Must(TRUE, D) ELSE May(RLe(RAbs(a[2]), EPS), D))
    [] f = "hist" -> Must(n(1) <= 1, D)
    [] f = "rayl" -> IF RLe(x, 0) THEN Must(TRUE, D) ELSE May(RLt(x, EPS), D)
    [] f = "paret" -> Must(RLe(x, 0), O)
    [] f = "gcong" -> Must(n(1) # 3 \/ n(2) < 7, IV)
    [] f = "pdivp" -> Must(REq(a[1], 0) /\ REq(a[2], 0), D)
    [] f = "assleg" -> Must(n(1) % 2 = 1, IM)
    [] f = "fft" -> Must(~Pow2(n(1)), IV)
    [] f = "odefix" -> Must(RLt(x, 0) \/ RLe(a[2], 0), IV)
    [] f = "bez" -> Must(n(1) < 2 \/ RLt(a[2], 0) \/ RLt(1, a[2]), IV)
    [] f \in {"smooth", "smoother"} -> Must(REq(a[1], a[2]), D)
    [] f = "splines" -> Must(n(1) # n(2) \/ n(1) < 2, IV)
    [] f = "slerp0" -> Must(REq(x, 0), IM)
    [] f = "lagr" -> Must(n(1) = 0 \/ (n(1) >= 2 /\ REq(a[2], 0)) \/ (n(1) >= 3 /\ REq(a[2], 2)), IV)
    [] f \in {"bisect", "itp"} -> LET s(y) == RSign(RSub(RMul(y, y), 2)) IN Must(RLt(a[2], a[1]) \/ s(a[1]) * s(a[2]) >= 0, IV)
    [] f = "newton" -> Must(RLt(0, x), NC)
    [] f \in {"gmin", "gmax"} -> Must(RLt(a[2], a[1]), IV)
    \* destinations and operands of fixed size (2 x 2, 2 x 3, 2 or 3 elements)
    [] f \in {"tdest", "hdest"} -> Must(n(1) # n(4) \/ n(2) # n(3), IV)
    [] f = "sdest" -> Must(n(1) # n(3) \/ n(2) # n(4), IV)
    [] f \in {"tfix", "hfix", "sfix", "flu", "flu2"} -> Must(n(1) # 2 \/ n(2) # 2, IV)
    [] f \in {"fsum", "fdiff", "flin"} -> Must(\E i \in 1..4 : n(i) # 2, IV)
    [] f = "fmul" -> Must(n(1) # 2 \/ n(4) # 2 \/ n(2) # n(3), IV)
    [] f = "ftrans" -> Must(n(1) # 2 \/ n(2) # n(3), IV)
    [] f \in {"trilows", "triups", "lui", "scholes", "vecinv"} -> Must(n(1) # n(2) \/ n(1) # n(3), IV)
    [] f = "slu" -> Must(\E i \in 2..5 : n(i) # n(1), IV)
    [] f \in {"pairpow", "pairinv"} -> IF \E i \in 2..3 : n(i) # n(1) THEN Must(TRUE, IV) ELSE May(n(4) # n(1), IV)    \* a vector may be resized
    [] f = "memtrans" -> Must(n(2) # n(3), IV)
    [] f \in {"memtransf", "memtransd", "crossf", "mulf", "muld"} -> Must(n(1) # 3, IV)
    [] f = "vecmatf" -> Must(n(1) # 2, IV)
    [] f = "qrotate" -> Must(n(1) # 3 \/ n(2) # 3, IV)
    [] f = "fov" -> Must(n(1) < 4 \/ n(2) < 4, IV)
    [] f = "bitrev" -> Must(n(1) < 2^n(2), IV)
    [] f = "dice1" -> Must(RLt(x, 1), IV)
    [] f = "wls2" -> Must(n(1) # n(2), IV)
    [] f = "prop" -> Must(n(1) # 3 \/ n(2) # 3, IV)
    [] f = "rootsp" -> None

\* what an error returns: not-a-number, an infinity at a pole, or nothing at all
Integral == {"ilog2", "binom", "gxos", "gcong", "gwy", "gmid", "rootsn"}
Infinite == {"ln", "log2", "log10", "tan", "cot", "powf", "pow", "gamma", "lngamma"}
Invalid(f, r) == \/ r = <<>>
                 \/ \E i \in 1..Len(r) : r[i] = "nan"
                 \/ f \in Infinite /\ \E i \in 1..Len(r) : r[i] \in {"inf", "-inf"}
                 \/ f \in Integral
                 \/ f = "bitrev" /\ \A i \in 1..Len(r) : REq(r[i], i)          \* the data are left as they were
\* functions of one number that sign their exceptions with their own name and argument
Named == {"sqrt", "ln", "log2", "log10", "asin", "acos", "acosh", "atanh"}
ExcOK(e) == /\ e.fn # "" /\ e.file # "" /\ e.line > 0 /\ e.std /\ e.text
            /\ e.what \notin {"", "No error", "Unknown error"}
            /\ e.f \in Named => e.fn = e.f /\ REq(e.val, e.a[1])

(******************************* machine ***********************************)
E0 == [err |-> "0", memo |-> [k \in {} |-> <<>>]]
Key(e) == <<e.f, e.a>>
Quiet(s, e) == /\ e.th = "" /\ e.err = s.err
               /\ \A i \in 1..Len(e.r) : e.r[i] # "nan"
               /\ Key(e) \in DOMAIN s.memo => s.memo[Key(e)] = e.r
Signal(s, e, k) ==
  CASE e.mode = "errno" -> e.th = "" /\ e.err = Errno(k) /\ Invalid(e.f, e.r)
    [] e.mode = "throw" -> e.th = k /\ e.err = Errno(k) /\ ExcOK(e)
    [] e.mode = "only"  -> e.th = k /\ e.err = s.err /\ ExcOK(e)
EStep(s, e) ==
  \/ e.op = "clear"
  \/ /\ e.op = "call"
     /\ LET p == Pre(e.f, e.a)
        IN  \/ ~p.need /\ Quiet(s, e)
            \/ \E k \in p.kinds : Signal(s, e, k)
ENext(s, e) ==
  IF e.op = "clear" THEN [s EXCEPT !.err = "0"]
  ELSE [err |-> e.err,
        memo |-> IF Pre(e.f, e.a).kinds = {} THEN [k \in DOMAIN s.memo \cup {Key(e)} |-> IF k = Key(e) THEN e.r ELSE s.memo[k]] ELSE s.memo]
=============================================================================

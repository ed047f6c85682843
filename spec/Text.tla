------------------------------- MODULE Text ---------------------------------
(***************************************************************************)
(* Reading and writing values as text.                                     *)
(*                                                                         *)
(* Writing: the text of a value shows every component, in order, with its  *)
(* sign, as the decimal number of six significant digits nearest to it     *)
(* (C's %g), with the separators the caller asked for; writing to a stream *)
(* and converting to a string give the same text.                          *)
(*                                                                         *)
(* Reading: the input is a sequence of lines and a read consumes a prefix  *)
(* of it: up to and including the first line equal to the terminator, or   *)
(* everything when there is none.  It returns the values of the lines it   *)
(* consumed, in order, skipping blank lines and those that are no value.   *)
(***************************************************************************)
EXTENDS Rat, TLC
P10(k) == RPow(10, k)
Exp10(x) == LET e0 == (RExp2(x) * 30103) \div 100000 IN
            CHOOSE e \in (e0 - 1)..(e0 + 1) : RLe(P10(e), x) /\ RLt(x, P10(e + 1))
HalfEven(q) == LET f == RFloor(q) d == RSub(q, f) IN
               IF RLt(d, "1/2") THEN f ELSE IF RLt("1/2", d) THEN RAdd(f, 1)
               ELSE IF REq(ZMod(f, 2), 0) THEN f ELSE RAdd(f, 1)
\* the six digits m (10^5 <= m < 10^6) and exponent of the decimal nearest to x > 0
Dec(x) == LET e == Eager(Exp10(x)) m == Eager(RToInt(HalfEven(RDiv(x, P10(e - 5))))) IN
          IF m = 1000000 THEN <<100000, e + 1>> ELSE <<m, e>>
Zeros(k) == SubSeq("000000", 1, k)
Signif(m) == LET k == CHOOSE j \in 0..5 : m % (10^j) = 0 /\ (m % (10^(j + 1)) # 0) IN ToString(m \div (10^k))
ExpText(e) == LET a == IF e < 0 THEN -e ELSE e IN (IF e < 0 THEN "e-" ELSE "e+") \o (IF a < 10 THEN "0" ELSE "") \o ToString(a)
FmtP(x) == LET d == Eager(Dec(x)) e == d[2] s == Eager(Signif(d[1])) n == Len(s) IN
           IF e < -4 \/ e > 5 THEN (IF n = 1 THEN s ELSE SubSeq(s, 1, 1) \o "." \o SubSeq(s, 2, n)) \o ExpText(e)
           ELSE IF e < 0 THEN "0." \o Zeros(-e - 1) \o s
           ELSE IF n <= e + 1 THEN s \o Zeros(e + 1 - n)
           ELSE SubSeq(s, 1, e + 1) \o "." \o SubSeq(s, e + 2, n)
Fmt(x) == IF ~RIsNum(x) THEN x ELSE IF REq(x, 0) THEN "0" ELSE IF RLt(x, 0) THEN "-" \o FmtP(RAbs(x)) ELSE FmtP(x)
FmtAbs(x) == IF x = "-inf" THEN "inf" ELSE IF RIsNum(x) THEN Fmt(RAbs(x)) ELSE x
Neg(x) == x = "-inf" \/ RLt(x, 0)
Sgn(x) == IF Neg(x) THEN " - " ELSE " + "
Cat(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN "" ELSE f[i - 1] \o s[i] IN f[Len(s)]
Join(s, sep) == LET f[i \in 0..Len(s)] == IF i = 0 THEN "" ELSE IF i = 1 THEN s[1] ELSE f[i - 1] \o sep \o s[i] IN f[Len(s)]
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
NL == "\n"
Eps == R2Pow(-52)
\* elements of matrices and coefficients below the machine epsilon count as zero
FmtZ(x) == IF RIsNum(x) /\ RLt(RAbs(x), Eps) THEN "0" ELSE Fmt(x)
Complex(a, b) == Fmt(a) \o Sgn(b) \o (IF RIsNum(b) /\ REq(RAbs(b), 1) THEN "" ELSE FmtAbs(b)) \o "i"
Vec(t, sep, par) == (IF par THEN "(" ELSE "") \o Join(t, sep) \o (IF par THEN ")" ELSE "")
Mat(m, sep, par) == Cat([i \in 1..Len(m) |-> Vec(Map(FmtZ, m[i]), sep, par) \o NL])
Term(c, i, x, ex) == (IF Neg(c) THEN "- " ELSE "+ ") \o FmtAbs(c) \o (IF i = 0 THEN "" ELSE "*" \o x \o ex \o ToString(i) \o " ")
\* c[i + 1] is the coefficient of x^i; highest power first
Poly(c, x, ex) == LET n == Len(c)
                      t == [j \in 1..n |-> LET i == n - j IN IF RIsNum(c[i + 1]) /\ RLt(RAbs(c[i + 1]), Eps) THEN "" ELSE Term(c[i + 1], i, x, ex)]
                      r == Eager(Cat(t))
                  IN  IF r = "" THEN "0" ELSE r
Kinds == [none |-> "No error", div |-> "Division by zero", domain |-> "An argument was out of the domain of the called function",
          range |-> "The result would be out of range", imposs |-> "A mathematically impossible operation was requested",
          conv |-> "The algorithm did not converge", arg |-> "Invalid argument size or value"]
PM(x) == IF x = "nan" THEN "" ELSE " +- " \o Fmt(x)
Opt(name, x) == IF x = "nan" THEN "" ELSE name \o Fmt(x) \o NL
Model(e) == "Model: y = A + B * x" \o NL \o "A = " \o Fmt(e.v[1]) \o PM(e.v[3]) \o NL \o "B = " \o Fmt(e.v[2]) \o PM(e.v[4]) \o NL
            \o "Error = " \o Fmt(e.v[5]) \o NL \o "ndf = " \o ToString(e.n) \o NL
            \o Opt("Chi-squared = ", e.v[6]) \o Opt("p-value = ", e.v[7])
            \o (IF e.m[1][1] = "nan" THEN "" ELSE "Covariance Matrix:" \o NL \o Mat(e.m, ", ", TRUE))
\* rows of a histogram: the position of the bin (already rounded by the library: logged as p) and its count
Hist(e) == IF e.n = 0 THEN "" ELSE Cat([i \in 1..Len(e.c) |-> Fmt(e.p[i]) \o e.sep \o (IF e.norm THEN Fmt(e.q[i]) ELSE ToString(e.c[i])) \o NL])
\* p and q themselves: positions of the bins and frequencies, up to rounding
HistNums(e) == \A i \in 1..Len(e.c) :
   /\ Ulps(e.p[i], RAdd(e.lo, RMul(RDiv(RSub(e.hi, e.lo), Len(e.c)), IF e.low THEN i - 1 ELSE RSub(i, "1/2"))), 4, RAdd(RAbs(e.lo), RAbs(e.hi)))
   /\ e.n > 0 => Ulps(e.q[i], RDiv(e.c[i], e.n), 1, 1)
Ode(e) == Cat([i \in 1..Len(e.t) |-> Fmt(e.t[i]) \o e.sep \o Join(Map(Fmt, e.m[i]), e.sep) \o NL])
Expected(e) ==
  CASE e.f = "vec" -> Vec(Map(Fmt, e.v), e.sep, e.par)
    [] e.f = "veci" -> Vec([i \in 1..Len(e.c) |-> ToString(e.c[i])], e.sep, e.par)
    [] e.f = "vecc" -> Vec([i \in 1..Len(e.m) |-> Complex(e.m[i][1], e.m[i][2])], e.sep, e.par)
    [] e.f = "mat" -> Mat(e.m, e.sep, e.par)
    [] e.f = "poly" -> Poly(e.v, e.x, e.ex)
    [] e.f = "complex" -> Complex(e.v[1], e.v[2])
    [] e.f = "quat" -> Fmt(e.v[1]) \o Sgn(e.v[2]) \o FmtAbs(e.v[2]) \o "i" \o Sgn(e.v[3]) \o FmtAbs(e.v[3]) \o "j" \o Sgn(e.v[4]) \o FmtAbs(e.v[4]) \o "k"
    [] e.f = "phasor" -> Fmt(e.v[1]) \o "/" \o Fmt(e.v[2])
    [] e.f = "ratio" -> ToString(e.c[1]) \o "/" \o ToString(e.c[2])
    [] e.f = "dual" -> Fmt(e.v[1]) \o Sgn(e.v[2]) \o FmtAbs(e.v[2]) \o e.x
    [] e.f = "dual2" -> Fmt(e.v[1]) \o Sgn(e.v[2]) \o FmtAbs(e.v[2]) \o e.x \o Sgn(e.v[3]) \o FmtAbs(e.v[3]) \o e.ex
    [] e.f = "multidual" -> Fmt(e.v[1]) \o " + " \o Vec(Map(Fmt, Tail(e.v)), ", ", TRUE) \o e.x
    [] e.f = "error" -> e.file \o "(" \o ToString(e.n) \o "):" \o e.fn \o "(" \o Fmt(e.v[1]) \o "): " \o Kinds[e.kind]
    [] e.f = "model" -> Model(e)
    [] e.f = "hist" -> Hist(e)
    [] e.f = "ode" -> IF Len(e.t) # Len(e.m) THEN "" ELSE Ode(e)
\* s: explicit conversion; o: written to a stream; c: implicit conversion (both with the default format)
Written(e) == /\ e.s = Eager(Expected(e))
              /\ e.dflt => (e.o = e.s /\ e.cv = e.s)
              /\ e.f = "hist" => HistNums(e)
              /\ e.f = "ode" => ((e.err # 0) <=> (Len(e.t) # Len(e.m)))
              /\ e.f = "error" => e.what = Kinds[e.kind]
Arg(a) == IF a[1] = "d" THEN Fmt(a[2]) ELSE a[2]
Printed(e) == e.s = Eager(Join([i \in 1..Len(e.a) |-> Arg(e.a[i])], " ") \o (IF e.ln THEN NL ELSE ""))

\* reading
Chars(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}
NumChars == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ".", "e", "+", "-"}
Dot(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN "" ELSE f[i - 1] \o (IF SubSeq(s, i, i) = "," THEN "." ELSE SubSeq(s, i, i)) IN f[Len(s)]
RECURSIVE Trim(_)
Trim(s) == IF s # "" /\ SubSeq(s, 1, 1) = " " THEN Trim(SubSeq(s, 2, Len(s))) ELSE s
Plain(s) == LET t == Trim(Dot(s)) IN IF t # "" /\ SubSeq(t, 1, 1) = "+" THEN SubSeq(t, 2, Len(t)) ELSE t
DMax == "0x1.fffffffffffffp+1023"
\* the number a line stands for: a decimal point or comma, an exponent; "none" if it is no number of the machine
NumOf(s) == LET t == Eager(Plain(s)) IN
            IF t = "" \/ ~(Chars(t) \subseteq NumChars) \/ ~RIsNum(t) THEN "none"
            ELSE IF RLt(DMax, RAbs(t)) THEN "none" ELSE RCanon(t)
Bang(s) == SubSeq(s, 1, 1) = "!"
ValOf(how, s) == IF how = "real" THEN NumOf(s) ELSE IF Bang(s) THEN "none" ELSE ToString(Len(s))
Stop(in, term) == LET hits == {i \in 1..Len(in) : in[i] = term} IN
                  IF hits = {} THEN Len(in) + 1 ELSE CHOOSE i \in hits : \A j \in hits : i <= j
Values(in, term, how) ==
  LET n == Stop(in, term) - 1
      f[i \in 0..n] == IF i = 0 THEN <<>> ELSE LET v == IF in[i] = "" THEN "none" ELSE ValOf(how, in[i]) IN
                       IF v = "none" THEN f[i - 1] ELSE Append(f[i - 1], v)
  IN  f[n]
Rest(in, term) == SubSeq(in, Stop(in, term) + 1, Len(in))
Nearest(x, q) == Near(x, q, RMul(R2Pow(-53), RMax(RAbs(q), "1e-300")))
ReadOK(s, e) == LET w == Eager(Values(s.in, e.term, e.how)) IN
                Len(e.r) = Len(w) /\ \A i \in 1..Len(w) : Nearest(e.r[i], w[i])
TStep(s, e) == CASE e.op = "open" -> TRUE
                 [] e.op = "read" -> ReadOK(s, e)
                 [] e.op = "rest" -> e.r = s.in
                 [] e.op = "print" -> Printed(e)
                 [] e.op = "text" -> Written(e)
TNext(s, e) == CASE e.op = "open" -> [in |-> e.lines]
                 [] e.op = "read" -> [in |-> Rest(s.in, e.term)]
                 [] e.op = "rest" -> [in |-> <<>>]
                 [] OTHER -> s
T0 == [in |-> <<>>]
=============================================================================

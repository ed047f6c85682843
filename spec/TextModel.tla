------------------------------ MODULE TextModel -----------------------------
(* Reading as a state machine: a reader takes the lines of every small     *)
(* input one at a time, and stops at the terminator or at the end.  It     *)
(* always stops, with the values and the remaining input Text.tla gives,   *)
(* and what it took and left is the input.  And numbers written and read   *)
(* back are the numbers, to six digits.                                    *)
EXTENDS Text
CONSTANTS MaxLen
VARIABLES in, term, left, got, done, x
vars == <<in, term, left, got, done, x>>
Alphabet == {"", "end", "1", " 2,5", "abc", "1e999"}
Inputs == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Nums == {"0", "1", "-1", "999999.5", "99999.95", "0.0001", "0.00009999995", "123456789", "1e300", "1/3", "-2/3", "1e-310", "100000.5", "0x1.8p-1070", "1234565", "-1234575", "0.1", "1e5", "1e6", "999999"}
Init == in = <<>> /\ left = <<>> /\ got = <<>> /\ done = FALSE /\ term = "?" /\ x \in Nums
Start == term = "?" /\ x = "0" /\ in' \in Inputs /\ term' \in {"", "end", "1"} /\ left' = in' /\ UNCHANGED <<got, done, x>>
Read == /\ term # "?" /\ ~done
        /\ IF left = <<>> THEN done' = TRUE /\ UNCHANGED <<left, got>>
           ELSE LET l == Head(left) IN
                /\ left' = Tail(left)
                /\ done' = (l = term)
                /\ got' = IF l = term \/ l = "" \/ NumOf(l) = "none" THEN got ELSE Append(got, NumOf(l))
        /\ UNCHANGED <<in, term, x>>
Next == Start \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Read)
Stops == (term # "?") ~> done
Agrees == done => got = Values(in, term, "real") /\ left = Rest(in, term)
Consumes == done => \E k \in 0..Len(in) : left = SubSeq(in, k + 1, Len(in)) /\ (k < Len(in) => in[k] = term)
Prefix == (term # "?" /\ ~done) => \A i \in 1..(Len(in) - Len(left)) : in[i] # term
\* writing
Back(z) == RCanon(Fmt(z))
RoundTrip == RLe(RAbs(RSub(Back(x), x)), RMul("0.000005", RAbs(x)))
Stable == Fmt(Back(x)) = Fmt(x)
Signed == (SubSeq(Fmt(x), 1, 1) = "-") <=> RLt(x, 0)
Known == /\ Fmt("1/3") = "0.333333" /\ Fmt("123456789") = "1.23457e+08" /\ Fmt("1e5") = "100000" /\ Fmt("1e6") = "1e+06" /\ Fmt("0.0001") = "0.0001"
         /\ Fmt("0.00001") = "1e-05" /\ Fmt("999999.5") = "1e+06" /\ Fmt("-2.5") = "-2.5" /\ Fmt("1234565") = "1.23456e+06" /\ Fmt("1234575") = "1.23458e+06"
         /\ Poly(<<"1", "0", "-2">>, "x", "^") = "- 2*x^2 + 1" /\ Poly(<<>>, "x", "^") = "0" /\ Vec(<<>>, ", ", TRUE) = "()"
         /\ Complex("1", "-1") = "1 - i" /\ NumOf(" 2,5") = RCanon("2.5") /\ NumOf("abc") = "none" /\ NumOf("") = "none"
=============================================================================

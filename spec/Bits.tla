-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Fixed-width words: products kept in two words, the MUM mixer, rotations *)
(* and bit-reversal permutations.  A word register (the machine's state)   *)
(* is loaded and rotated; the other operations are pure.                   *)
(***************************************************************************)
EXTENDS Rat

Word(w) == R2Pow(w)

\* the exact product as a pair of w-bit words
ProdLow(a, b, w)  == ZMod(RMul(a, b), Word(w))
ProdHigh(a, b, w) == ZDiv(RMul(a, b), Word(w))
Mum(a, b, w)      == ZXor(ProdLow(a, b, w), ProdHigh(a, b, w))

\* rotation towards the high bits: bit j of x goes to bit (j + i) mod w
Rot(x, i, w) ==
  LET k == i % w
      y == ZShl(x, k)
  IN  ZOr(ZMod(y, Word(w)), ZDiv(y, Word(w)))

RECURSIVE Rev(_, _)
Rev(i, m) == IF m = 0 THEN 0 ELSE (i % 2) * 2^(m - 1) + Rev(i \div 2, m - 1)

\* elements 0..2^m - 1 permuted by reversing the m bits of their index, the rest kept
BitReversed(x, m) ==
  [k \in 1..Len(x) |-> IF k - 1 < 2^m THEN x[Rev(k - 1, m) + 1] ELSE x[k]]

M0 == [w |-> 64, x |-> "0"]

MStep(s, e) ==
  CASE e.op = "mul" -> e.lo = ProdLow(e.a, e.b, 64) /\ e.hi = ProdHigh(e.a, e.b, 64)
    [] e.op = "mum" -> e.r = Mum(e.a, e.b, 64)
    [] e.op = "load" -> TRUE
    [] e.op = "rot" -> e.r = Rot(s.x, e.i, s.w)
    [] e.op = "rev" -> e.y = BitReversed(e.x, e.m)
    [] OTHER -> FALSE

MNext(s, e) ==
  CASE e.op = "load" -> [w |-> e.w, x |-> e.x]
    [] e.op = "rot" -> [s EXCEPT !.x = e.r]
    [] OTHER -> s
=============================================================================

----------------------------- MODULE BitsModel ------------------------------
(***************************************************************************)
(* The word-splitting multiplication as a step machine over half words of  *)
(* H bits (the implementation has H = 32), checked for every pair of       *)
(* operands at a small H, together with the algebraic laws of rotation and *)
(* bit reversal; and the generator of behaviours: rotation histories and   *)
(* operands whose half words sit on the carry boundaries.                  *)
(***************************************************************************)
EXTENDS Bits, TLC, IOUtils

CONSTANTS H, MaxRev

VARIABLES a, b, pc, m, carry, lo, hi
vars == <<a, b, pc, m, carry, lo, hi>>

B == 2^H
WordsH == 0..(B * B - 1)
Low(x) == x % B
High(x) == x \div B

Init == /\ a \in WordsH /\ b \in WordsH
        /\ pc = "split" /\ m = <<0, 0, 0, 0>> /\ carry = 0 /\ lo = 0 /\ hi = 0

Split == /\ pc = "split"
         /\ m' = <<Low(a) * Low(b), Low(a) * High(b), High(a) * Low(b), High(a) * High(b)>>
         /\ pc' = "carry" /\ UNCHANGED <<a, b, carry, lo, hi>>
Carry == /\ pc = "carry"
         /\ carry' = High(High(m[1]) + Low(m[2]) + Low(m[3]))
         /\ pc' = "join" /\ UNCHANGED <<a, b, m, lo, hi>>
Join  == /\ pc = "join"
         /\ lo' = (m[1] + m[2] * B + m[3] * B) % (B * B)
         /\ hi' = m[4] + High(m[2]) + High(m[3]) + carry
         /\ pc' = "done" /\ UNCHANGED <<a, b, m, carry>>
Next == Split \/ Carry \/ Join

TypeOK == hi < B * B /\ lo < B * B /\ \A k \in 1..4 : m[k] < B * B
ProductKept == pc = "done" =>
  /\ ToString(lo) = ProdLow(a, b, 2 * H)
  /\ ToString(hi) = ProdHigh(a, b, 2 * H)

W == 2 * H
RotationLaws == pc = "split" => \A i \in 0..W : \A j \in {0, 1, H, W - 1} :
  /\ Rot(Rot(a, i, W), j, W) = Rot(a, i + j, W)
  /\ Rot(Rot(a, i, W), W - (i % W), W) = ToString(a)
ReversalLaws == (a = 0 /\ b = 0) => \A r \in 0..MaxRev :
  LET x == [k \in 1..(2^r + 2) |-> k] IN
    /\ BitReversed(BitReversed(x, r), r) = x
    /\ {BitReversed(x, r)[k] : k \in 1..(2^r + 2)} = 1..(2^r + 2)

(********************************* generator ******************************)
Limbs == {"0", "1", "2", "2147483647", "2147483648", "2863311530", "4294967294", "4294967295"}
Full == {RAdd(ZShl(h, 32), l) : h \in Limbs, l \in Limbs}
GInit == /\ a \in Full /\ b \in Full
         /\ pc = "gen" /\ m = 0 /\ carry = 0 /\ lo = 0 /\ hi = 0
         /\ Emit(IOEnv.OUT, <<"mul", a, b, ";", "mum", a, b>>)
GNext == FALSE /\ UNCHANGED vars
=============================================================================

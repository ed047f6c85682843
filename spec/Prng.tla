-------------------------------- MODULE Prng --------------------------------
(***************************************************************************)
(* The generators as machines on 64-bit words.  A generator is a record    *)
(* [kind, x, p]: last value x and parameter words p.  Two generator        *)
(* registers "a" and "b" show that generators do not interfere.            *)
(***************************************************************************)
EXTENDS Rat, TLC

W64 == Once("2^64", R2Pow(64))
U(v) == ZMod(v, W64)
UAdd(v, w) == U(RAdd(v, w))
UMul(v, w) == U(RMul(v, w))
UShl(v, k) == U(ZShl(v, k))
URot(v, k) == ZOr(UShl(v, k), ZShr(v, 64 - k))

(* each recurrence: generator record -> the record after one draw *)
Congruential(g) == [g EXCEPT !.x = ZMod(UAdd(UMul(g.p[1], g.x), g.p[2]), g.p[3])]

\* xoshiro256++ (Blackman, Vigna)
Xoshiro(g) ==
  LET s == g.p
      r == UAdd(URot(UAdd(s[1], s[4]), 23), s[1])
      s2 == ZXor(s[3], s[1])
      s3 == ZXor(s[4], s[2])
  IN [g EXCEPT !.x = r,
        !.p = <<ZXor(s[1], s3), ZXor(s[2], s2), ZXor(s2, UShl(s[2], 17)), URot(s3, 45)>>]

\* splitmix64 finaliser
Mix(v, k, c) == UMul(ZXor(v, ZShr(v, k)), c)
SplitMixF(v) ==
  LET y == UAdd(v, "11400714819323198485")              \* 0x9e3779b97f4a7c15
      z == Mix(Mix(y, 30, "13787848793156543929"), 27, "10723151780598845931")
  IN ZXor(z, ZShr(z, 31))
SplitMix(g) == [g EXCEPT !.x = SplitMixF(g.x)]

\* wyrand: the exclusive or of the halves of a 128-bit product
Wyrand(g) ==
  LET s == UAdd(g.p[1], g.p[2])
      m == RMul(ZXor(s, g.p[3]), s)
  IN [g EXCEPT !.x = ZXor(U(m), ZDiv(m, W64)), !.p = <<s, g.p[2], g.p[3]>>]

\* middle 64 bits of the square
MiddleSquare(g) ==
  LET s == UAdd(g.x, g.p[1]) IN [g EXCEPT !.x = U(ZShr(RMul(s, s), 32))]

Draw(g) == CASE g.kind = "lcg" -> Congruential(g)
             [] g.kind = "xoshiro" -> Xoshiro(g)
             [] g.kind = "splitmix" -> SplitMix(g)
             [] g.kind = "wyrand" -> Wyrand(g)
             \* a function of the caller's: here, one that returns the words of a list in turn
             [] g.kind = "script" -> [g EXCEPT !.x = g.p[1], !.p = Append(Tail(g.p), g.p[1])]
             [] g.kind = "middle" -> MiddleSquare(g)

RECURSIVE Drawn(_, _)
Drawn(g, n) == IF n = 0 THEN g ELSE Drawn(Draw(g), n - 1)

(* standard generators from a seed *)
OrElse(s, d) == IF REq(s, 0) THEN d ELSE RCanon(s)
Seeded(kind, seed, p) ==
  CASE kind = "lcg" -> [kind |-> kind, x |-> IF REq(ZMod(seed, "2147483647"), 0) THEN "1" ELSE RCanon(seed), p |-> <<"48271", "0", "2147483647">>]
    [] kind = "xoshiro" -> LET a == SplitMixF(OrElse(seed, "1")) b == SplitMixF(a) c == SplitMixF(b)
                           IN [kind |-> kind, x |-> "0", p |-> <<a, b, c, SplitMixF(c)>>]
    [] kind = "splitmix" -> [kind |-> kind, x |-> OrElse(seed, "1"), p |-> <<>>]
    [] kind = "script" -> [kind |-> kind, x |-> seed, p |-> p]
    [] kind = "wyrand" -> LET s == OrElse(seed, "1")
                              p1 == IF p = <<>> THEN "2549536629329" ELSE p[1]
                              p2 == IF p = <<>> THEN "136137137" ELSE OrElse(p[2], SplitMixF(s))
                          IN [kind |-> kind, x |-> "0", p |-> <<s, p1, p2>>]
    [] kind = "middle" -> [kind |-> kind, x |-> OrElse(seed, SplitMixF("765872292751861")),
                           p |-> <<IF p = <<>> THEN "765872292751861" ELSE OrElse(p[1], "765872292751861")>>]

NoGen == [kind |-> "none", x |-> "0", p |-> <<>>]
P0 == [a |-> NoGen, b |-> NoGen]

PrngStep(s, e) ==
  CASE e.op = "new" -> e.x = Seeded(e.kind, e.seed, e.p).x /\ e.q = Seeded(e.kind, e.seed, e.p).p
    [] e.op = "raw" -> TRUE
    [] e.op = "draw" -> e.r = Draw(s[e.g]).x
    [] e.op = "discard" -> TRUE
    [] e.op = "seed" -> TRUE
    [] e.op = "setp" -> TRUE
    [] e.op = "setpi" -> TRUE
    [] e.op = "copy" -> TRUE
    [] e.op = "state" -> e.x = s[e.g].x /\ e.p = s[e.g].p
    \* the stateless functions
    [] e.op = "fn" -> e.r = Draw([kind |-> e.kind, x |-> e.x, p |-> e.p]).x
    [] OTHER -> FALSE

PrngNext(s, e) ==
  CASE e.op = "new" -> [s EXCEPT ![e.g] = Seeded(e.kind, e.seed, e.p)]
    [] e.op = "raw" -> [s EXCEPT ![e.g] = [kind |-> e.kind, x |-> e.x, p |-> e.p]]
    [] e.op = "draw" -> [s EXCEPT ![e.g] = Draw(s[e.g])]
    [] e.op = "discard" -> [s EXCEPT ![e.g] = Drawn(s[e.g], e.n)]
    [] e.op = "seed" -> [s EXCEPT ![e.g].x = e.x]
    [] e.op = "setp" -> [s EXCEPT ![e.g].p = e.p]
    [] e.op = "setpi" -> [s EXCEPT ![e.g].p[e.i + 1] = e.v]
    [] e.op = "copy" -> [s EXCEPT ![e.g] = s[e.from]]
    [] OTHER -> s
=============================================================================

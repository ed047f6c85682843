------------------------------ MODULE FftModel ------------------------------
(***************************************************************************)
(* The radix-2 algorithm as a transition system: bit reversal, then stages *)
(* of butterflies.  Arithmetic is modulo a prime Q with W a primitive N-th *)
(* root of unity, where everything is exact.  Invariant: after stage p the *)
(* block b holds the transform of the samples whose index is the bit       *)
(* reversal of b modulo N / 2^p; at the end the whole is the DFT and the   *)
(* inverse transform restores the input.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS M, Q, W, Vals
N == 2^M
VARIABLES x, k, p
vars == <<x, k, p>>
RECURSIVE Pw(_, _)
Pw(b, e) == IF e = 0 THEN 1 ELSE (b * Pw(b, e - 1)) % Q
RECURSIVE Rev(_, _)
Rev(i, m) == IF m = 0 THEN 0 ELSE (i % 2) * 2^(m - 1) + Rev(i \div 2, m - 1)
RECURSIVE Sm(_, _)
Sm(f, n) == IF n = 0 THEN 0 ELSE (f[n - 1] + Sm(f, n - 1)) % Q
Dft(y, n, w) == [j \in 0..(n - 1) |-> Sm([i \in 0..(n - 1) |-> y[i] * Pw(w, (i * j) % n)], n)]
Init == x \in [0..(N - 1) -> Vals] /\ k = [i \in 0..(N - 1) |-> x[Rev(i, M)]] /\ p = 0
Stage(v, q) ==      \* butterflies of span 2^q
  LET m == 2^q h == m \div 2 ph == Pw(W, N \div m) IN
  [i \in 0..(N - 1) |-> LET j == i % m IN
     IF j < h THEN (v[i] + Pw(ph, j) * v[i + h]) % Q ELSE (v[i - h] + (Q - Pw(ph, j - h)) * v[i]) % Q]
Next == p < M /\ p' = p + 1 /\ k' = Stage(k, p + 1) /\ UNCHANGED x
Blocks == \A b \in 0..(2^(M - p) - 1) :
  LET s == Rev(b, M - p) y == [i \in 0..(2^p - 1) |-> x[i * 2^(M - p) + s]]
      d == Dft(y, 2^p, Pw(W, 2^(M - p)))
  IN \A j \in 0..(2^p - 1) : k[b * 2^p + j] = d[j]
Whole == p = M => k = Dft(x, N, W)
Inverse == p = M => [j \in 0..(N - 1) |-> (Pw(N, Q - 2) * Dft(k, N, Pw(W, N - 1))[j]) % Q] = [j \in 0..(N - 1) |-> x[j] % Q]
=============================================================================

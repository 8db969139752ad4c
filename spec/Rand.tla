-------------------------------- MODULE Rand --------------------------------
(* Pseudo random choices, all determined by a seed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Pr == 44497                                      \* prime, Pr^2 < 2^31
Mix(a) == LET b == (a * a + 12345 * 3 + a * 31) % Pr IN (b * ((a % 1009) + 7) + 101) % Pr
\* hash of a seed and an index, in 0..Pr-1
Hash(s, i) == LET a == ((s % Pr) * 211 + (i % Pr) * 6007 + (s \div Pr) * 17 + (i \div Pr) * 29) % Pr
           IN Mix((Mix(a) + i * 13 + s) % Pr)
Rnd(s, i, n) == Hash(s, i) % n                      \* 0..n-1
Pick(s, i, seq) == seq[1 + Rnd(s, i, Len(seq))]
Sub(s, i) == Hash(s, i) + Pr * (Hash(s, i + 777) % 40000)   \* a derived seed
Coin(s, i, pct) == Rnd(s, i, 100) < pct

FillSeq(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])

PickS(s, i, S) == SetToSeq(S)[1 + Rnd(s, i, Cardinality(S))]
\* every element with a chance, in the order of the set (elements are integers)
SubsetOf(s, i, S, pct) == SelectSeq(SetToSeq(S), LAMBDA x : Coin(s, i + x, pct))
First(sq, n) == SubSeq(sq, 1, IF n < Len(sq) THEN n ELSE Len(sq))
Shuffle(s, sq) == LET ix == SortSeq([k \in 1..Len(sq) |-> k], LAMBDA a, b : Hash(s, a) < Hash(s, b)) IN [k \in 1..Len(sq) |-> sq[ix[k]]]
=============================================================================

-------------------------------- MODULE Draw --------------------------------
(***************************************************************************)
(* Drawing things by number, and reports of what was drawn.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils

CONSTANTS Seed,    \* of all that is drawn
          Sizes    \* lengths to try besides small ones

\* R(n, i, k) is one of 0..k-1: what number n draws for the place i
Prime == 32749
Mix(z) == (z * z + 7 * z + 12345) % Prime
R(n, i, k) == Mix((Mix((Mix((n * 61 + i * 2003 + Seed * 977) % Prime) + i * 31 + n) % Prime) + n * 7 + i) % Prime) % k
Pick(n, i, seq) == seq[R(n, i, Len(seq)) + 1]
Times(n, i, k, F(_)) == [j \in 1..R(n, i, k) |-> F(j)]       \* fewer than k
Span(lo, hi) == [j \in 1..(hi - lo + 1) |-> lo + j - 1]
Chars(n, i, k, sigma) == Times(n, i, k, LAMBDA j : Pick(n, i + j, sigma))
\* fewer than k, or now and then one of Sizes
Size(n, i, k) == IF Sizes # <<>> /\ R(n, i + 7, 14) = 0 THEN Pick(n, i + 8, Sizes) ELSE R(n, i, k)
Long(n, i, k, F(_)) == [j \in 1..Size(n, i, k) |-> F(j)]
LongChars(n, i, k, sigma) == Long(n, i, k, LAMBDA j : Pick(n, i + j, sigma))
All == Span(0, 255)
Flat(ss) == FoldLeft(LAMBDA a, t : a \o t, <<>>, ss)

\* reports: items <<name, bytes or digits>>; data without bytes is not reported
Item(name, v) == << <<name, v>> >>
Data(name, v) == IF v = <<>> THEN <<>> ELSE Item(name, v)
Ev(name) == Item(name, <<>>)

(***************************************************************************)
(* Sizes and texts that somebody who looks at the code would try, from the *)
(* environment (MINED is a file of JSON), and such that anybody would.     *)
(***************************************************************************)
MinedFor == IF "MINED" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.MINED) ELSE [words |-> <<>>, nums |-> <<>>]
MinedWords == MinedFor.words
MinedNums == MinedFor.nums
MinedSizes == LET xs == SelectSeq(MinedNums, LAMBDA x : x <= 600) \o <<16, 32, 64, 127, 255>>
              IN Flat([j \in 1..Len(xs) |-> << xs[j], xs[j] + 1, IF xs[j] = 0 THEN 0 ELSE xs[j] - 1 >>])
DrawSeed == IF "SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.SEED) % 30000 ELSE 1
=============================================================================

--------------------------- MODULE Http2Connection ---------------------------
(***************************************************************************)
(* Frames written one behind the other, and the machine of Http2 at the    *)
(* other end.  After each frame it has reported what the sender meant, and *)
(* it is as it was before the first one.                                   *)
(***************************************************************************)
EXTENDS Http2Push, SequencesExt, Json, TLC, IOUtils

CONSTANTS Count, Chains, Export, Seed, Sizes, Nums

F == INSTANCE Http2Frames
D == INSTANCE Draw
ConnSizes == D!MinedSizes
ConnSeed == D!DrawSeed
ConnNums == D!MinedNums
P == INSTANCE Push WITH MStep <- H2Step, MSettle <- H2Settle, MFinal <- H2Final, MLook <- H2Look,
                        MPhase <- H2Phase, MPiecewise <- H2Piecewise, MData <- DataTokens,
                        MRegs <- RegTokens, MArgs <- H2Args

Learn(rep, t) == IF t[1] \in DataTokens /\ rep # <<>> /\ rep[Len(rep)][1] = t[1]
                 THEN [rep EXCEPT ![Len(rep)][2] = @ \o t[2]] ELSE Append(rep, t)

VARIABLES n, d
vars == <<n, d>>

Idle == [q |-> H2State, er |-> "", rep |-> <<>>]
Take(c, b) == IF c.er # "" THEN c
              ELSE LET a == P!FeedByte([q |-> c.q, toks |-> <<>>, er |-> "", k |-> 0, last |-> 0, at |-> c.q], b)
                   IN [q |-> a.q, er |-> a.er, rep |-> FoldLeft(Learn, c.rep, a.toks)]

Began == n % (Count \div Chains) = 0
Init == n \in {c * (Count \div Chains) : c \in 0..(Chains - 1)} /\ d = Idle
Next == /\ (n + 1) % (Count \div Chains) # 0
        /\ n' = n + 1
        /\ d' = FoldLeft(Take, [d EXCEPT !.rep = <<>>], F!Written(F!Frame(n')))
Spec == Init /\ [][Next]_vars

Understood == Began \/ d.rep = F!Report(F!Frame(n))
Ready == [d EXCEPT !.rep = <<>>] = Idle

PrintMsg == Began \/ ~Export \/ PrintT("MSG" \o ToJson([w |-> F!Written(F!Frame(n)), r |-> F!Report(F!Frame(n)), s |-> F!Stretch(F!Frame(n))]))
=============================================================================

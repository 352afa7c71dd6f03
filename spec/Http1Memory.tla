---------------------------- MODULE Http1Memory ----------------------------
(***************************************************************************)
(* What a parser has to remember of the bytes it has read: nothing but its *)
(* location, and which bytes of a fixed text it has passed without knowing *)
(* yet what they are.  These bytes can be told from the location alone, so *)
(* nothing has to be stored, and every other byte that is handed out is    *)
(* handed out when it is read, from where it lies (zero copy).             *)
(***************************************************************************)
EXTENDS Http1

\* where the data of a part is delivered as it is, delimiters aside
Scanning(s) == s.c \in {"Scan", "ScanLf"} \/ (s.c \in {"Hy1", "Hy2", "Bnd"} /\ s.len = 0)
Detecting(s) == s.c \in {"H1", "H2", "H3", "H4", "Method"}

\* the bytes that have been read and are not reported yet, although they may be
Keep(s) == CASE s.c = "H1" -> SubSeq(B_HTTP, 1, 1)
             [] s.c = "H2" -> SubSeq(B_HTTP, 1, 2)
             [] s.c = "H3" -> SubSeq(B_HTTP, 1, 3)
             [] s.c = "H4" -> SubSeq(B_HTTP, 1, 4)
             [] s.c = "ScanLf" -> <<CR>>
             [] s.c = "Hy1" /\ s.len = 0 -> <<CR, LF>>
             [] s.c = "Hy2" /\ s.len = 0 -> <<CR, LF, HYPHEN>>
             [] s.c = "Bnd" /\ s.len = 0 -> <<CR, LF, HYPHEN, HYPHEN>> \o SubSeq(Bnd(s), 1, s.k)
             [] OTHER -> <<>>

\* bytes that have been read for one that is still to be reported in another form
Escapes(s) == CASE s.c \in {"UNameH1", "UValueH1", "ExtEscaped"} -> 1
                [] s.c \in {"UNameH2", "UValueH2"} -> 2
                [] OTHER -> 0
Held(s) == Len(Keep(s)) + Escapes(s)

\* data that is always handed out from where it lies (names may be looked up, and are lower-cased)
InPlace == DataTokens \ {"method", "hname", "xname"}

Reported(r) == [i \in 1..Len(SelectSeq(r.ev, LAMBDA t : t[1] \in DataTokens)) |->
                  SelectSeq(r.ev, LAMBDA t : t[1] \in DataTokens)[i][2]]

\* Holds for every state s and byte b.  By induction over the input it speaks about inputs of any length.
MemoryStep(s, b) ==
    LET r == Step(s, b)
        d == Reported(r)
    IN
    \* nothing is reported that has not been read, and nothing twice
    /\ Len(d) <= Held(s) + 1
    /\ Held(r.nx) <= Held(s) + 1 - Len(d)
    \* an error may lose what is held, and only that
    /\ r.er # "" => d \in {<<>>, Keep(s)}
    \* where the data of a part ends is decided by the delimiter alone: all other bytes are reported, in order
    /\ Scanning(s) => r.er = "" /\ IF r.nx.c = "BndEnd" THEN d = <<>> /\ Keep(s) \o <<b>> = <<CR, LF, HYPHEN, HYPHEN>> \o Bnd(s)
                                   ELSE Scanning(r.nx) /\ d \o Keep(r.nx) = Keep(s) \o <<b>>
    \* likewise of a method: up to the blank
    /\ Detecting(s) /\ r.er = "" /\ r.nx.c # "PMaj1" =>
          IF b = SP THEN r.nx.c = "Url1" /\ d = Keep(s) ELSE d \o Keep(r.nx) = Keep(s) \o <<b>>
    /\ s.c = "H4" /\ r.nx.c = "PMaj1" => d = <<>>
    \* elsewhere what is reported is the byte itself, unless it stands for another
    /\ Held(s) = 0 => (d \in {<<>>, <<b>>, <<Lower(b)>>} \/ (b = PLUS /\ d = <<SP>>))

\* what is held is bounded, whatever has been read
MemoryBound(s) == Held(s) <= (IF s.bd = 0 THEN 4 ELSE 3 + Len(Bnd(s)))
=============================================================================

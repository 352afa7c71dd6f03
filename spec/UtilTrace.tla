----------------------------- MODULE UtilTrace -----------------------------
(***************************************************************************)
(* Checks results recorded from decode(), QueryIterator and FieldIterator: *)
(* every line is one input with everything it gave.                        *)
(***************************************************************************)
EXTENDS Util, TLC, TraceFile, SequencesExt

VARIABLE l
Line == Trace[l]

\* pairs are <<name, has value, value>>
Take(acc, t) ==
    CASE t[1] = "out"    -> [acc EXCEPT !.out = Append(@, t[2])]
      [] t[1] = "name"   -> [acc EXCEPT !.name = Append(@, t[2])]
      [] t[1] = "value"  -> [acc EXCEPT !.value = Append(@, t[2])]
      [] t[1] = "item"   -> [acc EXCEPT !.items = Append(@, <<acc.name, FALSE, <<>>>>), !.name = <<>>, !.value = <<>>]
      [] t[1] = "item_v" -> [acc EXCEPT !.items = Append(@, <<acc.name, TRUE, acc.value>>), !.name = <<>>, !.value = <<>>]

Byte1(acc, b) == IF acc.er # "" THEN acc
                 ELSE LET r == Step(acc.s, b)
                      IN [FoldLeft(Take, acc, r.ev) EXCEPT !.s = r.nx, !.er = r.er, !.at = b]
Result(m, in) ==
    LET a == FoldLeft(Byte1, [s |-> m, er |-> "", at |-> 0, out |-> <<>>, name |-> <<>>, value |-> <<>>, items |-> <<>>], in)
    IN IF a.er # "" THEN a
       ELSE LET e == End(a.s) IN [FoldLeft(Take, a, e.ev) EXCEPT !.er = e.er]

Machine(x) == CASE x.m = "decode" -> InitDecode
                [] x.m = "query"  -> InitQuery
                [] x.m = "field"  -> InitField(x.delim, x.norm)

\* what is recorded: out (of a decode that succeeded), items, er and byte
ResultOK(x) == LET r == Result(Machine(x), x.in) IN
    /\ x.er = r.er
    /\ x.er # "" => x.byte = r.at
    /\ x.m = "decode" => (x.er = "" => x.out = r.out)
    /\ x.m # "decode" => x.items = r.items

TInit == l = 2
TNext == l <= Len(Trace) /\ ResultOK(Line) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
Accepted == PrintT("TRACE " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace))) /\ TraceAccepted
=============================================================================

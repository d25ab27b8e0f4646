------------------------------- MODULE Data -------------------------------
(* A data frame is bound to a formula.

   The frame arrives row by row. A row belongs to a series (series are contiguous), holds a level of
   one factor and may lack the response, the factor or one of two numeric variables. The formula uses
   some of these variables.

   Binding first collects the factor's levels and gives each a code, then reads the rows in order.
   A row is retained iff nothing the formula uses is missing in it. A retained row is linked to the
   retained row of the same series that precedes it; such a link is what the ar1 model of residuals
   uses. Later, new rows are encoded with the codes that were given then. *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS N,        \* number of rows
          Kinds,    \* what a row may look like: [miss: set of variables, g: level]
          Used,     \* variables of the formula, a subset of {"x", "w", "g"}
          Order,    \* factor levels in alphabetical order
          Book,     \* levels in the order of user supplied codes, << >> for none
          Frames,   \* frames to bind: sequences of [kind, new]; {} for all
          Fresh     \* levels that may occur in new data

VARIABLES phase,    \* "fill", "bind", "predict", "done"
          rows,     \* sequence of [miss, g, s]: s is the number of the series
          codes,    \* levels in the order of their codes
          pos,      \* rows read so far
          kept,     \* retained rows: [row, code, prev]; prev is the preceding retained row or 0
          last      \* last retained row of the current series, 0 if none

vars == <<phase, rows, codes, pos, kept, last>>

Init == /\ phase = "fill" /\ codes = << >> /\ pos = 0 /\ kept = << >> /\ last = 0
        /\ IF Frames = {} THEN rows = << >> ELSE rows \in Frames

Row(k, s) == [miss |-> k.miss, g |-> k.g, s |-> s]

Fill == /\ phase = "fill"
        /\ Len(rows) < N
        /\ \E k \in Kinds, new \in BOOLEAN :
             /\ (rows = << >>) => new
             /\ rows' = Append(rows, Row(k, IF rows = << >> THEN 1
                                            ELSE rows[Len(rows)].s + (IF new THEN 1 ELSE 0)))
        /\ UNCHANGED <<phase, codes, pos, kept, last>>

HasLevel(r) == "g" \notin r.miss
Levels == {rows[j].g : j \in {j \in 1 .. Len(rows) : HasLevel(rows[j])}}
InOrder(ls, order) == SelectSeq(order, LAMBDA l : l \in ls)

Bind == /\ phase = "fill"
        /\ IF Frames = {} THEN Len(rows) = N ELSE TRUE
        /\ Book = << >> \/ Levels = {Book[j] : j \in 1 .. Len(Book)}
        /\ codes' = InOrder(Levels, IF Book = << >> THEN Order ELSE Book)
        /\ phase' = "bind"
        /\ UNCHANGED <<rows, pos, kept, last>>

Complete(r) == r.miss \cap (Used \cup {"y"}) = {}
Code(l) == CHOOSE j \in 1 .. Len(codes) : codes[j] = l

Read == /\ phase = "bind"
        /\ pos < Len(rows)
        /\ LET r == rows[pos + 1]
               before == IF pos > 0 /\ rows[pos].s = r.s THEN last ELSE 0
           IN IF Complete(r)
              THEN /\ kept' = Append(kept, [row |-> pos + 1, prev |-> before,
                                            code |-> IF HasLevel(r) THEN Code(r.g) - 1 ELSE 99])
                   /\ last' = pos + 1
              ELSE /\ kept' = kept
                   /\ last' = before
        /\ pos' = pos + 1
        /\ UNCHANGED <<phase, rows, codes>>

\* new data: one row per level that may occur, known ones get their old code, others none
NewCodes == [l \in Fresh |-> IF \E j \in 1 .. Len(codes) : codes[j] = l THEN Code(l) - 1 ELSE 99]

Emit == /\ phase = "bind"
        /\ pos = Len(rows)
        /\ phase' = "done"
        /\ (kept # << >> /\ ("g" \in Used => codes # << >>)) =>
             PrintT("@@" \o ToJson([rows |-> rows, codes |-> codes, kept |-> kept,
                                    fresh |-> NewCodes]))
        /\ UNCHANGED <<rows, codes, pos, kept, last>>

Next == Fill \/ Bind \/ Read \/ Emit
Spec == Init /\ [][Next]_vars

(* --------------------------------------------------------------- properties *)
KeptRows == {kept[j].row : j \in 1 .. Len(kept)}
\* exactly the complete rows read so far are retained, in order
Exact == /\ phase \in {"bind", "done"} => KeptRows = {j \in 1 .. pos : Complete(rows[j])}
         /\ \A j \in 1 .. Len(kept) - 1 : kept[j].row < kept[j + 1].row
\* codes are one to one with levels
Coded == \A j, k \in 1 .. Len(codes) : codes[j] = codes[k] => j = k
Decodes == \A j \in 1 .. Len(kept) : kept[j].code # 99 => codes[kept[j].code + 1] = rows[kept[j].row].g
\* links never leave a series, and reach the closest retained row
Linked == \A j \in 1 .. Len(kept) :
             LET k == kept[j] IN
             IF k.prev = 0
             THEN ~ \E i \in KeptRows : i < k.row /\ rows[i].s = rows[k.row].s
             ELSE /\ k.prev \in KeptRows /\ k.prev < k.row
                  /\ rows[k.prev].s = rows[k.row].s
                  /\ ~ \E i \in KeptRows : k.prev < i /\ i < k.row
\* every series with a retained row starts afresh exactly once
Starts == \A s \in {rows[j].s : j \in KeptRows} :
             Cardinality({j \in 1 .. Len(kept) : kept[j].prev = 0 /\ rows[kept[j].row].s = s}) = 1
\* what was retained stays retained, codes stay what they are
Settled == [][/\ Len(kept') >= Len(kept) /\ SubSeq(kept', 1, Len(kept)) = kept
              /\ codes # << >> => codes' = codes]_vars
=============================================================================

------------------------------- MODULE Terms -------------------------------
(* What a summary of a fitted model reports, and about which coefficients.

   Part one: reading a formula. Coefficients are laid out by part - linear terms, impulse responses, smooth
   terms, random terms - and within a part in the order of the formula. A term consists of blocks (levels of a
   factor); every block of a penalised term has one entry among the term-wise degrees of freedom, which are
   counted over all parameters of the model. A summary walks along three cursors - column, entry, test - and
   writes one line per block. The invariants say, without cursors, what the lines must be.

   Part two: which test a block gets. The degrees of freedom r of a block (in quarters) select the rank of the
   statistic and its reference distribution: a sum of chi-square variables with weights, whose mean is r. *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Kinds,    \* sequence of records name, part, size, blocks, pen, test, once
          Clash,    \* sets of names of terms whose coefficients are not identified together
          MaxTerms, \* terms per formula besides the intercept
          Pars,     \* number of parameters with a formula
          Blocks,   \* sizes of blocks for part two
          Mode      \* "read" or "rank"

VARIABLES forms, par, left, col, entry, test, lines, rank

vars == <<forms, par, left, col, entry, test, lines, rank>>

Rank(p) == CASE p = "linear" -> 1 [] p = "impulse" -> 2 [] p = "smooth" -> 3 [] p = "random" -> 4

\* un-penalised smooth terms stand before penalised ones; some terms occur once
Valid(f) ==
  /\ \A a, b \in 1 .. Len(f) :
       a < b => /\ ~(f[a] = f[b] /\ Kinds[f[a]].once)
                /\ ~(/\ Kinds[f[b]].part = "smooth" /\ ~Kinds[f[b]].pen
                     /\ Kinds[f[a]].part \in {"smooth", "impulse"} /\ Kinds[f[a]].pen)
  /\ \A c \in Clash : ~(c \subseteq {Kinds[f[a]].name : a \in 1 .. Len(f)})
  /\ \A a, b \in 1 .. Len(f) :
       ~(Kinds[f[a]].part = "impulse" /\ Kinds[f[b]].part = "smooth" /\ ~Kinds[f[b]].pen)

Seqs == UNION {[1 .. n -> 1 .. Len(Kinds)] : n \in 1 .. MaxTerms}
Formulas == {f \in Seqs : Valid(f)}

Before(f, a, b) == \/ Rank(Kinds[f[a]].part) < Rank(Kinds[f[b]].part)
                   \/ Rank(Kinds[f[a]].part) = Rank(Kinds[f[b]].part) /\ a < b

RECURSIVE Sum(_, _)
Sum(F(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN F(x) + Sum(F, S \ {x})

Width(k) == Kinds[k].size * Kinds[k].blocks
Columns(f) == LET w(t) == Width(f[t]) IN 1 + Sum(w, 1 .. Len(f))

----------------------------------------------------------------------------
NoRank == [size |-> 0, r |-> 0, path |-> "none", dof |-> 0, frac |-> 0]

Start ==
  /\ forms \in [1 .. Pars -> Formulas]
  /\ par = 1 /\ left = 1 .. Len(forms[1])
  /\ col = 2              \* the first column is the intercept
  /\ entry = 1 /\ test = 1
  /\ lines = <<>>
  /\ rank = NoRank

Next1(t) == \A u \in left \ {t} : Before(forms[par], t, u)

Line(t, b) ==
  LET k == Kinds[forms[par][t]]
  IN  [par |-> par, term |-> t, block |-> b, part |-> k.part,
       first |-> col + (b - 1) * k.size, last |-> col + b * k.size - 1,
       entry |-> IF k.pen THEN entry + b - 1 ELSE 0,
       test |-> IF k.test THEN test + b - 1 ELSE 0]

Read(t) ==
  /\ t \in left /\ Next1(t)
  /\ LET k == Kinds[forms[par][t]]
     IN  /\ lines' = lines \o [b \in 1 .. k.blocks |-> Line(t, b)]
         /\ col' = col + k.size * k.blocks
         /\ entry' = IF k.pen THEN entry + k.blocks ELSE entry
         /\ test' = IF k.test THEN test + k.blocks ELSE test
  /\ left' = left \ {t}
  /\ UNCHANGED <<forms, par, rank>>

NextPar ==
  /\ left = {} /\ par < Pars
  /\ par' = par + 1 /\ left' = 1 .. Len(forms[par + 1])
  /\ col' = 2 /\ test' = 1
  /\ UNCHANGED <<forms, entry, lines, rank>>

Finish ==
  /\ left = {} /\ par = Pars
  /\ par' = Pars + 1
  /\ PrintT("@@" \o ToJson([forms |-> [p \in 1 .. Pars |-> [t \in 1 .. Len(forms[p]) |-> Kinds[forms[p][t]].name]],
                            lines |-> lines]))
  /\ UNCHANGED <<forms, left, col, entry, test, lines, rank>>

----------------------------------------------------------------------------
\* r in quarters; the rank is its integer part, the rest is spread over two variables
StartRank ==
  /\ \E n \in Blocks : \E r \in 0 .. 4 * n : rank = [NoRank EXCEPT !.size = n, !.r = r]
  /\ forms = <<>> /\ par = 0 /\ left = {} /\ col = 0 /\ entry = 0 /\ test = 0 /\ lines = <<>>

Choose ==
  /\ par = 0
  /\ LET k == rank.r \div 4
         v == rank.r % 4
     IN  rank' = [rank EXCEPT !.path = IF k = 0 THEN "untested" ELSE IF v = 0 THEN "whole" ELSE "split",
                              !.dof = IF v = 0 THEN k ELSE IF k = 0 THEN 0 ELSE k - 1,
                              !.frac = IF k = 0 THEN 0 ELSE v]
  /\ par' = 1
  /\ PrintT("@@" \o ToJson(rank'))
  /\ UNCHANGED <<forms, left, col, entry, test, lines>>

----------------------------------------------------------------------------
Init == IF Mode = "read" THEN Start ELSE StartRank
Next == IF Mode = "read" THEN (\E t \in left : Read(t)) \/ NextPar \/ Finish ELSE Choose
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Reading == Mode = "read"
Done == par = Pars + 1
Of(p) == {i \in 1 .. Len(lines) : lines[i].par = p}

\* every column but the intercept is reported by exactly one line
ColumnsOnce ==
  (Reading /\ Done) => \A p \in 1 .. Pars :
    /\ \A c \in 2 .. Columns(forms[p]) :
         Cardinality({i \in Of(p) : lines[i].first <= c /\ c <= lines[i].last}) = 1
    /\ \A i \in Of(p) : lines[i].first >= 2 /\ lines[i].last <= Columns(forms[p])

\* ... and where, without cursors
Declared ==
  Reading => \A i \in 1 .. Len(lines) :
    LET f == forms[lines[i].par]
        t == lines[i].term
        w(u) == Width(f[u])
    IN  lines[i].first = 2 + Sum(w, {u \in 1 .. Len(f) : u # t /\ Before(f, u, t)})
                           + (lines[i].block - 1) * Kinds[f[t]].size

\* entries of the degrees of freedom are used once, in order of the columns, over all parameters
EntriesOnce ==
  (Reading /\ Done) =>
    /\ {lines[i].entry : i \in 1 .. Len(lines)} \ {0} = 1 .. (entry - 1)
    /\ \A i, j \in 1 .. Len(lines) :
         (i < j /\ lines[i].entry > 0 /\ lines[j].entry > 0) =>
            /\ lines[i].entry < lines[j].entry
            /\ lines[i].par < lines[j].par \/ lines[i].last < lines[j].first

\* smooth terms that are not random are tested, nothing else
Tested ==
  Reading => \A i \in 1 .. Len(lines) :
    lines[i].test > 0 <=> Kinds[forms[lines[i].par][lines[i].term]].test

\* the columns without an entry are those that count fully
FullyCounted ==
  (Reading /\ Done) => \A p \in 1 .. Pars :
    LET w(i) == lines[i].last - lines[i].first + 1
        v(t) == IF Kinds[forms[p][t]].pen THEN 0 ELSE Width(forms[p][t])
    IN  Columns(forms[p]) - Sum(w, {i \in Of(p) : lines[i].entry > 0}) = 1 + Sum(v, 1 .. Len(forms[p]))

\* the mean of the reference distribution is r: dof variables of weight one, two whose weights add to 1 + v
MeanKept ==
  (~Reading /\ par = 1 /\ rank.path # "untested") =>
     /\ 4 * rank.dof + (IF rank.path = "split" THEN 4 + rank.frac ELSE 0) = rank.r
     /\ rank.dof + (IF rank.path = "split" THEN 2 ELSE 0) <= rank.size
=============================================================================

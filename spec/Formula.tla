------------------------------ MODULE Formula ------------------------------
(***************************************************************************)
(* How the formulas of a model are laid out: which columns every term      *)
(* contributes, in which order and under which name, which penalties act   *)
(* on which of these columns and which penalties share one smoothing       *)
(* parameter.                                                              *)
(*                                                                         *)
(* A behaviour chooses the terms of one formula after the other (Pick,     *)
(* NextFormula), then lays the model out one term per step: linear terms,  *)
(* impulse response terms, smooth terms and random terms of the first      *)
(* formula, then those of the next one (Lay), and finally groups the       *)
(* penalties by smoothing parameter (Share).                               *)
(*                                                                         *)
(* Columns are recipes, not numbers: a column multiplies indicator         *)
(* conditions on factors, numeric variables, and one basis function. The   *)
(* conformance harness evaluates a recipe on the raw data frame.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Alphabet,     \* sequence of term records
  Levels,       \* factor -> sequence of its levels in coding order
  MaxTerms,     \* number of terms of a formula
  MaxForms,     \* number of formulas of a model
  First         \* alphabet indices that may start a formula

VARIABLES
  forms,        \* sequence of formulas, each a sequence of alphabet indices
  phase,        \* "pick", "lay", "share", "done"
  fi,           \* formula that is laid out
  todo,         \* terms of that formula still to be laid out (0-based positions)
  const,        \* do the linear terms laid out so far span the constant?
  cols,         \* columns of all formulas so far
  pens,         \* penalties of all formulas so far
  verdict       \* "ok", or why the formula has to be rejected
vars == <<forms, phase, fi, todo, const, cols, pens, verdict>>

IsFactor(v) == v \in DOMAIN Levels
Kinds == <<"lin", "irf", "smooth", "rand">>
Term(f, p) == Alphabet[forms[f][p + 1]]
Positions(f, kind) == SelectSeq([p \in 1..Len(forms[f]) |-> p - 1],
                                LAMBDA p : Term(f, p).kind = kind)
Order(f) == Positions(f, "lin") \o Positions(f, "irf") \o Positions(f, "smooth")
              \o Positions(f, "rand")

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o "_" \o Join(Tail(s))
SetSum(S, g(_)) == LET RECURSIVE R(_)
                       R(T) == IF T = {} THEN 0
                               ELSE LET e == CHOOSE e \in T : TRUE IN g(e) + R(T \ {e})
                   IN  R(S)

\* ------------------------------------------------------------------ columns
\* A column: [form, term, name, ind: <<<<factor, level>>, ...>>, num: <<numeric variable, ...>>,
\*            k: index of the basis function within the term's block, -1 for none]
Column(f, p, name, ind, num, k) ==
  [form |-> f - 1, term |-> p, name |-> name, ind |-> ind, num |-> num, k |-> k]

\* Columns of a linear predictor of one or more variables. Factors loose their first level when a
\* constant is already in the span of the linear terms before it.
RECURSIVE Product(_, _)
Product(vs, drop) ==
  IF vs = <<>> THEN << [name |-> "", ind |-> <<>>, num |-> <<>>] >>
  ELSE LET v    == vs[Len(vs)]
           rest == Product(SubSeq(vs, 1, Len(vs) - 1), drop)
           sep(r) == IF r.name = "" THEN "" ELSE "_"
           start == IF drop THEN 2 ELSE 1
       IN  Flatten([j \in 1..Len(rest) |->
             IF IsFactor(v)
             THEN [l \in 1..(Len(Levels[v]) - start + 1) |->
                    [name |-> rest[j].name \o sep(rest[j]) \o v \o "_" \o Levels[v][l + start - 1],
                     ind |-> Append(rest[j].ind, <<v, Levels[v][l + start - 1]>>),
                     num |-> rest[j].num]]
             ELSE << [name |-> rest[j].name \o sep(rest[j]) \o v,
                      ind |-> rest[j].ind, num |-> Append(rest[j].num, v)] >> ])

\* Number of coefficients of a smooth per factor level.
SmoothK(t) == Prod(t.nk) - (IF t.te /\ t.ident THEN 1 ELSE 0)

LevelsOf(t) == IF t.by = "" THEN <<"">> ELSE Levels[t.by]
\* by-factor of a random smooth restricted to a sub-group has the levels found in that sub-group
ByName(t) == t.by

ColumnsOf(f, p) ==
  LET t == Term(f, p)
      lin == Product(t.vars, const)
      free == Product(t.vars, FALSE)
  IN CASE t.k = "i" -> << Column(f, p, "Intercept", <<>>, <<>>, -1) >>
       [] t.k = "l" -> [c \in 1..Len(lin) |->
                         Column(f, p, lin[c].name, lin[c].ind, lin[c].num, -1)]
       [] t.kind \in {"smooth", "irf"} ->
            Flatten([l \in 1..Len(LevelsOf(t)) |->
              [c \in 1..SmoothK(t) |->
                Column(f, p,
                  (IF t.kind = "irf" THEN "irf_" \o ToString(p) \o "_" ELSE "f_")
                    \o Join(t.vars) \o (IF t.bin = <<>> THEN "" ELSE t.bin[1])
                    \o "_" \o ToString(c - 1)
                    \o (IF t.by = "" THEN "" ELSE "_" \o LevelsOf(t)[l]),
                  (IF t.by = "" THEN <<>> ELSE << <<t.by, LevelsOf(t)[l]>> >>)
                    \o (IF t.bin = <<>> THEN <<>> ELSE << t.bin >>),
                  IF t.bycont = "" THEN <<>> ELSE <<t.bycont>>,
                  c - 1)]])
       [] t.k = "ri" -> [l \in 1..Len(Levels[t.vars[1]]) |->
                          Column(f, p, "ri(" \o t.vars[1] \o "_" \o Levels[t.vars[1]][l] \o ")",
                                 << <<t.vars[1], Levels[t.vars[1]][l]>> >>, <<>>, -1)]
       [] t.k = "rs" ->
            Flatten([l \in 1..Len(LevelsOf(t)) |->
              [c \in 1..Len(free) |->
                Column(f, p,
                  "rs(" \o free[c].name
                    \o (IF t.by = "" THEN "" ELSE "_" \o LevelsOf(t)[l]) \o ")",
                  free[c].ind \o (IF t.by = "" THEN <<>> ELSE << <<t.by, LevelsOf(t)[l]>> >>),
                  free[c].num, -1)]])

\* ---------------------------------------------------------------- penalties
\* A penalty: [form, term, kind, pid, start (first coefficient), size (of one copy), rep (copies),
\*             id (-1: none)]
Pen(f, p, kind, pid, start, size, rep, id) ==
  [form |-> f - 1, term |-> p, kind |-> kind, pid |-> pid, start |-> start, size |-> size,
   rep |-> rep, id |-> id]

\* One penalty per order and margin; separate ones per level unless the levels share via id.
PerLevel(f, p, kind, pid, start, size, nlev, shared, id) ==
  IF shared \/ nlev = 1 THEN << Pen(f, p, kind, pid, start, size, nlev, id) >>
  ELSE [l \in 1..nlev |-> Pen(f, p, kind, pid, start + (l - 1) * size, size, 1, id)]

NPens(t) == Len(t.ms) * Len(t.vars)

PensOf(f, p, start) ==
  LET t    == Term(f, p)
      nlev == Len(LevelsOf(t))
      k    == SmoothK(t)
      own(pid) == PerLevel(f, p, "wiggle", pid, start, k, nlev, t.by /= "" /\ t.id >= 0,
                           IF t.by = "" /\ t.id >= 0 THEN t.id + pid ELSE -1)
      null(pid) == IF ~t.null THEN <<>>
                   ELSE IF t.rp = 1
                   THEN Flatten([u \in 1..(t.ms[1] - (IF t.ident THEN 1 ELSE 0)) |->
                          PerLevel(f, p, "nullfun", u - 1, start, k, nlev,
                                   t.by /= "" /\ t.id >= 0, -1)])
                   ELSE PerLevel(f, p, "null", pid, start, k, nlev, t.by /= "" /\ t.id >= 0, -1)
      nrs  == Len(Product(t.vars, FALSE))
  IN CASE t.kind = "lin" \/ ~t.pen -> <<>>
       [] t.kind \in {"smooth", "irf"} ->
            Flatten([q \in 1..NPens(t) |->
              own(q - 1) \o (IF Len(t.vars) = 1 \/ q = NPens(t) THEN null(q - 1) ELSE <<>>)])
       [] t.k = "ri" -> << Pen(f, p, "ident", 0, start, Len(Levels[t.vars[1]]), 1, t.id) >>
       [] t.k = "rs" -> IF t.by = "" THEN << Pen(f, p, "ident", 0, start, nrs, 1, t.id) >>
                        ELSE [l \in 1..nlev |->
                               Pen(f, p, "ident", 0, start + (l - 1) * nrs, nrs, 1,
                                   IF t.id >= 0 THEN t.id + l - 1 ELSE -1)]

\* Penalties with the same id are multiplied by one smoothing parameter, all others have their own.
Groups ==
  LET ids == {pens[q].id : q \in 1..Len(pens)} \ {-1}
      single == {{q - 1} : q \in {q \in 1..Len(pens) : pens[q].id = -1}}
      shared == {{q - 1 : q \in {q \in 1..Len(pens) : pens[q].id = e}} : e \in ids}
  IN  single \cup shared

\* -------------------------------------------------------------- transitions
Init == /\ forms = << <<>> >> /\ phase = "pick" /\ fi = 1 /\ todo = <<>> /\ const = FALSE
        /\ cols = <<>> /\ pens = <<>> /\ verdict = "ok"

Pick == /\ phase = "pick"
        /\ Len(forms[Len(forms)]) < MaxTerms
        /\ \E a \in 1..Len(Alphabet) :
             /\ IF forms[Len(forms)] = <<>> THEN a \in First
                ELSE \A p \in 1..Len(forms[Len(forms)]) : forms[Len(forms)][p] /= a
             /\ forms' = [forms EXCEPT ![Len(forms)] = Append(@, a)]
        /\ UNCHANGED <<phase, fi, todo, const, cols, pens, verdict>>

NextFormula == /\ phase = "pick" /\ Len(forms) < MaxForms /\ forms[Len(forms)] /= <<>>
               /\ forms' = Append(forms, <<>>)
               /\ UNCHANGED <<phase, fi, todo, const, cols, pens, verdict>>

HasIntercept(f) == \E p \in 1..Len(forms[f]) : Alphabet[forms[f][p]].k = "i"

Begin(f) == /\ fi' = f /\ todo' = Order(f) /\ const' = HasIntercept(f)

Start == /\ phase = "pick" /\ Len(forms) = MaxForms /\ forms[Len(forms)] /= <<>>
         /\ phase' = "lay" /\ Begin(1)
         /\ UNCHANGED <<forms, cols, pens, verdict>>

Lay == /\ phase = "lay" /\ todo /= <<>> /\ verdict = "ok"
       /\ LET p == Head(todo) t == Term(fi, p) IN
          /\ cols' = cols \o ColumnsOf(fi, p)
          /\ pens' = pens \o PensOf(fi, p, Len(cols))
          /\ const' = (const \/ (t.k = "l" /\ \E v \in 1..Len(t.vars) : IsFactor(t.vars[v])))
          \* unpenalised smooths have to precede penalised ones
          /\ verdict' = IF t.kind \in {"smooth", "irf"} /\ ~t.pen
                           /\ \E q \in 1..Len(pens) : pens[q].form = fi - 1
                        THEN "rejected" ELSE "ok"
       /\ todo' = Tail(todo)
       /\ UNCHANGED <<forms, phase, fi>>

LayNext == /\ phase = "lay" /\ todo = <<>> /\ fi < Len(forms) /\ verdict = "ok"
           /\ Begin(fi + 1)
           /\ UNCHANGED <<forms, phase, cols, pens, verdict>>

Share == /\ phase = "lay" /\ (verdict = "rejected" \/ (todo = <<>> /\ fi = Len(forms)))
         /\ phase' = "done"
         /\ PrintT("@@" \o ToJson([forms |-> forms, verdict |-> verdict, cols |-> cols,
                                   pens |-> pens, groups |-> Groups]))
         /\ UNCHANGED <<forms, fi, todo, const, cols, pens, verdict>>

Next == Pick \/ NextFormula \/ Start \/ Lay \/ LayNext \/ Share
Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------------- properties
Range(f) == {c \in 1..Len(cols) : cols[c].form = f - 1}
OfTerm(f, p) == {c \in Range(f) : cols[c].term = p}

\* the columns of a term, and those of a formula, are one contiguous block
Contiguous ==
  \A c1, c2 \in 1..Len(cols) : \A c3 \in c1..c2 :
    (cols[c1].form = cols[c2].form /\ cols[c1].term = cols[c2].term)
       => (cols[c3].form = cols[c1].form /\ cols[c3].term = cols[c1].term)

\* a penalty only touches columns of the term it belongs to, and its copies are as long as the
\* block of one factor level
InBlock ==
  \A q \in 1..Len(pens) : \A c \in (pens[q].start + 1)..(pens[q].start + pens[q].size * pens[q].rep) :
    cols[c].form = pens[q].form /\ cols[c].term = pens[q].term

\* every penalised coefficient is penalised, unpenalised terms are not
Covered ==
  phase = "done" /\ verdict = "ok" =>
    \A c \in 1..Len(cols) :
      LET t == Term(cols[c].form + 1, cols[c].term) IN
        (\E q \in 1..Len(pens) : c > pens[q].start /\ c <= pens[q].start + pens[q].size * pens[q].rep)
          <=> (t.kind /= "lin" /\ t.pen)

\* the groups partition the penalties
Partition ==
  phase = "done" =>
    \A q \in 1..Len(pens) : Cardinality({g \in Groups : q - 1 \in g}) = 1

\* what has been laid out never changes
Stable == [][ /\ SubSeq(cols', 1, Len(cols)) = cols /\ SubSeq(pens', 1, Len(pens)) = pens ]_vars

THEOREM Spec => [](Contiguous /\ InBlock /\ Covered /\ Partition) /\ Stable
=============================================================================

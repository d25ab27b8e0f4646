------------------------------ MODULE Predict ------------------------------
(* Questions are put to a fitted model.

   A fitted model has one coefficient vector. It is divided into one block per parameter of the
   likelihood, followed by extra coefficients that belong to no linear predictor. The block of a
   parameter is divided into one block per term, in the order in which terms enter the model matrix.

   An answer is described by the coefficients it is computed from and by the rows these are combined
   with; a row enters a difference positively or negatively. Random numbers come from a stream of the
   process: a question without a seed draws from it, a question with a seed must not depend on it.
   Putting a question never changes the model. *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS Layout,   \* per parameter a sequence of [term, cols] in the order of columns
          Extra,    \* number of extra coefficients
          Ops,      \* kinds of questions
          Frames,   \* names of data sets
          Seeds,    \* seeds; 0 for none
          Depth,    \* length of histories
          Subsets,  \* sets of terms that are asked for (per parameter); {} for all subsets
          Asks      \* questions that may be asked; {} for all

VARIABLES model,    \* version of the model
          stream,   \* random numbers drawn from the process' stream
          log       \* questions with their answers

vars == <<model, stream, log>>

Pars == 1 .. Len(Layout)

RECURSIVE Sum(_, _)
Sum(blocks, k) == IF k = 0 THEN 0 ELSE blocks[k].cols + Sum(blocks, k - 1)

Width(p) == Sum(Layout[p], Len(Layout[p]))
RECURSIVE Start(_)
Start(p) == IF p = 1 THEN 0 ELSE Start(p - 1) + Width(p - 1)
Total == Start(Len(Layout)) + Width(Len(Layout)) + Extra

Terms(p) == {Layout[p][k].term : k \in 1 .. Len(Layout[p])}
\* columns of the model matrix of p that belong to terms u
Cols(p, u) == UNION {{Sum(Layout[p], k - 1) + j : j \in 1 .. Layout[p][k].cols}
                     : k \in {k \in 1 .. Len(Layout[p]) : Layout[p][k].term \in u}}
\* their positions in the coefficient vector
Coefs(p, u) == {Start(p) + c : c \in Cols(p, u)}

Uses(p) == IF Subsets = {} THEN SUBSET Terms(p) ELSE {u \in Subsets : u \subseteq Terms(p)}

Random(op) == op \in {"whole", "diffwhole", "sample", "deviate"}
Twofold(op) == op \in {"diff", "diffwhole"}

All == {a \in [op : Ops, par : Pars, all : BOOLEAN, use : UNION {Uses(p) : p \in Pars},
               dat : Frames, ref : Frames, seed : Seeds] :
          /\ a.use \in Uses(a.par)
          /\ a.all => a.use = Terms(a.par)
          /\ ~Twofold(a.op) => a.ref = a.dat
          /\ a.op \in {"sample", "deviate", "pars", "mmat"} => a.dat = CHOOSE f \in Frames : TRUE
          /\ a.op = "pars" => (Cardinality(a.use) = 1 \/ a.all)
          /\ ~Random(a.op) => a.seed = CHOOSE s \in Seeds : TRUE}

Questions == IF Asks = {} THEN All ELSE Asks

Answer(a, s) == [ask |-> a, cols |-> Cols(a.par, a.use), coefs |-> Coefs(a.par, a.use),
                 from |-> IF ~Random(a.op) THEN 0 ELSE IF a.seed # 0 THEN a.seed ELSE 1000 + s]

Init == model = 1 /\ stream = 0 /\ log = << >>

Ask == /\ Len(log) < Depth
       /\ \E a \in Questions :
            /\ log' = Append(log, Answer(a, stream))
            /\ stream' = stream + (IF Random(a.op) /\ a.seed = 0 THEN 1 ELSE 0)
       /\ UNCHANGED model

Done == /\ Len(log) = Depth
        /\ PrintT("@@" \o ToJson([log |-> log]))
        /\ log' = Append(log, [ask |-> [op |-> "end"]])
        /\ UNCHANGED <<model, stream>>

Next == Ask \/ Done
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Answers == {log[k] : k \in {k \in 1 .. Len(log) : log[k].ask.op # "end"}}

\* an answer for one parameter uses no coefficient of another one, and no extra coefficient
Own == \A r \in Answers : r.coefs \subseteq Start(r.ask.par) + 1 .. Start(r.ask.par) + Width(r.ask.par)
\* columns and coefficients correspond one to one and in order
Aligned == \A r \in Answers : r.coefs = {Start(r.ask.par) + c : c \in r.cols}
\* asking for all terms leaves nothing out, asking for none leaves nothing in
Whole == \A r \in Answers : /\ (r.ask.all => Cardinality(r.cols) = Width(r.ask.par))
                            /\ (r.ask.use = {} => r.cols = {})
\* terms do not share coefficients, and what is asked for together is what is asked for one by one
Additive == \A r \in Answers : LET p == r.ask.par IN
              /\ r.cols = UNION {Cols(p, {t}) : t \in r.ask.use}
              /\ r.cols \cap Cols(p, Terms(p) \ r.ask.use) = {}
\* every coefficient that is not extra belongs to a term
Covered == UNION {Coefs(p, Terms(p)) : p \in Pars} = 1 .. Total - Extra
\* answers to the same question agree, unless they draw from the process' stream
Same == \A r, q \in Answers : r.ask = q.ask =>
          (r = q \/ (Random(r.ask.op) /\ r.ask.seed = 0))
\* questions with a seed leave the stream alone, those without one never see the same numbers twice
Seeded == \A j, k \in 1 .. Len(log) :
            (/\ j < k /\ log[j].ask.op # "end" /\ log[k].ask.op # "end"
             /\ log[j].from >= 1000 /\ log[k].from >= 1000) => log[j].from < log[k].from
Inert == [][model' = model]_vars
=============================================================================

------------------------------ MODULE Family ------------------------------
(* Distributions of the response.

   Part one, exact: a categorical response with integer weights and a binomial response with a rational
   mean. All probabilities, moments, scores and curvatures are rational here, so the relations between
   them that the families promise (probabilities sum to one, cumulative probabilities cut the unit
   interval into one piece per class, the score has expectation zero, its variance is the negative
   expected curvature, the variance function is the variance) are checked as equalities of integers, and
   every value is reported for comparison with the code.

   Part two, use: family objects are evaluated in any order, also several of one kind, prepared with data
   of one model and asked about another one. What an object answers depends on the question, on its
   arguments and on the parameters the object was given, and on nothing else. *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Weights,  \* sequences of weights, reference class first
          Binomials, \* records n, a, b: n trials with success probability a / b
          Objects, Questions, Cases, Depth

VARIABLES item, seen, log

vars == <<item, seen, log>>

None == "none"

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})

RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)

RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)

----------------------------------------------------------------------------
(* categorical: class k has weight w[k + 1]; class 0 is the reference *)
Classes(w) == 0 .. Len(w) - 1
Wt(w, k) == w[k + 1]
Total(w) == Sum(w, 1 .. Len(w))
\* cumulative probabilities are taken in the order 1, 2, ..., K, 0
Before(w, k) == IF k = 0 THEN 1 .. Len(w) - 1 ELSE 1 .. k - 1
Low(w, k) == Sum([j \in Before(w, k) |-> Wt(w, j)], Before(w, k))
High(w, k) == Low(w, k) + Wt(w, k)
\* derivative of the log probability of class y with respect to predictor j, times Total
Score(w, y, j) == (IF y = j THEN Total(w) ELSE 0) - Wt(w, j)
\* second derivative, times Total squared
Curve(w, i, j) == IF i = j THEN - (Wt(w, j) * (Total(w) - Wt(w, j))) ELSE Wt(w, i) * Wt(w, j)

CatHolds(w) ==
  /\ \A u \in 0 .. Total(w) - 1 : Cardinality({k \in Classes(w) : Low(w, k) <= u /\ u < High(w, k)}) = 1
  /\ \A j \in 1 .. Len(w) - 1 :
       Sum([y \in Classes(w) |-> Wt(w, y) * Score(w, y, j)], Classes(w)) = 0
  /\ \A i, j \in 1 .. Len(w) - 1 :
       Sum([y \in Classes(w) |-> Wt(w, y) * Score(w, y, i) * Score(w, y, j)], Classes(w))
         = - Total(w) * Curve(w, i, j)

CatRecord(w) ==
  [what |-> "cat", w |-> w, total |-> Total(w),
   low |-> [k \in 1 .. Len(w) |-> Low(w, k - 1)], high |-> [k \in 1 .. Len(w) |-> High(w, k - 1)],
   score |-> [y \in 1 .. Len(w) |-> [j \in 1 .. Len(w) - 1 |-> Score(w, y - 1, j)]],
   curve |-> [i \in 1 .. Len(w) - 1 |-> [j \in 1 .. Len(w) - 1 |-> Curve(w, i, j)]]]

----------------------------------------------------------------------------
(* binomial: k successes in n trials, as multiples of 1 / b^n *)
Mass(m, k) == Choose(m.n, k) * Pow(m.a, k) * Pow(m.b - m.a, m.n - k)
Moment(m, r) == Sum([k \in 0 .. m.n |-> Pow(k, r) * Mass(m, k)], 0 .. m.n)

BinHolds(m) ==
  /\ Moment(m, 0) = Pow(m.b, m.n)
  /\ Moment(m, 1) * m.b = m.n * m.a * Pow(m.b, m.n)
  /\ (Moment(m, 2) * Pow(m.b, m.n) - Moment(m, 1) * Moment(m, 1)) * Pow(m.b, 2)
       = m.n * m.a * (m.b - m.a) * Pow(m.b, 2 * m.n)

BinRecord(m) == [what |-> "bin", n |-> m.n, a |-> m.a, b |-> m.b, den |-> Pow(m.b, m.n),
                 mass |-> [k \in 1 .. m.n + 1 |-> Mass(m, k - 1)]]

----------------------------------------------------------------------------
Init == /\ item = [what |-> None]
        /\ seen = [o \in Objects |-> None]
        /\ log = << >>

Exact == /\ item.what = None /\ log = << >>
         /\ \/ \E w \in Weights : /\ item' = [what |-> "cat", w |-> w]
                                  /\ PrintT("@@" \o ToJson(CatRecord(w)))
            \/ \E m \in Binomials : /\ item' = [what |-> "bin", m |-> m]
                                    /\ PrintT("@@" \o ToJson(BinRecord(m)))
         /\ UNCHANGED <<seen, log>>

\* a model hands its data to the object before it is fitted
Prepare(o, c) == /\ seen' = [seen EXCEPT ![o] = c]
                 /\ log' = Append(log, [obj |-> o, op |-> "prepare", case |-> c, ask |-> None])

\* the answer is determined by question and case
Ask(o, q, c) == /\ log' = Append(log, [obj |-> o, op |-> "ask", case |-> c, ask |-> q])
                /\ UNCHANGED seen

Use == /\ item.what = None /\ Len(log) < Depth
       /\ \E o \in Objects, c \in Cases : Prepare(o, c) \/ (\E q \in Questions : Ask(o, q, c))
       /\ UNCHANGED item

Report == /\ item.what = None /\ Depth > 0 /\ Len(log) = Depth
          /\ PrintT("@@" \o ToJson([what |-> "use", log |-> log]))
          /\ log' = Append(log, [obj |-> 0, op |-> "end", case |-> None, ask |-> None])
          /\ UNCHANGED <<item, seen>>

Next == Exact \/ Use \/ Report
Spec == Init /\ [][Next]_vars

Relations == /\ item.what = "cat" => CatHolds(item.w)
             /\ item.what = "bin" => BinHolds(item.m)

\* answering leaves everything that could be read by a later answer as it is
Pure == [][(Len(log') > Len(log) /\ log'[Len(log')].op = "ask") => UNCHANGED seen]_vars
=============================================================================

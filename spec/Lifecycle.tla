----------------------------- MODULE Lifecycle -----------------------------
(* Objects in use: models are fitted, fitted again with other options, and asked questions.

   What a model has stored is kept part by part, each with the fit it comes from. A fit writes every
   part, also those its options do not mention (an offset or a correlation of an earlier fit does not
   survive). Questions read parts and write nothing. Models may share the formula they are made from, or
   in addition the object that describes the distribution; neither belongs to one of the models. *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS Objects,  \* models in use
          Fits,     \* ways to fit
          Asks,     \* questions
          Depth,    \* operations in a history
          Fails,    \* fits may fail
          Share     \* "nothing", "formula", "both"

VARIABLES made, shared, log

vars == <<made, shared, log>>

Parts == {"coef", "lam", "preds", "curvature", "scale", "offset", "correlation", "edf"}

None == "none"

Init == /\ made = [o \in Objects |-> [p \in Parts |-> None]]
        /\ shared = "as built"
        /\ log = << >>

Is(o) == made[o]["coef"]

\* objects are taken into use one after the other
Ready(o) == \A k \in Objects : k < o => Is(k) # None

Fit(o, f) == /\ Ready(o)
             /\ made' = [made EXCEPT ![o] = [p \in Parts |-> f]]
             /\ log' = Append(log, [obj |-> o, op |-> "fit", what |-> f, of |-> f])
             /\ UNCHANGED shared

\* the answer is made of all parts, so it belongs to a fit only if all of them do
Ask(o, q) == /\ Is(o) # None
             /\ \A p \in Parts : made[o][p] = Is(o)
             /\ log' = Append(log, [obj |-> o, op |-> "ask", what |-> q, of |-> Is(o)])
             /\ UNCHANGED <<made, shared>>

\* a fit may fail; the model then waits for another one
Fail(o) == /\ Ready(o) /\ Fails
           /\ made' = [made EXCEPT ![o] = [p \in Parts |-> None]]
           /\ log' = Append(log, [obj |-> o, op |-> "fail", what |-> None, of |-> None])
           /\ UNCHANGED shared

Work == /\ Len(log) < Depth
        /\ \E o \in Objects : (\E f \in Fits : Fit(o, f)) \/ (\E q \in Asks : Ask(o, q)) \/ Fail(o)

Report == /\ Len(log) = Depth
          /\ PrintT("@@" \o ToJson([log |-> log, last |-> [o \in Objects |-> Is(o)]]))
          /\ log' = Append(log, [obj |-> 0, op |-> "end", what |-> "", of |-> ""])
          /\ UNCHANGED <<made, shared>>

Next == Work \/ Report
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
LastFit(o, n) ==
  LET S == {k \in 1 .. n : log[k].obj = o /\ log[k].op \in {"fit", "fail"}}
  IN IF S = {} THEN None ELSE log[CHOOSE k \in S : \A j \in S : j <= k].what

Length == IF Len(log) > Depth THEN Depth ELSE Len(log)

\* everything a model has stored comes from its own last fit
Whole == \A o \in Objects : \A p \in Parts : made[o][p] = LastFit(o, Length)
\* every answer is that of the last fit of the model that was asked
Answers == \A n \in 1 .. Length : log[n].op = "ask" => log[n].of = LastFit(log[n].obj, n)
\* what is shared is never written
Untouched == shared = "as built"
\* questions are inert
Inert == [][(Len(log') > Len(log) /\ log'[Len(log')].op = "ask") => UNCHANGED <<made, shared>>]_vars
=============================================================================

------------------------------- MODULE Cox -------------------------------
(* A cohort that is followed forward in time, and a survival model that is queried about it.

   Every subject leaves the cohort exactly once, at an integer time, either because its event
   occurred or because it was censored. The times passing one after the other give, for every time at
   which somebody leaves, the set of subjects at risk just before, and the subjects whose event
   occurs. All quantities of a proportional hazards model are functions of this record.

   After follow-up, an analyst queries one model object any number of times with any coefficient
   vector and any of the cohorts (same times, other outcomes). A query has no effect: its answer
   only depends on its own arguments. *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS N,          \* number of subjects
          T,          \* last time
          Cohorts,    \* set of [time, event] to follow up; {} for all of them
          Ops,        \* queries an analyst can make
          Coefs,      \* coefficient vectors, by name
          MaxCalls    \* number of queries

Subjects == 1 .. N

VARIABLES time, event,   \* when does each subject leave, and does its event occur then
          now, atrisk,   \* follow-up
          log,           \* one entry per time at which somebody leaves
          calls          \* queries made so far

vars == <<time, event, now, atrisk, log, calls>>

Init == /\ IF Cohorts = {}
           THEN /\ time \in [Subjects -> 1 .. T]
                /\ event \in [Subjects -> {0, 1}]
           ELSE \E c \in Cohorts : time = c.time /\ event = c.event
        /\ now = 0
        /\ atrisk = Subjects
        /\ log = << >>
        /\ calls = << >>

Leaving(t) == {i \in atrisk : time[i] = t}

Pass == /\ now < T
        /\ now' = now + 1
        /\ LET out == Leaving(now + 1) IN
             /\ atrisk' = atrisk \ out
             /\ log' = IF out = {} THEN log
                       ELSE Append(log, [t |-> now + 1, risk |-> atrisk,
                                         ev |-> {i \in out : event[i] = 1}])
        /\ UNCHANGED <<time, event, calls>>

Query == /\ now = T
         /\ Len(calls) < MaxCalls
         /\ \E o \in Ops, c \in Coefs : calls' = Append(calls, <<o, c>>)
         /\ UNCHANGED <<time, event, now, atrisk, log>>

Finished == now = T /\ Len(calls) = MaxCalls

Emit == /\ Finished
        /\ PrintT("@@" \o ToJson([time |-> time, event |-> event, log |-> log, calls |-> calls]))
        /\ now' = T + 1
        /\ UNCHANGED <<time, event, atrisk, log, calls>>

Next == Pass \/ Query \/ Emit

Spec == Init /\ [][Next]_vars

(* --------------------------------------------------------------- properties *)
RECURSIVE SumEv(_)
SumEv(k) == IF k = 0 THEN 0 ELSE Cardinality(log[k].ev) + SumEv(k - 1)

\* the risk set at a recorded time is everybody who leaves then or later
RiskSets == \A k \in 1 .. Len(log) : log[k].risk = {i \in Subjects : time[i] >= log[k].t}
\* risk sets only shrink, and strictly
Shrinking == \A k \in 1 .. Len(log) - 1 :
                /\ log[k + 1].risk \subseteq log[k].risk
                /\ log[k + 1].risk # log[k].risk
                /\ log[k].t < log[k + 1].t
\* every event is counted, once, while its subject is at risk
EventsOnce == /\ \A k \in 1 .. Len(log) : log[k].ev \subseteq log[k].risk
              /\ \A j, k \in 1 .. Len(log) : j # k => log[j].ev \cap log[k].ev = {}
              /\ now >= T => SumEv(Len(log)) = Cardinality({i \in Subjects : event[i] = 1})
\* the last risk set holds exactly those who leave last
Everybody == now >= T => atrisk = {}
\* queries change nothing about the cohort
Inert == [][calls' # calls => UNCHANGED <<time, event, log>>]_vars
=============================================================================

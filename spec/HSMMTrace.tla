------------------------------ MODULE HSMMTrace ------------------------------
(***************************************************************************)
(* Trace validation: each recorded decoded/sampled state sequence, with    *)
(* the duration the last state still has left, must be a complete          *)
(* admissible behaviour of HSMM.  The specification's own actions take the *)
(* steps; the trace fixes the hidden state after every step, TLC infers    *)
(* the drawn durations.                                                    *)
(***************************************************************************)
EXTENDS HSMM

CONSTANT Traces      \* set of [id, c, states, ed]
VARIABLE tr

TraceInit == /\ tr \in Traces
             /\ cfg = tr.c
             /\ t = -1 /\ st = -1 /\ rem = 0 /\ segs = <<>> /\ fac = <<>>

\* Length of the run of equal recorded states starting at sample n (0 based)
RECURSIVE Run(_, _)
Run(s, n) == IF n + 2 > Len(s) \/ s[n + 2] # s[n + 1] THEN 1 ELSE 1 + Run(s, n + 1)

\* The drawn duration is what the trace implies: the run, plus what is left
\* over if the run reaches the end of the series
Implied(n) == LET r == Run(tr.states, n)
              IN r + (IF n + r = Len(tr.states) THEN tr.ed ELSE 0)


TraceNext ==
    /\ t + 1 < Len(tr.states)
    /\ tr' = tr
    /\ LET s == tr.states[t + 2] IN
         \/ Start(s, Implied(t + 1))
         \/ Switch(s, Implied(t + 1))
         \/ Continue /\ st' = s

TraceInv == TypeOK /\ DurationsHonoured /\ NoSelfSwitch /\ BumpWidth

Accepted == Admissible /\ rem = tr.ed
Collect == Accepted => PrintT("@@" \o ToJson([ok |-> tr.id]))
=============================================================================

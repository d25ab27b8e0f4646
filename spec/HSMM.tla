-------------------------------- MODULE HSMM --------------------------------
(***************************************************************************)
(* Explicit-duration hidden semi-Markov chain as implemented by            *)
(* mssm.src.python.hsmm.HSMMFamily and src/cpp/hsmm/*.cpp.                 *)
(*                                                                         *)
(* A behaviour of this specification is one admissible hidden history of a *)
(* single series: the chain starts in a state with a drawn duration, stays *)
(* there until the duration is used up, then switches to a *different*     *)
(* state with a fresh duration, until all samples are emitted.  Every step *)
(* appends the probability factors it contributes.  The likelihood of the  *)
(* series is the sum over complete behaviours of the product of their      *)
(* factors; the Viterbi path is a complete behaviour of maximal weight;    *)
(* the posterior is the normalised weight; the score is the posterior      *)
(* expectation of the derivative of the log weight.                        *)
(*                                                                         *)
(* Factor alphabet (k, t, i, j zero based exactly as in the code):         *)
(*   [k |-> "pi", j]            initial state probability                  *)
(*   [k |-> "T", i, j, t]       transition i -> j left at sample t         *)
(*   [k |-> "d", j, d, t]       duration d drawn at sample t from duration *)
(*                              distribution j (j >= ns: the "after the    *)
(*                              first state" set, only if ~swf)            *)
(*   [k |-> "b", t, p, j]       emission of sample t in state j, p = the   *)
(*                              position information an HMP emission needs *)
(*                              (bump: samples already spent in the bump;  *)
(*                              flat: 1 iff first sample after a switch)   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS Configs    \* set of [ns, nt, D, swf, ewl, eil, hmp, w]

VARIABLES cfg,       \* the configuration of this history (never changes)
          t,         \* last emitted sample, -1 before the first
          st,        \* current hidden state
          rem,       \* samples the current state still has to last
          segs,      \* history variable: <<[j, d, t0], ...>>
          fac        \* factors contributed so far

vars == <<cfg, t, st, rem, segs, fac>>

Odd(n) == n % 2 = 1

\* Durations a state may draw: 1..D-1; an HMP bump always lasts w samples
Durs(c, j) == IF c.hmp /\ Odd(j) THEN {c.w} \cap (1..(c.D - 1)) ELSE 1..(c.D - 1)

\* Position information of the emission of state j, n samples after entry,
\* fresh = entered by a switch (not the first state of the series)
Pos(c, j, n, fresh) ==
    IF ~c.hmp THEN 0
    ELSE IF Odd(j) THEN n
    ELSE IF fresh /\ n = 0 THEN 1 ELSE 0

Em(c, tt, j, n, fresh) == [k |-> "b", t |-> tt, p |-> Pos(c, j, n, fresh), j |-> j]

Init == /\ cfg \in Configs
        /\ t = -1 /\ st = -1 /\ rem = 0
        /\ segs = <<>> /\ fac = <<>>

Start(j, d) ==
    /\ t = -1
    /\ d \in Durs(cfg, j)
    /\ t' = 0 /\ st' = j /\ rem' = d - 1
    /\ segs' = <<[j |-> j, d |-> d, t0 |-> 0]>>
    /\ fac' = <<[k |-> "pi", j |-> j],
                [k |-> "d", j |-> j, d |-> d, t |-> 0],
                Em(cfg, 0, j, 0, FALSE)>>
    /\ UNCHANGED cfg

Continue ==
    /\ t >= 0 /\ t < cfg.nt - 1 /\ rem > 0
    /\ t' = t + 1 /\ rem' = rem - 1
    /\ fac' = Append(fac, Em(cfg, t + 1, st, (t + 1) - segs[Len(segs)].t0, Len(segs) > 1))
    /\ UNCHANGED <<cfg, st, segs>>

Switch(j, d) ==
    /\ t >= 0 /\ t < cfg.nt - 1 /\ rem = 0
    /\ j # st
    /\ d \in Durs(cfg, j)
    /\ t' = t + 1 /\ st' = j /\ rem' = d - 1
    /\ segs' = Append(segs, [j |-> j, d |-> d, t0 |-> t + 1])
    /\ fac' = fac \o <<[k |-> "T", i |-> st, j |-> j, t |-> t],
                       [k |-> "d", j |-> IF cfg.swf THEN j ELSE j + cfg.ns,
                        d |-> d, t |-> t + 1],
                       Em(cfg, t + 1, j, 0, TRUE)>>
    /\ UNCHANGED cfg

Next == \/ \E j \in 0..(cfg.ns - 1), d \in 1..(cfg.D - 1) : Start(j, d) \/ Switch(j, d)
        \/ Continue

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* A complete history is admissible iff it satisfies the end conditions
Complete   == t = cfg.nt - 1
Admissible == /\ Complete
              /\ cfg.ewl => rem = 0
              /\ cfg.eil => st = cfg.ns - 1

NFac(kk) == Cardinality({i \in 1..Len(fac) : fac[i].k = kk})
SegEnd(i) == IF i < Len(segs) THEN segs[i+1].t0 - 1 ELSE t

----------------------------------------------------------------------------
\* Design invariants
TypeOK == /\ t \in -1..(cfg.nt - 1)
          /\ rem \in 0..(cfg.D - 2)
          /\ st \in -1..(cfg.ns - 1)

\* One emission per sample, one initial factor, one transition factor per
\* switch and one duration factor per segment
FactorCounts ==
    /\ NFac("b") = t + 1
    /\ NFac("d") = Len(segs)
    /\ t >= 0 => NFac("pi") = 1 /\ NFac("T") = Len(segs) - 1

\* Every finished segment lasts exactly its drawn duration; only the last one
\* may be cut off by the end of the series, and exactly by `rem' samples
DurationsHonoured ==
    \A i \in 1..Len(segs) :
        LET len == SegEnd(i) - segs[i].t0 + 1 IN
        IF i < Len(segs) THEN len = segs[i].d ELSE len + rem = segs[i].d

NoSelfSwitch == \A i \in 2..Len(segs) : segs[i].j # segs[i-1].j

\* HMP bumps never exceed the event width
BumpWidth == cfg.hmp => \A i \in 1..Len(segs) : Odd(segs[i].j) => segs[i].d = cfg.w

----------------------------------------------------------------------------
\* The implementation does not enumerate histories but runs a forward
\* recursion over (state, remaining samples).  With small integer weights the
\* recursion and the sum over histories must agree; checked by TLC for every
\* configuration in the state in which exploration starts.
W(f) == CASE f.k = "pi" -> 1 + f.j
          [] f.k = "T"  -> 1 + ((f.i + 2 * f.j + f.t) % 3)
          [] f.k = "d"  -> 1 + ((f.j + f.d + f.t) % 2)
          [] f.k = "b"  -> 1 + ((f.t + f.j + f.p) % 2)

SumOver(S, F(_)) == MapThenSumSet(F, S)

DW(c, j, d, tt, first) ==
    IF d \in Durs(c, j)
    THEN W([k |-> "d", j |-> IF first \/ c.swf THEN j ELSE j + c.ns, d |-> d, t |-> tt])
    ELSE 0

\* lam[tt][j][r]: summed weight of all prefixes that are in state j at sample
\* tt with r samples remaining.  The duration in progress is not part of the
\* recursion state: a bump's position is w - 1 - r and a flat's is 0 unless fresh.
Lam(c) ==
  LET f[tt \in 0..(c.nt - 1)] ==
    [j \in 0..(c.ns - 1) |-> [r \in 0..(c.D - 2) |->
      IF tt = 0
      THEN W([k |-> "pi", j |-> j]) * DW(c, j, r + 1, 0, TRUE) * W(Em(c, 0, j, 0, FALSE))
      ELSE (IF r + 1 <= c.D - 2
            THEN f[tt-1][j][r+1] * W(Em(c, tt, j, IF c.hmp /\ Odd(j) THEN c.w - 1 - r ELSE 1, FALSE))
            ELSE 0)
         + LET G(i) == IF i = j THEN 0
                       ELSE f[tt-1][i][0] * W([k |-> "T", i |-> i, j |-> j, t |-> tt - 1])
           IN SumOver(0..(c.ns - 1), G) * DW(c, j, r + 1, tt, FALSE) * W(Em(c, tt, j, 0, TRUE))]]
  IN f

EndOK(c, j, r) == (c.ewl => r = 0) /\ (c.eil => j = c.ns - 1)

ForwardTotal(c) ==
  LET f == Lam(c)
      G(x) == IF EndOK(c, x[1], x[2]) THEN f[c.nt - 1][x[1]][x[2]] ELSE 0
  IN SumOver((0..(c.ns - 1)) \X (0..(c.D - 2)), G)

\* Sum over histories, accumulated during exploration in TLC registers
RECURSIVE Prod(_, _)
Prod(s, i) == IF i > Len(s) THEN 1 ELSE W(s[i]) * Prod(s, i + 1)

\* register: cfg -> <<number of admissible histories, summed weight>>
Reg == TLCGet(7)
Accumulate ==
    Admissible =>
      LET p == IF cfg \in DOMAIN Reg THEN Reg[cfg] ELSE <<0, 0>>
      IN TLCSet(7, (cfg :> <<p[1] + 1, p[2] + Prod(fac, 1)>>) @@ Reg)

RegInit == TLCSet(7, <<>>)

\* Evaluated once exploration is finished (POSTCONDITION, -workers 1)
ForwardEqualsPathSum ==
    \A c \in Configs :
        ForwardTotal(c) = (IF c \in DOMAIN Reg THEN Reg[c][2] ELSE 0)

\* Emission of the complete histories for the conformance harness
Emit == Admissible => PrintT("@@" \o ToJson([cfg |-> cfg, rem |-> rem, segs |-> segs, fac |-> fac]))
=============================================================================

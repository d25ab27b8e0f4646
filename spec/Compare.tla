------------------------------ MODULE Compare ------------------------------
(* Comparing two fitted models, and what the correction for estimated smoothing parameters is made of.

   Part one: a comparison. A model is known by how many of its coefficients are free, half free and
   suppressed (so that its effective degrees of freedom are exact), by its log-likelihood, and by whether
   its shape parameters were estimated. The comparison fills in defaults, rejects what is not comparable,
   counts degrees of freedom, tests, and reports. All numbers are integers: degrees of freedom in quarters.

   Part two: the correction. A behaviour chooses options one after the other and assembles the parts of
   which the corrected covariance consists; how many workers take part is no part of it. *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Mods,   \* sequence of records free, half, none, llk, est
          Kinds,  \* subset of {"one", "two", "ext", "par"}: what the family looks like
          Rows,   \* observations
          Shapes  \* number of shape parameters of an extended family

VARIABLES kind, m1, m2, opt, stage, dof, aicd, stat, test, fix

vars == <<kind, m1, m2, opt, stage, dof, aicd, stat, test, fix>>

None == "none"

Coefs(m) == m.free + m.half + m.none
\* quarters
Edf(m) == 4 * m.free + 2 * m.half
Trace2(m) == 4 * m.free + m.half
Biased(m) == 2 * Edf(m) - Trace2(m)

\* parameters besides the coefficients that were estimated, in quarters
Extra(k, m) == (IF k = "two" THEN 4 ELSE 0) + (IF k = "ext" /\ m.est THEN 4 * Shapes ELSE 0)

Glrt == opt.glrt
T1 == IF opt.t1 = None THEN opt.glrt ELSE opt.t1 = "yes"

Start ==
  /\ kind \in Kinds
  /\ m1 \in 1 .. Len(Mods) /\ m2 \in 1 .. Len(Mods)
  /\ opt \in [glrt : BOOLEAN, t1 : {None, "yes", "no"}, same : BOOLEAN]
  /\ stage = "asked"
  /\ dof = <<0, 0>> /\ aicd = <<0, 0>> /\ stat = 0
  /\ test = [p |-> FALSE, stat |-> 0, df |-> 0, rest |-> 0]
  /\ fix = None

Reject ==
  /\ stage = "asked"
  /\ ~opt.same \/ (Glrt /\ Coefs(Mods[m1]) < Coefs(Mods[m2]))
  /\ stage' = "rejected"
  /\ UNCHANGED <<kind, m1, m2, opt, dof, aicd, stat, test, fix>>

Count ==
  /\ stage = "asked"
  /\ opt.same /\ ~(Glrt /\ Coefs(Mods[m1]) < Coefs(Mods[m2]))
  /\ aicd' = <<Edf(Mods[m1]) + Extra(kind, Mods[m1]), Edf(Mods[m2]) + Extra(kind, Mods[m2])>>
  /\ dof' = IF T1 THEN <<Biased(Mods[m1]) + Extra(kind, Mods[m1]), Biased(Mods[m2]) + Extra(kind, Mods[m2])>>
            ELSE aicd'
  /\ stat' = 2 * (Mods[m1].llk - Mods[m2].llk)
  /\ stage' = "counted"
  /\ UNCHANGED <<kind, m1, m2, opt, test, fix>>

Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y

Test ==
  /\ stage = "counted"
  /\ LET flip == stat < 0 /\ dof[1] < dof[2]
         s == IF flip THEN -stat ELSE stat
     IN test' = [p |-> Glrt /\ s >= 0 /\ dof[1] /= dof[2], stat |-> s, df |-> Abs(dof[1] - dof[2]),
                 rest |-> IF kind = "two" THEN 4 * Rows - Max(dof[1], dof[2]) ELSE 0]
  /\ stage' = "tested"
  /\ UNCHANGED <<kind, m1, m2, opt, dof, aicd, stat, fix>>

\* twice the criterion, in halves: -2 llk + 2 dof
Aic(i) == (-8) * (IF i = 1 THEN Mods[m1].llk ELSE Mods[m2].llk) + 2 * aicd[i]

Report ==
  /\ stage \in {"tested", "rejected"}
  /\ PrintT("@@" \o ToJson([what |-> "compare", kind |-> kind, m1 |-> m1, m2 |-> m2, opt |-> opt,
         verdict |-> stage, dof |-> dof, aicd |-> aicd, t1 |-> T1, stat |-> stat, test |-> test,
         aic |-> IF stage = "tested" THEN <<Aic(1), Aic(2)>> ELSE <<0, 0>>]))
  /\ stage' = "done"
  /\ UNCHANGED <<kind, m1, m2, opt, dof, aicd, stat, test, fix>>

Spec == Start /\ [][Reject \/ Count \/ Test \/ Report]_vars

Settled == stage = "tested"

\* what the exchanged comparison would report
Turned ==
  /\ (Settled /\ ~Glrt) =>
       /\ 2 * (Mods[m2].llk - Mods[m1].llk) = -stat
       /\ LET a1 == (-8) * Mods[m1].llk + 2 * aicd[1]
              a2 == (-8) * Mods[m2].llk + 2 * aicd[2]
          IN a1 - a2 = Aic(1) - Aic(2)
\* a model compared to itself differs in nothing
Reflexive == (Settled /\ m1 = m2) => stat = 0 /\ aicd[1] = aicd[2] /\ dof[1] = dof[2] /\ ~test.p
\* no test says that more parameters with a worse fit are better
NoNonsense == (Settled /\ test.p) =>
  ~(Mods[m1].llk < Mods[m2].llk /\ dof[1] > dof[2])
\* degrees of freedom lie between those used up and those available
Between == Settled => \A i \in {1, 2} :
  LET m == IF i = 1 THEN Mods[m1] ELSE Mods[m2]
  IN /\ aicd[i] <= dof[i]
     /\ dof[i] <= 4 * Coefs(m) + Extra(kind, m)
     /\ aicd[i] >= Extra(kind, m)
\* the criterion does not depend on the test
AicOwn == Settled => \A i \in {1, 2} :
  LET m == IF i = 1 THEN Mods[m1] ELSE Mods[m2]
  IN aicd[i] = Edf(m) + Extra(kind, m)

----------------------------------------------------------------------------
(* Part two: options of the correction and what it is made of *)
Grids == {"JJJ1", "JJJ2", "JJJ3"}

Parts(o) ==
  [\* covariance of log smoothing parameters: local curvature of the expanded criterion, of the criterion, or draws
   cov |-> IF o.vp = "exact" /\ ~o.second THEN "local" ELSE o.vp,
   cond |-> IF o.grid = "JJJ1" THEN "fit" ELSE "mean",        \* conditional covariance: at the estimate / averaged
   spread |-> IF o.grid = "JJJ3" THEN "sampled" ELSE "linear", \* change of coefficients
   root |-> o.grid = "JJJ1" /\ o.second,                       \* change of the root of the covariance
   floor |-> IF o.grid = "JJJ2" THEN "cond" ELSE IF o.grid = "JJJ3" THEN "JJJ1" ELSE None,
   weights |-> IF o.grid = "JJJ1" /\ o.vp /= "drawn" THEN None ELSE IF o.weigh THEN (IF o.prior THEN "posterior" ELSE "reml") ELSE "equal",
   curvature |-> IF o.again /\ o.grid /= "JJJ1" /\ ~o.only THEN "mean" ELSE "fit",
   report |-> IF o.only /\ o.grid /= "JJJ1" THEN "edf" ELSE "all"]

CStart ==
  /\ fix \in [grid : Grids, cores : {1, 2}, weigh : BOOLEAN, prior : BOOLEAN, again : BOOLEAN,
              only : BOOLEAN, second : BOOLEAN, t1 : BOOLEAN, vp : {"local", "exact", "drawn"}]
  /\ (fix.vp /= "local") => ~fix.only
  /\ ~(fix.prior /\ ~fix.weigh)
  /\ (fix.grid = "JJJ1" /\ fix.vp /= "drawn") => ~fix.prior /\ fix.weigh
  /\ (fix.grid = "JJJ1") => ~fix.again /\ ~fix.only
  /\ kind = None /\ m1 = 0 /\ m2 = 0 /\ opt = None /\ stage = "chosen"
  /\ dof = <<0, 0>> /\ aicd = <<0, 0>> /\ stat = 0 /\ test = None

CNext ==
  /\ stage = "chosen"
  /\ PrintT("@@" \o ToJson([what |-> "correct", o |-> fix, parts |-> Parts(fix)]))
  /\ stage' = "done"
  /\ UNCHANGED <<kind, m1, m2, opt, dof, aicd, stat, test, fix>>

CSpec == CStart /\ [][CNext]_vars

\* workers take no part, and asking for degrees of freedom only changes what is reported
Workers == stage = "chosen" => Parts(fix) = Parts([fix EXCEPT !.cores = 3 - @])
Only == stage = "chosen" =>
  LET p == Parts(fix) q == Parts([fix EXCEPT !.only = ~@])
  IN p.cond = q.cond /\ p.spread = q.spread /\ p.weights = q.weights
=============================================================================

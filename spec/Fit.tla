-------------------------------- MODULE Fit --------------------------------
(* Estimation of a model.

   Smoothing parameters and coefficients are known by version numbers: every change makes a new version.
   A coefficient version is remembered together with the smoothing parameters it was solved for. All
   other parts of the result (predictor, factor of the penalised curvature, degrees of freedom, scale,
   ...) are remembered together with the versions they were computed from.

   The solver proposes smoothing parameters, may reject a proposal (and try a smaller one), may extend
   an accepted proposal and take the extension back, may work in other coordinates, and may find
   coefficients that cannot be identified, which are then left out. It stops when nothing changes any
   more, or when it runs out of iterations. What it reports must in every case be one consistent set. *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS Kind,      \* "gamm", "lss" or "gsmm"
          Penalised, \* there are smoothing parameters
          Dispersed, \* the scale is estimated
          Shifted,   \* offsets are supported
          Deficient, \* some coefficients cannot be identified
          Methods,   \* methods offered for the model, the first one being the usual one
          Iters,     \* bound on iterations
          Tries,     \* bound on rejections in one iteration
          Far        \* how many options may differ from the usual ones

VARIABLES cfg, phase, lam, best, coef, part, space, dropped, iter, tries, ver

vars == <<cfg, phase, lam, best, coef, part, space, dropped, iter, tries, ver>>

Parts == {"eta", "factor", "edf", "curvature", "penalty"} \cup (IF Dispersed THEN {"scale"} ELSE {})

----------------------------------------------------------------------------
\* options

Usual == [method |-> Methods[1], control |-> IF Methods[1] = "qEFS" THEN 1 ELSE 2, extend |-> FALSE, repara |-> TRUE, start |-> "usual",
          cores |-> 1, inner |-> "many", offset |-> "none", restart |-> FALSE, exclude |-> FALSE,
          outer |-> "many"]

Options == [method : {Methods[k] : k \in 1 .. Len(Methods)}, control : {0, 1, 2}, extend : BOOLEAN,
            repara : BOOLEAN, start : {"usual", "small", "large", "seed"}, cores : {1, 2},
            inner : {"many", "one"}, offset : {"none", "number", "rows"}, restart : BOOLEAN,
            exclude : BOOLEAN, outer : {"many", "few"}]

Differ(o) == Cardinality({k \in DOMAIN Usual : o[k] # Usual[k]})

Offered(o) ==
  /\ Differ(o) <= Far
  /\ Kind # "gamm" => o.offset = "none" /\ ~o.exclude
  /\ ~Shifted => o.offset = "none"
  /\ Kind = "gamm" => o.repara /\ o.start = "usual"
  /\ Kind # "gamm" => o.inner = "many"
  /\ ~Penalised => /\ ~o.extend /\ ~o.exclude /\ o.outer = "many" /\ o.control = Usual.control /\ o.repara /\ o.inner = "many"
                   /\ o.start \in {"usual", "seed"}
  \* quasi-Newton approximation of the curvature has its own ways
  /\ o.method = "qEFS" => ~o.extend /\ o.control # 2
  \* plain Cholesky factors need identifiable coefficients
  /\ Deficient => o.method \notin {"Chol"}

----------------------------------------------------------------------------
Made(l, c) == [lam |-> l, coef |-> c]

Init == /\ cfg \in {o \in Options : Offered(o)}
        /\ phase = "start" /\ lam = 1 /\ best = 1
        /\ coef = [lam |-> 0, id |-> 0]
        /\ part = [p \in Parts |-> Made(0, 0)]
        /\ space = "own" /\ dropped = FALSE /\ iter = 0 /\ tries = 0
        /\ ver = [lam |-> 1, coef |-> 0]

Solve(l) == /\ coef' = [lam |-> l, id |-> ver.coef + 1]
            /\ part' = [p \in Parts |-> Made(l, ver.coef + 1)]
            /\ ver' = [ver EXCEPT !.coef = @ + 1]
            /\ dropped' = Deficient
            /\ space' = IF Kind # "gamm" /\ Penalised /\ cfg.repara THEN "other" ELSE "own"

Start == /\ phase = "start" /\ phase' = "ready"
         /\ Solve(lam)
         /\ UNCHANGED <<cfg, lam, best, iter, tries>>

\* new smoothing parameters, on trial
Propose == /\ phase = "ready" /\ iter < Iters /\ Penalised
           /\ phase' = "trial" /\ tries' = 0 /\ best' = lam
           /\ lam' = ver.lam + 1
           /\ coef' = [lam |-> ver.lam + 1, id |-> ver.coef + 1]
           /\ part' = [p \in Parts |-> Made(ver.lam + 1, ver.coef + 1)]
           /\ ver' = [lam |-> ver.lam + 1, coef |-> ver.coef + 1]
           /\ UNCHANGED <<cfg, space, dropped, iter>>

\* the proposal goes too far: a smaller one, or back to where it started, solved again
Reject == /\ phase = "trial" /\ cfg.control > 0 /\ tries < Tries
          /\ \E l \in {ver.lam + 1, best} :
               /\ lam' = l
               /\ coef' = [lam |-> l, id |-> ver.coef + 1]
               /\ part' = [p \in Parts |-> Made(l, ver.coef + 1)]
               /\ ver' = [lam |-> ver.lam + 1, coef |-> ver.coef + 1]
          /\ tries' = tries + 1
          /\ UNCHANGED <<cfg, phase, best, space, dropped, iter>>

Accept == /\ phase = "trial" /\ phase' = "taken"
          /\ UNCHANGED <<cfg, lam, best, coef, part, space, dropped, iter, tries, ver>>

\* an accepted proposal is made larger; if that was too much it is taken back
Extend == /\ phase = "taken" /\ cfg.extend /\ tries < Tries
          /\ \E keep \in BOOLEAN :
               LET l == IF keep THEN ver.lam + 1 ELSE lam IN
               /\ lam' = l
               /\ coef' = [lam |-> l, id |-> ver.coef + 1]
               /\ part' = [p \in Parts |-> Made(l, ver.coef + 1)]
               /\ ver' = [lam |-> ver.lam + 1, coef |-> ver.coef + 1]
          /\ tries' = tries + 1
          /\ UNCHANGED <<cfg, phase, best, space, dropped, iter>>

Iterate == /\ phase = "taken" /\ phase' = "ready" /\ iter' = iter + 1
           /\ UNCHANGED <<cfg, lam, best, coef, part, space, dropped, tries, ver>>

\* nothing changes any more, or time is up: back to the coordinates of the user
Stop == /\ phase = "ready" /\ (iter > 0 \/ ~Penalised)
        /\ \E s \in {"converged"} \cup (IF iter = Iters \/ cfg.outer = "few" THEN {"exhausted"} ELSE {}) : phase' = s
        /\ space' = "own"
        /\ UNCHANGED <<cfg, lam, best, coef, part, dropped, iter, tries, ver>>

\* the smoothing parameters may be the starting point of another fit of the same model
Again == /\ phase = "converged" /\ cfg.restart /\ ver.coef < 100 /\ iter < 10
         /\ phase' = "start" /\ iter' = 10 /\ tries' = 0
         /\ UNCHANGED <<cfg, lam, best, coef, part, space, dropped, ver>>
Finish == /\ phase = "start" /\ iter = 10 /\ phase' = "converged"
          /\ coef' = [lam |-> lam, id |-> ver.coef + 1]
          /\ part' = [p \in Parts |-> Made(lam, ver.coef + 1)]
          /\ ver' = [ver EXCEPT !.coef = @ + 1]
          /\ UNCHANGED <<cfg, lam, best, space, dropped, iter, tries>>

Over == phase \in {"converged", "exhausted"} /\ (cfg.restart => iter = 10 \/ phase = "exhausted")
Report == /\ Over
          /\ PrintT("@@" \o ToJson([cfg |-> cfg, parts |-> Parts, dropped |-> dropped, how |-> phase]))
          /\ phase' = "reported"
          /\ UNCHANGED <<cfg, lam, best, coef, part, space, dropped, iter, tries, ver>>

Next == (phase = "start" /\ iter < 10 /\ Start) \/ Propose \/ Reject \/ Accept \/ Extend \/ Iterate
        \/ Stop \/ Again \/ Finish \/ Report
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Ended == phase \in {"converged", "exhausted", "reported"}
\* coefficients solve the system of the reported smoothing parameters
Solved == Ended => coef.lam = lam
\* every part was computed from the reported coefficients and smoothing parameters
Consistent == Ended => \A p \in Parts : part[p] = Made(lam, coef.id)
\* coefficients are those of the model matrix of the user
Own == Ended => space = "own"
\* coefficients that are not identified are left out
Omitted == Ended => dropped = Deficient
\* only offered options
Known == Offered(cfg)
=============================================================================

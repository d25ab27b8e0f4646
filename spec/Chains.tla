------------------------------- MODULE Chains -------------------------------
(***************************************************************************)
(* The run of the posterior sampler around its transitions: chains are     *)
(* advanced in blocks, first to tune the sampler and then to collect       *)
(* samples; after a block the run may be found to have converged.          *)
(*                                                                         *)
(* A state of a chain is named by the number of transitions made so far.   *)
(* Two further parts are the search for the first step length and the      *)
(* priors on log smoothing parameters.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Iters, Blocks, Tunes, ChainSets, Calms, Mins

VARIABLES cfg, iter, plan, kept, heard, asked, shrunk, phase, pos, way
vars == <<cfg, iter, plan, kept, heard, asked, shrunk, phase, pos, way>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a

\* calm: from which block of samples on the statistics of convergence are good (0: never)
Init ==
  /\ cfg \in [iters : Iters, block : Blocks, tune : Tunes, chains : ChainSets, calm : Calms, auto : BOOLEAN, min : Mins]
  /\ (cfg.auto = FALSE => cfg.min = CHOOSE m \in Mins : \A l \in Mins : m <= l)
  /\ iter = 0 /\ plan = << >> /\ kept = << >> /\ heard = << >> /\ asked = << >> /\ shrunk = FALSE
  /\ phase = "run" /\ pos = 0 /\ way = 0

\* a block never mixes tuning and sampling
Steps == IF iter < cfg.tune THEN Min(Max(cfg.block, 2), cfg.tune - iter)
         ELSE Min(Max(cfg.block, 2), cfg.iters + cfg.tune - iter)

Range(a, b) == [i \in 1..(b - a) |-> a + i]

Advance ==
  /\ phase = "run" /\ iter < cfg.iters + cfg.tune
  /\ plan' = Append(plan, [from |-> iter, steps |-> Steps, tuning |-> iter < cfg.tune])
  /\ kept' = IF iter < cfg.tune THEN kept ELSE kept \o Range(iter, iter + Steps)
  /\ iter' = iter + Steps
  /\ phase' = IF iter' > cfg.tune THEN "judge" ELSE "run"
  /\ UNCHANGED <<cfg, heard, asked, shrunk, pos, way>>

Got == iter - cfg.tune
\* statistics are only computed for runs that are long enough
Judged == (Got \div 4) > 2 * cfg.chains
Window == IF cfg.auto THEN Got \div 2 ELSE 0
Calm == cfg.calm > 0 /\ Len(asked) + 1 >= cfg.calm
Stop == Judged /\ cfg.auto /\ Got >= 2 * cfg.min /\ Calm

Judge ==
  /\ phase = "judge"
  /\ asked' = IF Judged THEN Append(asked, << cfg.tune + Window, iter >>) ELSE asked
  /\ IF Stop
     THEN /\ kept' = SubSeq(kept, 1 + (Got \div 2), Got)
          /\ shrunk' = TRUE /\ phase' = "end" /\ heard' = heard
     ELSE /\ heard' = Append(heard, Got)
          /\ phase' = "run" /\ UNCHANGED <<kept, shrunk>>
  /\ UNCHANGED <<cfg, iter, plan, pos, way>>

Done ==
  /\ phase = "run" /\ iter = cfg.iters + cfg.tune
  /\ phase' = "end"
  /\ UNCHANGED <<cfg, iter, plan, kept, heard, asked, shrunk, pos, way>>

Report ==
  /\ phase = "end"
  /\ phase' = "over"
  /\ PrintT("@@" \o ToJson([cfg |-> cfg, plan |-> plan, kept |-> kept, heard |-> heard, asked |-> asked]))
  /\ UNCHANGED <<cfg, iter, plan, kept, heard, asked, shrunk, pos, way>>

Next == Advance \/ Judge \/ Done \/ Report
Spec == Init /\ [][Next]_vars

\* blocks follow on one another without a gap
Seamless == \A i \in 1..Len(plan) : plan[i].steps > 0 /\ plan[i].from = (IF i = 1 THEN 0 ELSE plan[i - 1].from + plan[i - 1].steps)
\* nothing from before the end of tuning is returned, and what is returned is one uninterrupted piece up to the end
Clean == \A i \in 1..Len(kept) : kept[i] > cfg.tune /\ kept[i] = kept[1] + i - 1
Complete == phase \in {"end", "over"} => kept # << >> /\ kept[Len(kept)] = iter
Whole == phase \in {"end", "over"} /\ ~shrunk => Len(kept) = cfg.iters
Enough == shrunk => Len(kept) >= cfg.min /\ 2 * Len(kept) >= iter - cfg.tune

(********************* search for a first step length ********************)
\* good: whether a step of 0.1 * 2^i is accepted with probability above one half
Widest == 3
SInit ==
  /\ cfg \in {[good |-> g] : g \in {f \in [1..(2 * Widest + 1) -> BOOLEAN] : f[1] /\ ~f[2 * Widest + 1]}}
  /\ pos = 0 /\ way = 0 /\ phase = "begin"
  /\ iter = 0 /\ plan = << >> /\ kept = << >> /\ heard = << >> /\ asked = << >> /\ shrunk = FALSE
Good(i) == cfg.good[i + Widest + 1]
rest == <<cfg, iter, plan, heard, asked, shrunk>>
Begin == phase = "begin" /\ way' = (IF Good(0) THEN 1 ELSE -1) /\ phase' = "search" /\ kept' = << 0 >> /\ pos' = 0 /\ UNCHANGED rest
Step == phase = "search" /\ Good(pos) = (way = 1) /\ pos' = pos + way /\ kept' = Append(kept, pos') /\ UNCHANGED <<way, phase>> /\ UNCHANGED rest
Found == /\ phase = "search" /\ Good(pos) # (way = 1) /\ phase' = "over"
         /\ PrintT("@@" \o ToJson([good |-> cfg.good, pos |-> pos, tried |-> kept]))
         /\ UNCHANGED <<way, pos, kept>> /\ UNCHANGED rest
SSpec == SInit /\ [][Begin \/ Step \/ Found]_vars
\* the search ends at the first change of verdict, one step away from the opposite verdict
Crossed == phase = "over" => Good(pos) # Good(pos - way) /\ \A i \in 1..(Len(kept) - 1) : Good(kept[i]) = Good(0)

(************************ priors on smoothing ****************************)
\* limits of a prior for two log smoothing parameters, and a proposal; what lies outside is moved inside
Ends == {<<-4, -2>>, <<-3, 3>>, <<0, 2>>, <<2, 4>>, <<-1, 4>>}
Spots == {-5, -3, -2, 0, 1, 3, 5}
Shared == {TRUE, FALSE}
In(i, v) == cfg.ends[i][1] <= v /\ v <= cfg.ends[i][2]
PInit ==
  /\ cfg \in [ends : Ends \X Ends, at : Spots \X Spots, shared : Shared]
  /\ (cfg.shared => cfg.ends[1] = cfg.ends[2])
  /\ phase = "run" /\ kept = << >> /\ pos = 0 /\ way = 0
  /\ iter = 0 /\ plan = << >> /\ heard = << >> /\ asked = << >> /\ shrunk = FALSE
Repair == /\ phase = "run" /\ phase' = "over"
          /\ kept' = [i \in 1..2 |-> In(i, cfg.at[i])]   \* which ones stay as they are
          /\ PrintT("@@" \o ToJson([ends |-> cfg.ends, at |-> cfg.at, shared |-> cfg.shared, stay |-> kept',
                possible |-> kept'[1] /\ kept'[2],
                widths |-> [i \in 1..2 |-> cfg.ends[i][2] - cfg.ends[i][1]]]))
          /\ UNCHANGED <<cfg, iter, plan, heard, asked, shrunk, pos, way>>
PSpec == PInit /\ [][Repair]_vars
Untouched == phase = "over" => \A i \in 1..2 : kept[i] <=> In(i, cfg.at[i])
=============================================================================

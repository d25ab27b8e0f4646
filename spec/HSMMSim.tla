------------------------------ MODULE HSMMSim ------------------------------
(***************************************************************************)
(* Forward simulation of a hidden semi-Markov chain (HSMMFamily.predict):  *)
(* the same chain as HSMM.tla, without end conditions and without          *)
(* emissions.  A behaviour is one simulated state sequence together with   *)
(* the factors whose product is its probability.                           *)
(*   absorb : an HMP-like chain never leaves its last state                *)
(*   ext    : samples a state is kept beyond its drawn duration (0 in a    *)
(*            faithful simulation; 1 reproduces a recorded finding)        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SimConfigs      \* set of [id, ns, nt, D, swf, hmp, w, ext]

VARIABLES c, tt, cur, left, seq, pos, prob

vars == <<c, tt, cur, left, seq, pos, prob>>

Odd(n) == n % 2 = 1
Durs(j) == IF c.hmp /\ Odd(j) THEN {c.w} \cap (1..(c.D - 1)) ELSE 1..(c.D - 1)
Absorbing(j) == c.hmp /\ j = c.ns - 1

Init == /\ c \in SimConfigs
        /\ tt = -1 /\ cur = -1 /\ left = 0
        /\ seq = <<>> /\ pos = <<>> /\ prob = <<>>

Start(j, d) ==
    /\ tt = -1 /\ d \in Durs(j)
    /\ tt' = 0 /\ cur' = j /\ left' = d - 1 + c.ext
    /\ seq' = <<j>> /\ pos' = <<0>>
    /\ prob' = <<[k |-> "pi", j |-> j], [k |-> "d", j |-> j, d |-> d, t |-> 0]>>
    /\ UNCHANGED c

Stay ==
    /\ tt >= 0 /\ tt < c.nt - 1
    /\ left > 0 \/ Absorbing(cur)
    /\ tt' = tt + 1 /\ left' = IF left > 0 THEN left - 1 ELSE 0
    /\ seq' = Append(seq, cur) /\ pos' = Append(pos, pos[Len(pos)] + 1)
    /\ UNCHANGED <<c, cur, prob>>

Switch(j, d) ==
    /\ tt >= 0 /\ tt < c.nt - 1 /\ left = 0 /\ ~Absorbing(cur)
    /\ j # cur /\ d \in Durs(j)
    /\ tt' = tt + 1 /\ cur' = j /\ left' = d - 1 + c.ext
    /\ seq' = Append(seq, j) /\ pos' = Append(pos, 0)
    /\ prob' = prob \o <<[k |-> "T", i |-> cur, j |-> j, t |-> tt],
                         [k |-> "d", j |-> IF c.swf THEN j ELSE j + c.ns, d |-> d, t |-> tt + 1]>>
    /\ UNCHANGED c

Next == \/ Stay
        \/ \E j \in 0..(c.ns - 1), d \in 1..(c.D - 1) : Start(j, d) \/ Switch(j, d)

SimTypeOK == /\ Len(seq) = tt + 1 /\ Len(pos) = tt + 1
             /\ left \in 0..(c.D - 2 + c.ext)

\* States change only where a new position count starts, and always do there
PosResets == \A i \in 2..Len(seq) : (pos[i] = 0) <=> (seq[i] # seq[i-1])

\* A simulated bump lasts exactly its width unless cut off by the end
BumpLen == c.hmp => \A i \in 1..Len(seq) : Odd(seq[i]) => pos[i] < c.w + c.ext

EmitSim == tt = c.nt - 1 =>
    PrintT("@@" \o ToJson([id |-> c.id, seq |-> seq, pos |-> pos, prob |-> prob]))
=============================================================================

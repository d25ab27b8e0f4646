-------------------------------- MODULE Nuts --------------------------------
(***************************************************************************)
(* One transition of the posterior sampler (the No-U-Turn sampler with the *)
(* dynamic termination criterion), as a state machine over a trajectory.   *)
(*                                                                         *)
(* The trajectory is that of the leapfrog integrator with step 1 on a      *)
(* lattice: positions and momenta are pairs of integers, the gradient is   *)
(* an even vector and the inverse metric an integer matrix, so everything  *)
(* the algorithm computes is exact. A point of the trajectory is named by  *)
(* its (signed) number of steps from the current state. The random choices *)
(* of the sampler are the slice, the directions of the doublings and which *)
(* state is kept; every behaviour carries the exact probability of its     *)
(* choices given the slice as a fraction.                                  *)
(*                                                                         *)
(* Balanced: given the slice, going from one state to another has the same *)
(* probability as the way back, which is why the sampler leaves the        *)
(* posterior unchanged. Records of all behaviours are replayed by          *)
(* harness/c18_mcmc.py in the real code.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Chosen, \* numbers of systems
          Seed,   \* how numbers become systems
          MaxJ    \* largest number of doublings

VARIABLES k, sys, tr, cut, dirs, lo, hi, n, go, cur, path, w, last, seen, over
vars == <<k, sys, tr, cut, dirs, lo, hi, n, go, cur, path, w, last, seen, over>>

(***************************** systems ********************************)
Mix(a, b) == (a * 7919 + b * 10473 + a * b * 31 + (((a * a) % 101) + 3 * (Seed % 97)) * ((b * b) % 89) * 17
                + ((Seed % 1000) * 12997)) % 65521
Pick(a, b, seq) == seq[1 + (Mix(a, b) % Len(seq))]

Period == 3
Metrics == << <<1, 0, 0, 1>>, <<2, 1, 1, 2>>, <<1, 0, 0, 2>>, <<1, 1, 1, 2>> >>
Slopes == << 0, 0, 2, -2, 0, 4, -2 >>
Values == << 0, 0, 1, -1, -2, 2, 0, -1, -3000 >>

System(a) == [ metric |-> Pick(a, 1, Metrics),
               grad   |-> [i \in 1..Period |-> << Pick(a, 10 + i, Slopes), Pick(a, 20 + i, Slopes) >>],
               value  |-> [i \in 1..Period |-> IF i = 1 THEN 0 ELSE Pick(a, 30 + i, Values)],
               mix    |-> Pick(a, 40, << <<1, 1>>, <<1, 0>>, <<1, 2>> >>),
               r      |-> Pick(a, 50, << <<1, 0>>, <<1, 1>>, <<0, 1>>, <<-1, 1>>, <<2, 1>> >>) ]

Cell(s, x) == 1 + ((s.mix[1] * x[1] + s.mix[2] * x[2]) % Period)
Grad(s, x) == s.grad[Cell(s, x)]
Value(s, x) == s.value[Cell(s, x)]
Sharp(s, r) == << s.metric[1] * r[1] + s.metric[2] * r[2], s.metric[3] * r[1] + s.metric[4] * r[2] >>
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Plus(a, b) == << a[1] + b[1], a[2] + b[2] >>
Times(c, a) == << c * a[1], c * a[2] >>
Half(a) == << a[1] \div 2, a[2] \div 2 >>
\* twice the (negative) energy of a state
Joint(s, x, r) == 2 * Value(s, x) - Dot(r, Sharp(s, r))

\* one leapfrog step forward (v = 1) or backward (v = -1)
Leap(s, z, v) ==
  LET r1 == Plus(z.r, Times(v, Half(Grad(s, z.x))))
      x2 == Plus(z.x, Times(v, Sharp(s, r1)))
      r2 == Plus(r1, Times(v, Half(Grad(s, x2))))
  IN [x |-> x2, r |-> r2, h |-> Joint(s, x2, r2)]

Reach == 2 * (2 ^ MaxJ - 1)
RECURSIVE Run(_, _, _, _)
Run(s, z, v, m) == IF m = 0 THEN << >> ELSE LET y == Leap(s, z, v) IN << y >> \o Run(s, y, v, m - 1)
Trajectory(s) ==
  LET z == [x |-> <<0, 0>>, r |-> s.r, h |-> Joint(s, <<0, 0>>, s.r)]
      f == Run(s, z, 1, Reach)
      b == Run(s, z, -1, Reach)
  IN [o \in -Reach..Reach |-> IF o = 0 THEN z ELSE IF o > 0 THEN f[o] ELSE b[-o]]

(************************** the algorithm *****************************)
\* energies at which the slice may cut; the state of departure is always inside
Far(t, o, c) == t[o].h < c - 2000
InSlice(t, c, o) == t[o].h >= c

RECURSIVE Sum(_, _, _)
Sum(t, a, b) == IF a > b THEN <<0, 0>> ELSE Plus(t[a].r, Sum(t, a + 1, b))

\* the trajectory a..b turns back on itself (checked over all of it and over each half with one more state)
Turns(s, t, a, b) ==
  LET m == (a + b - 1) \div 2
      left == Sum(t, a, m)
      right == Sum(t, m + 1, b)
      ahead(p, d) == Dot(Sharp(s, p), d) > 0
      all == Plus(left, right)
      l1 == Plus(left, t[m + 1].r)
      r1 == Plus(right, t[m].r)
  IN ~ /\ ahead(t[a].r, all) /\ ahead(t[b].r, all)
       /\ ahead(t[a].r, l1) /\ ahead(t[m + 1].r, l1)
       /\ ahead(t[m].r, r1) /\ ahead(t[b].r, r1)

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a

\* half-tree of 2^j states next to the trajectory, starting with state a, growing in direction v; it ends
\* early where the energy is lost or a sub-tree turns back
RECURSIVE Grow(_, _, _, _, _, _)
Grow(s, t, c, a, v, j) ==
  IF j = 0 THEN [ok |-> ~Far(t, a, c), m |-> 1]
  ELSE LET one == Grow(s, t, c, a, v, j - 1)
           b == a + v * 2 ^ (j - 1)
           two == Grow(s, t, c, b, v, j - 1)
           z == a + v * (2 ^ j - 1)
       IN IF ~one.ok THEN one
          ELSE [ok |-> two.ok /\ ~Turns(s, t, Min(a, z), Max(a, z)), m |-> one.m + two.m]

Members(a, v, m) == {a + v * i : i \in 0..(m - 1)}

(*************************** fractions ********************************)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Frac(a, b) == IF a = 0 THEN <<0, 1>> ELSE LET g == Gcd(a, b) IN << a \div g, b \div g >>
FMul(p, q) == Frac(p[1] * q[1], p[2] * q[2])
FAdd(p, q) == Frac(p[1] * q[2] + q[1] * p[2], p[2] * q[2])
\* probability that one of the new ones replaces the state kept so far, and that nothing does
Move(new, old) == Frac(1, Max(new, old))
Stay(new, old) == IF new >= old THEN <<0, 1>> ELSE Frac(old - new, old)

(*************************** transitions ******************************)
Cuts(t) == {t[o].h : o \in {p \in -(2 ^ MaxJ - 1)..(2 ^ MaxJ - 1) : t[p].h <= t[0].h /\ t[p].h > t[0].h - 200}}

Init ==
  /\ k \in Chosen
  /\ sys = System(k)
  /\ tr = Trajectory(sys)
  /\ cut \in Cuts(tr)
  /\ dirs = << >> /\ lo = 0 /\ hi = 0 /\ n = 1 /\ go = TRUE /\ cur = 0 /\ path = << >> /\ w = <<1, 1>>
  /\ last = << >> /\ seen = {} /\ over = FALSE

Double(v) ==
  LET j == Len(dirs)
      a == IF v = 1 THEN hi + 1 ELSE lo - 1
      g == Grow(sys, tr, cut, a, v, j)
      all == Members(a, v, g.m)
      good == {o \in all : InSlice(tr, cut, o)}
      lo2 == IF v = 1 THEN lo ELSE lo - 2 ^ j
      hi2 == IF v = 1 THEN hi + 2 ^ j ELSE hi
  IN /\ go /\ j < MaxJ
     /\ dirs' = Append(dirs, v)
     /\ last' = [i \in 1..g.m |-> a + v * (i - 1)]
     /\ seen' = seen \cup all
     /\ n' = n + Cardinality(good)
     /\ lo' = lo2 /\ hi' = hi2
     /\ go' = (g.ok /\ ~Turns(sys, tr, lo2, hi2))
     /\ \/ /\ ~g.ok
           /\ cur' = cur /\ w' = FMul(w, <<1, 2>>)
        \/ /\ g.ok /\ Stay(Cardinality(good), n)[1] > 0
           /\ cur' = cur /\ w' = FMul(w, FMul(<<1, 2>>, Stay(Cardinality(good), n)))
        \/ /\ g.ok
           /\ \E o \in good : cur' = o /\ w' = FMul(w, FMul(<<1, 2>>, Move(Cardinality(good), n)))
     /\ path' = Append(path, cur)   \* so that behaviours that differ only in what they kept before stay apart
     /\ UNCHANGED <<k, sys, tr, cut, over>>

Higher(c) == {b \in Cuts(tr) : b > c}
Lower(c) == {b \in Cuts(tr) : b < c}
Pts(s) == {tr[o].x : o \in s}

Finish ==
  /\ ~over /\ (go /\ Len(dirs) < MaxJ) = FALSE
  /\ over' = TRUE
  /\ PrintT("@@" \o ToJson([k |-> k, sys |-> sys, depth |-> Len(dirs), to |-> tr[cur].x, w |-> w, h0 |-> tr[0].h, cut |-> cut,
        lower |-> IF Lower(cut) = {} THEN cut - 100 ELSE CHOOSE b \in Lower(cut) : \A c \in Lower(cut) : c <= b,
        seen |-> Pts(seen), last |-> [i \in 1..Len(last) |-> tr[last[i]].h]]))
  /\ UNCHANGED <<k, sys, tr, cut, dirs, lo, hi, n, go, cur, path, w, last, seen>>

Next == Double(1) \/ Double(-1) \/ Finish
Spec == Init /\ [][Next]_vars

(*************************** properties *******************************)
\* what is kept lies in the slice and on the part of the trajectory that has been visited
Kept == InSlice(tr, cut, cur) /\ (cur = 0 \/ cur \in seen)
\* the state of departure is never left behind
Around == lo <= 0 /\ hi >= 0 /\ hi - lo + 1 = 2 ^ Len(dirs)
\* integration can be undone
Undone == \A o \in -1..1 : LET z == tr[o] IN
             /\ Leap(sys, Leap(sys, z, 1), -1) = z
             /\ Leap(sys, Leap(sys, z, -1), 1) = z
Likely == w[1] > 0 /\ w[1] <= w[2]

\* probability of going from state s to state e of the trajectory given the slice: all ways of doubling
RECURSIVE Way(_, _, _, _, _, _, _)
Way(c, a, b, m, j, from, to) ==
  \* a..b: trajectory so far, m: its states inside the slice, from: probability that `to' is kept at present
  IF j = MaxJ THEN from
  ELSE LET side(v) ==
             LET st == IF v = 1 THEN b + 1 ELSE a - 1
                 g == Grow(sys, tr, c, st, v, j)
                 good == {o \in Members(st, v, g.m) : InSlice(tr, c, o)}
                 q == IF ~g.ok THEN from
                      ELSE IF to \in good THEN Move(Cardinality(good), m)
                      ELSE FMul(from, Stay(Cardinality(good), m))
                 a2 == IF v = 1 THEN a ELSE a - 2 ^ j
                 b2 == IF v = 1 THEN b + 2 ^ j ELSE b
             IN IF ~g.ok \/ Turns(sys, tr, a2, b2) THEN q
                ELSE Way(c, a2, b2, m + Cardinality(good), j + 1, q, to)
       IN FAdd(FMul(<<1, 2>>, side(1)), FMul(<<1, 2>>, side(-1)))
Prob(c, s, e) == Way(c, s, s, 1, 0, IF s = e THEN <<1, 1>> ELSE <<0, 1>>, e)

Balanced == dirs = << >> =>
  \A o \in -(2 ^ MaxJ - 1)..(2 ^ MaxJ - 1) : InSlice(tr, cut, o) => Prob(cut, 0, o) = Prob(cut, o, 0)
=============================================================================

------------------------------- MODULE Files -------------------------------
(* A data set that lies in several files is read, in parallel, and a model is fitted to it.

   The rows of the data set are dealt to files in order; a file may be empty of usable rows. Workers
   first scan the files (in any order) for factor levels, then the retained rows of every file are
   dealt to at most `nc` workers in blocks. Each block adds its rows to the cross-product once, and
   later - any number of times - is asked for its predictions, which are put together in the order of
   the data. Blocks may be kept in a cache under a key; the cache is made when a fit starts, must not
   exist then, and is removed when the fit ends. A fit can crash, which leaves the cache behind.

   The files of a data set live in a directory; file names (without the directory) of different
   directories may coincide. *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS N,          \* rows per data set
          Kinds,      \* kinds of rows: [miss: set of variables, g: level]
          MaxFiles,   \* largest number of files
          Workers,    \* numbers of workers to try
          Used,       \* variables the formula uses besides the response
          Order,      \* factor levels in alphabetical order
          Given,      \* data sets to read: sequences of [miss, g, file]; {} for all
          Caching,    \* subset of BOOLEAN: whether blocks are cached
          Names,      \* base name of the k-th file
          Dirs,       \* directory of the k-th file
          Free,       \* TRUE: explore every order of the workers; FALSE: one canonical order
          Rounds      \* how often predictions are asked for

VARIABLES phase,      \* fill, scan, add, ask, done, crashed
          rows,       \* sequence of [miss, g, file]
          nc, caching,
          plan,       \* <<file, worker>> -> rows dealt to it
          todo,       \* work of the current phase that is still open
          levels,     \* factor levels seen so far
          sum,        \* row -> how often it was added to the cross-product
          out,        \* block -> rows it predicted in the current round
          round,
          cache       \* set of [key, block]: stored blocks

vars == <<phase, rows, nc, caching, plan, todo, levels, sum, out, round, cache>>

Files == 1 .. (IF rows = << >> THEN 0 ELSE rows[Len(rows)].file)

Init == /\ phase = "fill"
        /\ IF Given = {} THEN rows = << >> ELSE rows \in Given
        /\ nc \in Workers /\ caching \in Caching
        /\ plan = << >> /\ todo = {} /\ levels = {} /\ sum = << >> /\ out = << >> /\ round = 0 /\ cache = {}

\* the next row goes to the same file or opens the next one
Fill == /\ phase = "fill" /\ Given = {} /\ Len(rows) < N
        /\ \E k \in Kinds, step \in {0, 1} :
             LET f == IF rows = << >> THEN 1 ELSE rows[Len(rows)].file + step IN
             /\ rows = << >> => step = 1
             /\ f <= MaxFiles
             /\ rows' = Append(rows, [miss |-> k.miss, g |-> k.g, file |-> f])
        /\ UNCHANGED <<phase, nc, caching, plan, todo, levels, sum, out, round, cache>>

Complete(r) == r.miss \cap (Used \cup {"y"}) = {}
RECURSIVE Pick(_, _, _)
Pick(f, j, acc) == IF j > Len(rows) THEN acc
                   ELSE Pick(f, j + 1, IF rows[j].file = f /\ Complete(rows[j])
                                       THEN Append(acc, j) ELSE acc)
Kept(f) == Pick(f, 1, << >>)                 \* retained rows of file f

Min(a, b) == IF a < b THEN a ELSE b
\* k rows are dealt to p workers: sizes differ by at most one, larger blocks first
Size(k, p, c) == (k \div p) + (IF c <= k % p THEN 1 ELSE 0)
Start(k, p, c) == (c - 1) * (k \div p) + Min(c - 1, k % p) + 1
Cut(s, p, c) == SubSeq(s, Start(Len(s), p, c), Start(Len(s), p, c) + Size(Len(s), p, c) - 1)
Deal == LET own == [f \in Files |-> Kept(f)]
            part(f) == Min(nc, Len(own[f]))
            pieces == UNION {{<<f, c>> : c \in 1 .. part(f)} : f \in Files}
        IN [w \in pieces |-> Cut(own[w[1]], part(w[1]), w[2])]
Blocks == DOMAIN plan

\* workers take any open piece of work, or the smallest one
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Takes(w) == /\ w \in todo
            /\ Free \/ ~ \E v \in todo : v # w /\ Before(v, w)

Begin == /\ phase = "fill"
         /\ Given # {} \/ Len(rows) = N
         /\ IF cache = {}
            THEN phase' = "scan" /\ todo' = {<<f, 0>> : f \in Files}
            ELSE phase' = "refused" /\ todo' = {}
         /\ UNCHANGED <<rows, nc, caching, plan, levels, sum, out, round, cache>>

Scan == /\ phase = "scan"
        /\ \E w \in todo :
             /\ Takes(w)
             /\ levels' = levels \cup {rows[j].g : j \in {j \in 1 .. Len(rows) :
                                         rows[j].file = w[1] /\ "g" \notin rows[j].miss}}
             /\ todo' = todo \ {w}
        /\ UNCHANGED <<phase, rows, nc, caching, plan, sum, out, round, cache>>

StartAdd == /\ phase = "scan" /\ todo = {}
            /\ phase' = "add" /\ plan' = Deal /\ todo' = DOMAIN plan'
            /\ sum' = [j \in 1 .. Len(rows) |-> 0]
            /\ UNCHANGED <<rows, nc, caching, levels, out, round, cache>>

Key(w) == <<Dirs[w[1]], Names[w[1]], w[2]>>
Stored(k) == \E e \in cache : e.key = k
Fetch(w) == IF caching /\ Stored(Key(w)) THEN (CHOOSE e \in cache : e.key = Key(w)).block
            ELSE plan[w]
Keep(w) == IF caching THEN cache \cup {[key |-> Key(w), block |-> Fetch(w)]} ELSE cache

Add == /\ phase = "add"
       /\ \E w \in todo :
            /\ Takes(w)
            /\ LET b == Fetch(w) IN
               sum' = [j \in 1 .. Len(rows) |->
                         sum[j] + (IF \E k \in 1 .. Len(b) : b[k] = j THEN 1 ELSE 0)]
            /\ cache' = Keep(w)
            /\ todo' = todo \ {w}
       /\ UNCHANGED <<phase, rows, nc, caching, plan, levels, out, round>>

StartAsk == /\ phase \in {"add", "ask"} /\ todo = {} /\ round < Rounds
            /\ phase' = "ask" /\ todo' = Blocks /\ round' = round + 1
            /\ out' = [w \in Blocks |-> << >>]
            /\ UNCHANGED <<rows, nc, caching, plan, levels, sum, cache>>

Ask == /\ phase = "ask"
       /\ \E w \in todo :
            /\ Takes(w)
            /\ out' = [out EXCEPT ![w] = Fetch(w)]
            /\ cache' = Keep(w)
            /\ todo' = todo \ {w}
       /\ UNCHANGED <<phase, rows, nc, caching, plan, levels, sum, round>>

RECURSIVE Join(_, _)
Join(ws, acc) == IF ws = {} THEN acc
                 ELSE LET w == CHOOSE w \in ws : ~ \E v \in ws : v # w /\ Before(v, w)
                      IN Join(ws \ {w}, acc \o out[w])

Finish == /\ phase = "ask" /\ todo = {} /\ round = Rounds
          /\ phase' = "done" /\ cache' = {}
          /\ ~Free => PrintT("@@" \o ToJson(
                [rows |-> rows, nc |-> nc, caching |-> caching, sum |-> sum,
                 order |-> Join(Blocks, << >>),
                 levels |-> SelectSeq(Order, LAMBDA l : l \in levels)]))
          /\ UNCHANGED <<rows, nc, caching, plan, todo, levels, sum, out, round>>

Crash == /\ Free /\ phase \in {"add", "ask"}
         /\ phase' = "crashed"
         /\ UNCHANGED <<rows, nc, caching, plan, todo, levels, sum, out, round, cache>>

\* the next fit, to another data set of the same shape (what is stored is now about other data)
Again == /\ phase = "crashed"
         /\ IF cache = {} THEN phase' = "scan" /\ todo' = {<<f, 0>> : f \in Files}
            ELSE phase' = "refused" /\ todo' = {}
         /\ levels' = {} /\ sum' = << >> /\ out' = << >> /\ round' = 0
         /\ plan' = << >>
         /\ UNCHANGED <<rows, nc, caching, cache>>

Next == Fill \/ Begin \/ Scan \/ StartAdd \/ Add \/ StartAsk \/ Ask \/ Finish \/ Crash \/ Again
Spec == Init /\ [][Next]_vars

(* --------------------------------------------------------------- properties *)
Whole == LET all[j \in 0 .. Len(rows)] ==
               IF j = 0 THEN << >>
               ELSE IF Complete(rows[j]) THEN Append(all[j - 1], j) ELSE all[j - 1]
         IN all[Len(rows)]
\* a finished fit has used every retained row once and predicts them in the order of the data
Once == phase \in {"ask", "done"} =>
          \A j \in 1 .. Len(rows) : sum[j] = (IF Complete(rows[j]) THEN 1 ELSE 0)
InOrder == phase = "done" => Join(Blocks, << >>) = Whole
Coded == phase \in {"add", "ask", "done"} =>
           levels = {rows[j].g : j \in {j \in 1 .. Len(rows) : "g" \notin rows[j].miss}}
\* what is stored under a key is what would be computed for it
\* blocks of a file are its retained rows, cut without overlap
Dealt == phase \in {"add", "ask", "done"} =>
           /\ \A f \in Files : Cardinality({w \in Blocks : w[1] = f}) = Min(nc, Len(Kept(f)))
           /\ \A w \in Blocks : plan[w] # << >>
Sound == phase \in {"add", "ask"} => \A e \in cache : \E w \in Blocks : Key(w) = e.key /\ e.block = plan[w]
Clean == phase \in {"done", "scan"} => cache = {}
NeverStale == phase = "refused" => cache # {}
Progress == <>(phase \in {"done", "refused"})
=============================================================================

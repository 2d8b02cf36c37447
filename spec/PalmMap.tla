------------------------------- MODULE PalmMap -------------------------------
(* The abstract system: any number of palm trees, their clones, iterators    *)
(* (by reference, mutable, consuming, merging), entry handles, and what is   *)
(* left of a tree whose operation was interrupted by a panic in user code.   *)
(*                                                                           *)
(* Every action carries the reply the caller sees as its last parameter(s),  *)
(* so the same action generates behaviours (choose the reply) and judges a   *)
(* recorded one (the reply is given).                                        *)
EXTENDS OrderedMap

VARIABLES
  trees,   \* tree id -> map, for every tree that exists
  curs,    \* cursor id -> iterator state, for every iterator that exists
  ents,    \* handle id -> entry handle or value reference in use
  hurt,    \* tree id -> (key -> set of genuine entries): trees hit by a panic
  flocks   \* flock id -> [m, n]: n clones, all equal to m, not otherwise touched

vars == <<trees, curs, ents, hurt, flocks>>

Init == trees = EmptyMap /\ curs = EmptyMap /\ ents = EmptyMap /\ hurt = EmptyMap /\ flocks = EmptyMap

-----------------------------------------------------------------------------
(* Borrowing: what the caller can do at all (the compiler enforces it).      *)
Exists(t) == t \in DOMAIN trees
Fresh(t)  == t \notin DOMAIN trees /\ t \notin DOMAIN hurt
NoEntryOn(t) == {h \in DOMAIN ents : ents[h].t = t} = {}
SharedBy(t) == {c \in DOMAIN curs : curs[c].kind = "ref" /\ curs[c].t = t}
MutBy(t)    == {c \in DOMAIN curs : curs[c].kind = "mut" /\ curs[c].t = t}
Readable(t) == Exists(t) /\ MutBy(t) = {} /\ NoEntryOn(t)
Writable(t) == Readable(t) /\ SharedBy(t) = {}

SetTree(t, m) == trees' = (t :> m) @@ trees
DropTrees(S)  == trees' = [t \in DOMAIN trees \ S |-> trees[t]]
Same == UNCHANGED <<curs, ents, hurt, flocks>>

-----------------------------------------------------------------------------
(* Construction                                                              *)
New(t) == Fresh(t) /\ SetTree(t, EmptyMap) /\ Same

\* Bulk load: a strictly ascending sequence; anything else panics when debug
\* assertions are on, and is outside the contract when they are off.
Load(t, s, dbg, panicked) ==
  /\ Fresh(t)
  /\ IF Ascending(s)
     THEN panicked = 0 /\ SetTree(t, OfAscending(s)) /\ Same
     ELSE dbg = 1 /\ panicked = 1 /\ UNCHANGED vars
FromMap(t, s) == Fresh(t) /\ Ascending(s) /\ SetTree(t, OfAscending(s)) /\ Same
FromSeq(t, s) == Fresh(t) /\ SetTree(t, StoreAll(EmptyMap, s)) /\ Same
ExtendSeq(t, s) == Writable(t) /\ SetTree(t, StoreAll(trees[t], s)) /\ Same

CloneTree(t, u) == Readable(t) /\ Fresh(u) /\ SetTree(u, trees[t]) /\ Same
DropTree(t) == Writable(t) /\ DropTrees({t}) /\ Same

-----------------------------------------------------------------------------
(* Point operations                                                          *)
Get(t, k, r) == Readable(t) /\ r = Lookup(trees[t], k) /\ UNCHANGED vars
\* Indexing panics exactly when the key is absent.
IndexGet(t, k, panicked, r) ==
  /\ Readable(t)
  /\ IF k \in DOMAIN trees[t] THEN panicked = 0 /\ r = Lookup(trees[t], k) ELSE panicked = 1
  /\ UNCHANGED vars
\* Mutable lookup, then the value w written through the reference.
GetMut(t, k, w, r) ==
  /\ Writable(t) /\ r = Lookup(trees[t], k)
  /\ IF k \in DOMAIN trees[t] THEN SetTree(t, Store(trees[t], k, w, 0)) ELSE UNCHANGED trees
  /\ Same
IndexMut(t, k, w, panicked, r) ==
  /\ Writable(t)
  /\ IF k \in DOMAIN trees[t]
     THEN panicked = 0 /\ r = Lookup(trees[t], k) /\ SetTree(t, Store(trees[t], k, w, 0))
     ELSE panicked = 1 /\ UNCHANGED trees
  /\ Same
Insert(t, k, v, g, r) ==
  /\ Writable(t) /\ r = Lookup(trees[t], k)
  /\ SetTree(t, Store(trees[t], k, v, g)) /\ Same
\* A removal replies << >> or <<key, entry>>.
RemoveKey(t, k, r) ==
  /\ Writable(t)
  /\ IF k \in DOMAIN trees[t]
     THEN r = <<k, trees[t][k]>> /\ SetTree(t, Del(trees[t], k))
     ELSE r = << >> /\ UNCHANGED trees
  /\ Same
RemoveEnd(t, high, r) ==
  /\ Writable(t)
  /\ IF DOMAIN trees[t] = {} THEN r = << >> /\ UNCHANGED trees
     ELSE \E k \in {r[i] : i \in {1} \cap DOMAIN r} :
             /\ IF high = 1 THEN IsGreatest(k, DOMAIN trees[t]) ELSE IsLeast(k, DOMAIN trees[t])
             /\ r = <<k, trees[t][k]>> /\ SetTree(t, Del(trees[t], k))
  /\ Same
Length(t, n, empty) ==
  /\ Readable(t) /\ n = Size(trees[t]) /\ (empty = 1) = (n = 0) /\ UNCHANGED vars

-----------------------------------------------------------------------------
(* Bulk steps: many point operations summarised in one event.                *)
Progression(lo, step, n) == {lo + i * step : i \in 0..(n - 1)}
In(k, lo, step, n) == k >= lo /\ (k - lo) % step = 0 /\ (k - lo) \div step < n
\* S \cup Progression(lo, step, n), written so that TLC enumerates it in order.
JoinSorted(S, lo, step, n) ==
  LET q == SortedKeys(S)
      hi == lo + n * step
      from == IF Yes(q = << >> \/ q[1] >= lo) THEN lo ELSE q[1]
      to   == IF Yes(q = << >> \/ q[Len(q)] <= hi) THEN hi ELSE q[Len(q)]
  IN  {k \in from..to : In(k, lo, step, n) \/ k \in S}
InsertMany(t, lo, step, n, v, replaced) ==
  /\ Writable(t)
  /\ LET m == trees[t]
     IN  /\ replaced = Cardinality({k \in DOMAIN m : In(k, lo, step, n)})
         /\ SetTree(t, [k \in JoinSorted(DOMAIN m, lo, step, n) |->
               CASE ~In(k, lo, step, n) -> m[k]
                 [] k \in DOMAIN m -> Ent(v + ((k - lo) \div step), Tag(m[k]))
                 [] OTHER -> Ent(v + ((k - lo) \div step), 0)])
  /\ Same
RemoveMany(t, lo, step, n, removed) ==
  /\ Writable(t)
  /\ LET m == trees[t]
         rest == {k \in DOMAIN m : ~In(k, lo, step, n)}
     IN  /\ removed = Cardinality(DOMAIN m) - Cardinality(rest)
         /\ SetTree(t, [k \in rest |-> m[k]])
  /\ Same
LoadMany(t, lo, step, n, v) ==
  /\ Fresh(t)
  /\ SetTree(t, [k \in JoinSorted({}, lo, step, n) |-> Ent(v + ((k - lo) \div step), 0)])
  /\ Same
\* Remove the n lowest (highest) entries; the reply is the sequence removed.
PopMany(t, high, n, r) ==
  /\ Writable(t)
  /\ LET m == trees[t]
         taken == {r[i][1] : i \in 1..Len(r)}
     IN  /\ Len(r) = IF Size(m) < n THEN Size(m) ELSE n
         /\ taken \subseteq DOMAIN m
         /\ IF high = 1 THEN DescEntries(m, taken, r) ELSE AscEntries(m, taken, r)
         /\ IF taken = {} THEN TRUE
            ELSE LET edge == r[Len(r)][1] IN
                 Yes(\A k \in DOMAIN m \ taken : IF high = 1 THEN k < edge ELSE k > edge)
         /\ SetTree(t, [k \in DOMAIN m \ taken |-> m[k]])
  /\ Same
\* Values of the n keys lo, lo+1, ... (None where absent).
GetMany(t, lo, r) ==
  /\ Readable(t)
  /\ Yes(\A i \in 1..Len(r) : r[i] = Lookup(trees[t], lo + i - 1))
  /\ UNCHANGED vars

-----------------------------------------------------------------------------
(* Whole-iterator observations                                               *)
Scan(t, b, back, panicked, s) ==
  /\ Readable(t)
  /\ IF BadBounds(b) THEN panicked = 1
     ELSE /\ panicked = 0
          /\ LET S == RangeKeys(trees[t], b)
             IN  IF back = 1 THEN DescEntries(trees[t], S, s) ELSE AscEntries(trees[t], S, s)
  /\ UNCHANGED vars
\* Summary of a range: how many entries, the first and the last key.
RangeSummary(t, b, panicked, n, first, last) ==
  /\ Readable(t)
  /\ IF BadBounds(b) THEN panicked = 1
     ELSE /\ panicked = 0
          /\ LET S == RangeKeys(trees[t], b)
             IN  /\ n = Cardinality(S)
                 /\ IF S = {} THEN first = None /\ last = None
                    ELSE IsLeast(first, S) /\ IsGreatest(last, S)
  /\ UNCHANGED vars
\* Consuming the whole tree, summarised the same way.
ConsumeSummary(t, n, first, last) ==
  /\ Writable(t)
  /\ LET S == DOMAIN trees[t]
     IN  /\ n = Cardinality(S)
         /\ IF S = {} THEN first = None /\ last = None
            ELSE IsLeast(first, S) /\ IsGreatest(last, S)
  /\ DropTrees({t}) /\ Same
\* Whole mutable iteration: reads like Scan, and value v+k written through the
\* reference handed out with key k.
ScanMut(t, b, back, v, panicked, s) ==
  /\ Writable(t)
  /\ IF BadBounds(b) THEN panicked = 1 /\ UNCHANGED trees
     ELSE /\ panicked = 0
          /\ LET m == trees[t]
                 S == RangeKeys(m, b)
             IN  /\ IF back = 1 THEN DescEntries(m, S, s) ELSE AscEntries(m, S, s)
                 /\ SetTree(t, Patch(m, S, LAMBDA k : Ent(v + k, Tag(m[k]))))
  /\ Same

-----------------------------------------------------------------------------
(* Iterators step by step.  keys is the ascending sequence of keys the       *)
(* iterator ranges over, and lo..hi is what of it has not been yielded.      *)
(*   ref: borrows t shared; mut: borrows t exclusively, held = keys whose    *)
(*   value references are with the caller; own: holds its own map.           *)
Cursor(kind, t, m, S) ==
  LET s == SortedKeys(S) IN [kind |-> kind, t |-> t, m |-> m, keys |-> s, lo |-> 1, hi |-> Len(s), held |-> {}]
Left(c) == curs[c].hi - curs[c].lo + 1
SetCur(c, x) == curs' = (c :> x) @@ curs
FreshCur(c) == c \notin DOMAIN curs

OpenRef(c, t, b, panicked) ==
  /\ Readable(t) /\ FreshCur(c)
  /\ IF BadBounds(b) THEN panicked = 1 /\ UNCHANGED curs
     ELSE panicked = 0 /\ SetCur(c, Cursor("ref", t, EmptyMap, RangeKeys(trees[t], b)))
  /\ UNCHANGED <<trees, ents, hurt, flocks>>
OpenMut(c, t, b, panicked) ==
  /\ Writable(t) /\ FreshCur(c)
  /\ IF BadBounds(b) THEN panicked = 1 /\ UNCHANGED curs
     ELSE panicked = 0 /\ SetCur(c, Cursor("mut", t, EmptyMap, RangeKeys(trees[t], b)))
  /\ UNCHANGED <<trees, ents, hurt, flocks>>
OpenOwn(c, t) ==
  /\ Writable(t) /\ FreshCur(c)
  /\ SetCur(c, Cursor("own", None, trees[t], DOMAIN trees[t]))
  /\ DropTrees({t}) /\ UNCHANGED <<ents, hurt, flocks>>
\* The merging iterators consume both trees and yield the biased union.
OpenMerge(c, t, u, right) ==
  /\ t # u /\ Writable(t) /\ Writable(u) /\ FreshCur(c)
  /\ LET m == IF right = 1 THEN UnionR(trees[t], trees[u]) ELSE UnionL(trees[t], trees[u])
     IN  SetCur(c, Cursor("merge", None, m, DOMAIN m))
  /\ DropTrees({t, u}) /\ UNCHANGED <<ents, hurt, flocks>>

CurMap(c) == IF curs[c].kind \in {"ref", "mut"} THEN trees[curs[c].t] ELSE curs[c].m
CurReply(c, k) == <<k, CurMap(c)[k]>>
\* One step from the front (back = 0) or the back; the reply is << >> when exhausted.
Step(c, back, r) ==
  /\ c \in DOMAIN curs
  /\ back = 1 => curs[c].kind # "merge"
  /\ LET x == curs[c] IN
     IF x.lo > x.hi THEN r = << >> /\ UNCHANGED curs
     ELSE LET k == IF back = 1 THEN x.keys[x.hi] ELSE x.keys[x.lo]
              y == [x EXCEPT !.lo = IF back = 1 THEN @ ELSE @ + 1,
                             !.hi = IF back = 1 THEN @ - 1 ELSE @,
                             !.held = IF x.kind = "mut" THEN @ \cup {k} ELSE @]
          IN  r = CurReply(c, k) /\ SetCur(c, y)
  /\ UNCHANGED <<trees, ents, hurt, flocks>>
\* Writing through a reference a mutable iterator has handed out: reads r, stores w.
WriteHeld(c, k, w, r) ==
  /\ c \in DOMAIN curs /\ curs[c].kind = "mut" /\ k \in curs[c].held
  /\ r = Lookup(trees[curs[c].t], k)
  /\ SetTree(curs[c].t, Store(trees[curs[c].t], k, w, 0)) /\ Same
CloneCur(c, d) ==
  /\ c \in DOMAIN curs /\ curs[c].kind = "ref" /\ FreshCur(d)
  /\ SetCur(d, curs[c]) /\ UNCHANGED <<trees, ents, hurt, flocks>>
CloseCur(c) ==
  /\ c \in DOMAIN curs
  /\ curs' = [d \in DOMAIN curs \ {c} |-> curs[d]] /\ UNCHANGED <<trees, ents, hurt, flocks>>
\* size_hint: bounds for any iterator (hi = -1: none given), exact for consuming ones.
SizeHint(c, lo, hi) ==
  /\ c \in DOMAIN curs
  /\ lo <= Left(c) /\ (IF hi = None THEN TRUE ELSE hi >= Left(c))
  /\ curs[c].kind = "own" => lo = Left(c) /\ hi = Left(c)
  /\ UNCHANGED vars
\* Draining what is left of an iterator in one go.
Drain(c, back, s) ==
  /\ c \in DOMAIN curs
  /\ back = 1 => curs[c].kind # "merge"
  /\ LET x == curs[c]
         S == {x.keys[i] : i \in x.lo..x.hi}
     IN  /\ IF back = 1 THEN DescEntries(CurMap(c), S, s) ELSE AscEntries(CurMap(c), S, s)
         /\ SetCur(c, [x EXCEPT !.lo = x.hi + 1, !.held = IF x.kind = "mut" THEN @ \cup S ELSE @])
  /\ UNCHANGED <<trees, ents, hurt, flocks>>

\* nth / nth_back: n items are passed over and the next is yielded.
Nth(c, back, n, r) ==
  /\ c \in DOMAIN curs
  /\ back = 1 => curs[c].kind # "merge"
  /\ LET x == curs[c]
         i == IF back = 1 THEN x.hi - n ELSE x.lo + n
     IN  IF i < x.lo \/ i > x.hi THEN r = << >> /\ SetCur(c, [x EXCEPT !.lo = x.hi + 1])
         ELSE LET k == x.keys[i]
              IN  /\ r = CurReply(c, k)
                  /\ SetCur(c, [x EXCEPT !.lo = IF back = 1 THEN @ ELSE i + 1,
                                         !.hi = IF back = 1 THEN i - 1 ELSE @,
                                         !.held = IF x.kind = "mut" THEN @ \cup {k} ELSE @])
  /\ UNCHANGED <<trees, ents, hurt, flocks>>
\* find (rfind): items are passed over until one with a key >= k (<= k) is yielded.
FindFrom(c, back, k, r) ==
  /\ c \in DOMAIN curs
  /\ back = 1 => curs[c].kind # "merge"
  /\ LET x == curs[c]
         over == Cardinality({i \in x.lo..x.hi : IF back = 1 THEN x.keys[i] > k ELSE x.keys[i] < k})
     IN  IF over = Left(c) THEN r = << >> /\ SetCur(c, [x EXCEPT !.lo = x.hi + 1])
         ELSE LET i == IF back = 1 THEN x.hi - over ELSE x.lo + over
              IN  /\ r = CurReply(c, x.keys[i])
                  /\ SetCur(c, [x EXCEPT !.lo = IF back = 1 THEN @ ELSE i + 1,
                                         !.hi = IF back = 1 THEN i - 1 ELSE @,
                                         !.held = IF x.kind = "mut" THEN @ \cup {x.keys[i]} ELSE @])
  /\ UNCHANGED <<trees, ents, hurt, flocks>>
\* Methods that consume the iterator: everything left (collect, fold, rev...),
\* how many were left (count), the last that was left (last).
Collect(c, back, s) ==
  /\ c \in DOMAIN curs
  /\ back = 1 => curs[c].kind # "merge"
  /\ LET x == curs[c]
         S == {x.keys[i] : i \in x.lo..x.hi}
     IN  IF back = 1 THEN DescEntries(CurMap(c), S, s) ELSE AscEntries(CurMap(c), S, s)
  /\ CloseCur(c)
CountLeft(c, n) == c \in DOMAIN curs /\ n = Left(c) /\ CloseCur(c)
LastLeft(c, r) ==
  /\ c \in DOMAIN curs
  /\ r = IF Left(c) = 0 THEN << >> ELSE CurReply(c, curs[c].keys[curs[c].hi])
  /\ CloseCur(c)

-----------------------------------------------------------------------------
(* Many clones of one tree.                                                  *)
SetFlock(f, x) == flocks' = (f :> x) @@ flocks
EndFlock(f) == flocks' = [g \in DOMAIN flocks \ {f} |-> flocks[g]]
Flock(f, t, n) ==
  /\ Readable(t) /\ f \notin DOMAIN flocks
  /\ SetFlock(f, [m |-> trees[t], n |-> n]) /\ UNCHANGED <<trees, curs, ents, hurt>>
FlockScan(f, back, s) ==
  /\ f \in DOMAIN flocks /\ flocks[f].n > 0
  /\ LET m == flocks[f].m IN IF back = 1 THEN DescEntries(m, DOMAIN m, s) ELSE AscEntries(m, DOMAIN m, s)
  /\ UNCHANGED vars
\* One of them becomes a tree of its own name.
FlockTake(f, u) ==
  /\ f \in DOMAIN flocks /\ flocks[f].n > 0 /\ Fresh(u)
  /\ SetTree(u, flocks[f].m) /\ SetFlock(f, [flocks[f] EXCEPT !.n = @ - 1]) /\ UNCHANGED <<curs, ents, hurt>>
FlockDrop(f) == f \in DOMAIN flocks /\ EndFlock(f) /\ UNCHANGED <<trees, curs, ents, hurt>>

\* Threads j each clone t again and again, change their clone at key ops[j][1]
\* (0: insert v, 1: remove, else: write v if present) and look at it, flat:
\* what each saw, the same each time, is the reply.
Altered(m, op, v) ==
  CASE op[2] = 0 -> Store(m, op[1], v, 0)
    [] op[2] = 1 -> Del(m, op[1])
    [] OTHER -> IF op[1] \in DOMAIN m THEN Store(m, op[1], v, 0) ELSE m
Unflatten(f) == [i \in 1..(Len(f) \div 2) |-> <<f[2 * i - 1], f[2 * i]>>]
HammerClone(t, ops, v, ss) ==
  /\ Readable(t) /\ Len(ss) = Len(ops)
  /\ \A j \in 1..Len(ops) :
       LET m == Altered(trees[t], ops[j], v) IN AscEntries(m, DOMAIN m, Unflatten(ss[j]))
  /\ UNCHANGED vars

-----------------------------------------------------------------------------
(* Combination of trees.  Result in u's place: form \in                      *)
(*   "merge": both consumed;  "append": t becomes the result, u consumed;    *)
(*   "ref": t becomes the result, u is only read.                            *)
Combine(t, u, form, right) ==
  /\ t # u /\ Writable(t)
  /\ IF form = "ref" THEN Readable(u) ELSE Writable(u)
  /\ LET m == IF right = 1 THEN UnionR(trees[t], trees[u]) ELSE UnionL(trees[t], trees[u])
     IN  trees' = IF form = "ref" THEN (t :> m) @@ trees
                  ELSE [x \in DOMAIN trees \ {u} |-> IF x = t THEN m ELSE trees[x]]
  /\ Same

(* Comparison: equality, ordering, and (given equality) equality of hashes.  *)
\* part = 1: some values are equal to nothing and comparable with nothing.
Compare(part, t, u, eq, ord, hasheq) ==
  /\ Readable(t) /\ Readable(u)
  /\ (eq = 1) = SameEntries(part, trees[t], trees[u])
  /\ ord = LexCompare(part, trees[t], trees[u])
  /\ eq = 1 => hasheq = 1
  /\ UNCHANGED vars
Debugged(t, pretty, s) ==
  Readable(t) /\ s = (IF pretty = 1 THEN PrettyString(trees[t]) ELSE DebugString(trees[t])) /\ UNCHANGED vars
\* The same output taken apart: its pairs of key and value.
DebugList(t, s) ==
  /\ Readable(t)
  /\ LET m == trees[t]
     IN  /\ Len(s) = Size(m) /\ Ascending(s)
         /\ Yes(\A i \in 1..Len(s) : Lookup(m, s[i][1]) = s[i][2])
  /\ UNCHANGED vars

-----------------------------------------------------------------------------
(* Entries.  A handle h is [t, k, g, st], st one of "occ", "vac", "ref"      *)
(* ("ref": a reference to the stored value of k is all that is left of it).  *)
EntMap(h) == trees[ents[h].t]
EntKey(h) == ents[h].k
IsEnt(h, S) == IF h \in DOMAIN ents THEN ents[h].st \in S ELSE FALSE
SetEnt(h, x) == ents' = (h :> x) @@ ents
EndEnt(h) == ents' = [x \in DOMAIN ents \ {h} |-> ents[x]]
OpenEntry(h, t, k, g, occ) ==
  /\ Writable(t) /\ h \notin DOMAIN ents
  /\ (occ = 1) = (k \in DOMAIN trees[t])
  /\ SetEnt(h, [t |-> t, k |-> k, g |-> g, st |-> IF occ = 1 THEN "occ" ELSE "vac"])
  /\ UNCHANGED <<trees, curs, hurt, flocks>>
\* key(): for an occupied entry the stored key object, for a vacant one the given.
EntryKey(h, k, g) ==
  /\ IsEnt(h, {"occ", "vac"})
  /\ k = EntKey(h)
  /\ g = IF IsEnt(h, {"occ"}) THEN Tag(EntMap(h)[k]) ELSE ents[h].g
  /\ UNCHANGED vars
EntryGet(h, r) == IsEnt(h, {"occ"}) /\ r = Lookup(EntMap(h), EntKey(h)) /\ UNCHANGED vars
\* get_mut / insert on an occupied entry, or a write through the reference:
\* reads the old value, stores w.
EntryWrite(h, w, r) ==
  /\ IsEnt(h, {"occ", "ref"})
  /\ r = Lookup(EntMap(h), EntKey(h))
  /\ SetTree(ents[h].t, Store(EntMap(h), EntKey(h), w, 0)) /\ Same
\* insert on a vacant entry leaves the caller with a reference to the value.
VacantInsert(h, v) ==
  /\ IsEnt(h, {"vac"})
  /\ SetTree(ents[h].t, Store(EntMap(h), EntKey(h), v, ents[h].g))
  /\ SetEnt(h, [ents[h] EXCEPT !.st = "ref"]) /\ UNCHANGED <<curs, hurt, flocks>>
EntryIntoMut(h) ==
  IsEnt(h, {"occ"}) /\ SetEnt(h, [ents[h] EXCEPT !.st = "ref"]) /\ UNCHANGED <<trees, curs, hurt, flocks>>
EntryRemove(h, r) ==
  /\ IsEnt(h, {"occ"}) /\ r = <<EntKey(h), EntMap(h)[EntKey(h)]>>
  /\ SetTree(ents[h].t, Del(EntMap(h), EntKey(h)))
  /\ EndEnt(h) /\ UNCHANGED <<curs, hurt, flocks>>
EntryIntoKey(h, k, g) ==
  IsEnt(h, {"vac"}) /\ k = EntKey(h) /\ g = ents[h].g /\ EndEnt(h) /\ UNCHANGED <<trees, curs, hurt, flocks>>
EntryDrop(h) == h \in DOMAIN ents /\ EndEnt(h) /\ UNCHANGED <<trees, curs, hurt, flocks>>

-----------------------------------------------------------------------------
(* Ownership.  What is alive: the values in trees and in unfinished          *)
(* consuming iterators.  Clones made by copy on write may share: then at     *)
(* least the distinct ones and at most the sum are alive.                    *)
OwnedCurs == {c \in DOMAIN curs : curs[c].kind \in {"own", "merge"}}
LiveMax == SumSet({0}) + MapThenSumSet(LAMBDA t : Size(trees[t]), DOMAIN trees)
                       + MapThenSumSet(LAMBDA c : Left(c), {c \in OwnedCurs : TRUE})
                       + MapThenSumSet(LAMBDA f : Size(flocks[f].m) * flocks[f].n, DOMAIN flocks)
LiveMin == LET per == {Size(trees[t]) : t \in DOMAIN trees} \cup {Left(c) : c \in OwnedCurs}
                      \cup {Size(flocks[f].m) : f \in {g \in DOMAIN flocks : flocks[g].n > 0}}
           IN  IF per = {} THEN 0 ELSE Max(per)
Nothing == DOMAIN trees = {} /\ DOMAIN curs = {} /\ DOMAIN flocks = {}
\* vals, keys: living value / key objects; bad: objects dropped twice or used
\* after being dropped; mem: allocations made by the library and not yet freed
\* (-1: not measured); shared: the pointer kind shares clones.
Live(shared, vals, keys, bad, mem) ==
  /\ bad = 0
  /\ vals <= LiveMax
  /\ vals >= IF shared = 1 THEN LiveMin ELSE LiveMax
  /\ keys >= vals
  /\ Nothing => keys = 0 /\ (mem = None \/ mem = 0)
  /\ UNCHANGED vars

\* The same for element types that are not counted: memory only.
MemoryReturned(mem) ==
  /\ Nothing => mem = 0
  /\ UNCHANGED vars

-----------------------------------------------------------------------------
(* Panics in user code.  The operation on t was given the pairs s and was    *)
(* interrupted: afterwards t holds some genuine entries, no more is known.   *)
Genuine(t) == IF t \in DOMAIN hurt THEN hurt[t] ELSE [k \in DOMAIN trees[t] |-> {trees[t][k]}]
\* what may be found under a key after pairs s were (partly) stored: any mix of
\* an old or given key object with an old or given value
AddGenuine(f, s) ==
  LET G == {s[i][1] : i \in 1..Len(s)}
      E(k) == (IF k \in DOMAIN f THEN f[k] ELSE {}) \cup {s[i][2] : i \in {j \in 1..Len(s) : s[j][1] = k}}
  IN  [k \in DOMAIN f \cup G |->
         IF k \notin G THEN f[k]
         ELSE {Ent(Val(a), Tag(b)) : a \in E(k), b \in E(k)}]
Interrupt(S, t, s) ==      \* S: trees consumed by the operation besides t
  /\ hurt' = (t :> AddGenuine(
        FoldSet(LAMBDA u, f : LET g == Genuine(u) IN
                   [k \in DOMAIN f \cup DOMAIN g |->
                      (IF k \in DOMAIN f THEN f[k] ELSE {}) \cup (IF k \in DOMAIN g THEN g[k] ELSE {})],
                EmptyMap, {u \in S \cup {t} : u \in DOMAIN trees \cup DOMAIN hurt}), s))
        @@ [u \in DOMAIN hurt \ S |-> hurt[u]]
  /\ trees' = [u \in DOMAIN trees \ (S \cup {t}) |-> trees[u]]
  \* an entry handle in use was consumed
  /\ ents' = [h \in {x \in DOMAIN ents : ents[x].t \notin S \cup {t}} |-> ents[h]]
  /\ UNCHANGED <<curs, flocks>>
\* Its later life: calls on it may panic again, but whatever they hand out is
\* genuine, and what they are given becomes so.
IsGenuine(t, k, e) == IF k \in DOMAIN hurt[t] THEN e \in hurt[t][k] ELSE FALSE
GenuineValue(t, k, r) == IF r = None THEN TRUE
                         ELSE IF k \in DOMAIN hurt[t] THEN r \in {Val(e) : e \in hurt[t][k]} ELSE FALSE
GenuinePair(t, r) == IF r = << >> THEN TRUE ELSE IsGenuine(t, r[1], r[2])
SetHurt(t, f) == hurt' = (t :> f) @@ hurt
OnlyHurt == UNCHANGED <<trees, curs, ents, flocks>>
HurtScan(t, s) ==
  /\ t \in DOMAIN hurt
  /\ Yes(\A i \in 1..Len(s) : IsGenuine(t, s[i][1], s[i][2]))
  /\ UNCHANGED vars
HurtGet(t, k, r) == t \in DOMAIN hurt /\ GenuineValue(t, k, r) /\ UNCHANGED vars
HurtInsert(t, k, v, g, r) ==
  /\ t \in DOMAIN hurt /\ GenuineValue(t, k, r)
  /\ SetHurt(t, AddGenuine(hurt[t], <<<<k, Ent(v, g)>>>>)) /\ OnlyHurt
HurtRemove(t, r) == t \in DOMAIN hurt /\ GenuinePair(t, r) /\ UNCHANGED vars
\* entry(k): removed if occupied, else v inserted.
HurtEntry(t, k, v, g, r) ==
  /\ t \in DOMAIN hurt /\ GenuinePair(t, r)
  /\ SetHurt(t, AddGenuine(hurt[t], <<<<k, Ent(v, g)>>>>)) /\ OnlyHurt
\* Mutable iteration: v+k written to every value handed out.
HurtMut(t, v, s) ==
  /\ t \in DOMAIN hurt
  /\ Yes(\A i \in 1..Len(s) : IsGenuine(t, s[i][1], s[i][2]) \/ Val(s[i][2]) = v + s[i][1])
  /\ SetHurt(t, [k \in DOMAIN hurt[t] |-> hurt[t][k] \cup {Ent(v + k, Tag(e)) : e \in hurt[t][k]}]) /\ OnlyHurt
HurtConsume(t, s) ==
  /\ t \in DOMAIN hurt
  /\ Yes(\A i \in 1..Len(s) : IsGenuine(t, s[i][1], s[i][2]))
  /\ hurt' = [u \in DOMAIN hurt \ {t} |-> hurt[u]] /\ OnlyHurt
HurtCopy(t, u) == t \in DOMAIN hurt /\ Fresh(u) /\ SetHurt(u, hurt[t]) /\ OnlyHurt
HurtDrop(t) == t \in DOMAIN hurt /\ hurt' = [u \in DOMAIN hurt \ {t} |-> hurt[u]] /\ UNCHANGED <<trees, curs, ents, flocks>>
\* After an interrupted operation objects may have been leaked, never released twice.
HurtLive(bad, vals) == bad = 0 /\ vals >= 0 /\ UNCHANGED vars
=============================================================================

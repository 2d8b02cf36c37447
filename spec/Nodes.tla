-------------------------------- MODULE Nodes --------------------------------
(* The B+-tree as palmtree builds it, as functions on nested values.         *)
(*                                                                           *)
(* A leaf is [ks, vs]: keys in order and their values.  A branch is          *)
(* [hb, ks, cs]: children and, for each, a key no lower than any key below   *)
(* it (its separator); hb says whether the children are branches.  A place   *)
(* in a tree is a path, the child numbers from the root down, and a pointer  *)
(* to an entry is a path to a leaf and an index in it (PathedPointer).       *)
(*                                                                           *)
(* BUG is a set of names of design mistakes; {} is the design as it is.      *)
(* Every name is a control: with it, some property must be seen to fail.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS B, L, BUG
Bug(x) == x \in BUG

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* x takes the place of element i, y comes after it
Pair(s, i, x, y) == SubSeq(s, 1, i - 1) \o <<x, y>> \o SubSeq(s, i + 1, Len(s))

LeafOf(ks, vs) == [ks |-> ks, vs |-> vs]
BranchOf(hb, ks, cs) == [hb |-> hb, ks |-> ks, cs |-> cs]
IsBranch(n) == "hb" \in DOMAIN n
High(n) == Last(n.ks)
BranchFull(n) == Len(n.ks) = B
LeafFull(n) == Len(n.ks) = L
Unit(k, v) == BranchOf(FALSE, <<k>>, <<LeafOf(<<k>>, <<v>>)>>)
NoRoot == [hb |-> FALSE, ks |-> <<0>>, cs |-> << >>]      \* no node at all
HasRoot(n) == n # NoRoot

RECURSIVE At(_, _), Put(_, _, _), Flat(_)
At(n, p) == IF p = << >> THEN n ELSE At(n.cs[Head(p)], Tail(p))
Put(n, p, x) == IF p = << >> THEN x ELSE [n EXCEPT !.cs[Head(p)] = Put(@, Tail(p), x)]
\* all entries from left to right
Flat(n) == IF ~HasRoot(n) THEN << >>
           ELSE IF ~IsBranch(n) THEN [i \in 1..Len(n.ks) |-> <<n.ks[i], n.vs[i]>>]
           ELSE LET RECURSIVE Cat(_)
                    Cat(i) == IF i > Len(n.cs) THEN << >> ELSE Flat(n.cs[i]) \o Cat(i + 1)
                IN  Cat(1)

-----------------------------------------------------------------------------
(* Searching in a sorted sequence (search.rs)                                *)
RECURSIVE Bin(_, _, _, _), BinPrev(_, _, _, _)
Bin(ks, k, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi) \div 2 IN IF ks[mid] < k THEN Bin(ks, k, mid + 1, hi) ELSE Bin(ks, k, lo, mid)
BinPrev(ks, k, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2 IN IF ks[mid] > k THEN BinPrev(ks, k, lo, mid - 1) ELSE BinPrev(ks, k, mid, hi)
\* index of k or of the closest higher key; 0 if there is none
FindKey(ks, k) == IF ks = << >> THEN 0 ELSE LET i == Bin(ks, k, 1, Len(ks)) IN IF ks[i] < k THEN 0 ELSE i
FindNext(ks, k) == Bin(ks, k, 1, Len(ks))
FindPrev(ks, k) == BinPrev(ks, k, 1, Len(ks))
\* slice::binary_search: <<found, index or place to insert at>>
Search(ks, k) == LET i == FindKey(ks, k) IN
  IF i = 0 THEN <<FALSE, Len(ks) + 1>> ELSE <<ks[i] = k, i>>

\* what the above must mean, for sorted ks
SearchMeans(ks, k) ==
  LET low == {i \in 1..Len(ks) : ks[i] < k}  n == Cardinality(low) IN
  /\ FindKey(ks, k) = IF n = Len(ks) THEN 0 ELSE n + 1
  /\ ks # << >> => FindNext(ks, k) = IF n = Len(ks) THEN n ELSE n + 1
  /\ ks # << >> => FindPrev(ks, k) = LET m == Cardinality({i \in 1..Len(ks) : ks[i] <= k}) IN IF m = 0 THEN 1 ELSE m
  /\ Search(ks, k) = <<\E i \in 1..Len(ks) : ks[i] = k, n + 1>>

-----------------------------------------------------------------------------
(* Lookup (branch.rs get / get_mut / get_linear)                             *)
NoPath == <<0>>
RECURSIVE Walk(_, _)
Walk(n, k) == LET i == FindKey(n.ks, k) IN
  IF i = 0 THEN NoPath
  ELSE IF n.hb THEN LET w == Walk(n.cs[i], k) IN IF w = NoPath THEN NoPath ELSE <<i>> \o w
  ELSE <<i>>
Get(n, k) ==
  IF ~HasRoot(n) THEN -1
  ELSE LET w == Walk(n, k) IN
       IF w = NoPath THEN -1
       ELSE LET lf == At(n, w)  f == Search(lf.ks, k) IN IF f[1] THEN lf.vs[f[2]] ELSE -1
SetVal(n, k, v) == LET w == Walk(n, k)  f == Search(At(n, w).ks, k) IN
  Put(n, w, [At(n, w) EXCEPT !.vs[f[2]] = v])

-----------------------------------------------------------------------------
(* Pointers to entries                                                       *)
Null == [nul |-> TRUE, st |-> << >>, j |-> 0]
Ptr(st, j) == [nul |-> FALSE, st |-> st, j |-> j]
PKey(n, p) == At(n, p.st).ks[p.j]
PVal(n, p) == At(n, p.st).vs[p.j]

RECURSIVE Fwd(_, _), Bwd(_, _)
Fwd(n, st) ==
  IF st = << >> THEN Null
  ELSE LET p == Front(st)  i == Last(st) + 1  br == At(n, p) IN
       IF i > Len(br.ks) THEN Fwd(n, p)
       ELSE IF br.hb THEN Fwd(n, p \o <<i, 0>>) ELSE Ptr(Append(p, i), 1)
Bwd(n, st) ==
  IF st = << >> THEN Null
  ELSE LET p == Front(st)  i == Last(st) - 1  br == At(n, p) IN
       IF i < 1 THEN Bwd(n, p)
       ELSE IF br.hb THEN Bwd(n, p \o <<i, Len(br.cs[i].ks) + 1>>) ELSE Ptr(Append(p, i), Len(br.cs[i].ks))
StepForward(n, p) == IF p.nul THEN p
  ELSE IF p.j < Len(At(n, p.st).ks) THEN Ptr(p.st, p.j + 1) ELSE Fwd(n, p.st)
StepBack(n, p) == IF p.nul THEN p
  ELSE IF p.j > 1 THEN Ptr(p.st, p.j - 1) ELSE Bwd(n, p.st)

RECURSIVE LowPath(_), HighPath(_)
LowPath(n) == IF n.ks = << >> THEN NoPath ELSE IF n.hb THEN <<1>> \o LowPath(n.cs[1]) ELSE <<1>>
HighPath(n) == IF n.ks = << >> THEN NoPath ELSE IF n.hb THEN <<Len(n.ks)>> \o HighPath(n.cs[Len(n.ks)]) ELSE <<Len(n.ks)>>
Lowest(n) == IF n.ks = << >> THEN Null ELSE Ptr(LowPath(n), 1)
Highest(n) == IF n.ks = << >> THEN Null ELSE LET p == HighPath(n) IN Ptr(p, Len(At(n, p).ks))

\* where k is, or where in a leaf it would go; null when k is above every separator
ExactKey(n, k) == LET w == Walk(n, k) IN
  IF w = NoPath THEN [found |-> FALSE, p |-> Null]
  ELSE LET f == Search(At(n, w).ks, k) IN [found |-> f[1], p |-> Ptr(w, f[2])]

KeyOrHigher(n, k) == LET w == Walk(n, k) IN
  IF w = NoPath THEN Null
  ELSE LET p == Ptr(w, FindNext(At(n, w).ks, k)) IN
       IF PKey(n, p) < k /\ ~Bug("nostep") THEN StepForward(n, p) ELSE p
HigherThanKey(n, k) == LET w == Walk(n, k) IN
  IF w = NoPath THEN Null
  ELSE LET p == Ptr(w, FindNext(At(n, w).ks, k)) IN
       IF (IF Bug("exclonly") THEN PKey(n, p) = k ELSE PKey(n, p) <= k) THEN StepForward(n, p) ELSE p
KeyOrLower(n, k) == LET w == Walk(n, k) IN
  IF w = NoPath THEN Highest(n)
  ELSE LET p == Ptr(w, FindNext(At(n, w).ks, k)) IN
       IF PKey(n, p) > k /\ ~Bug("nostepback") THEN StepBack(n, p) ELSE p
LowerThanKey(n, k) == LET w == Walk(n, k) IN
  IF w = NoPath THEN Highest(n)
  ELSE LET p == Ptr(w, FindPrev(At(n, w).ks, k)) IN
       IF PKey(n, p) >= k THEN StepBack(n, p) ELSE p

-----------------------------------------------------------------------------
(* Splitting                                                                 *)
Half(n) == Len(n.ks) \div 2
LeftOf(n) == IF IsBranch(n) THEN BranchOf(n.hb, SubSeq(n.ks, 1, Half(n)), SubSeq(n.cs, 1, Half(n)))
             ELSE LeafOf(SubSeq(n.ks, 1, Half(n)), SubSeq(n.vs, 1, Half(n)))
\* (control "odd": the right half was taken to be as long as the left)
RightTo(n) == IF Bug("odd") THEN 2 * Half(n) ELSE Len(n.ks)
RightOf(n) == IF IsBranch(n) THEN BranchOf(n.hb, SubSeq(n.ks, Half(n) + 1, RightTo(n)), SubSeq(n.cs, Half(n) + 1, RightTo(n)))
              ELSE LeafOf(SubSeq(n.ks, Half(n) + 1, RightTo(n)), SubSeq(n.vs, Half(n) + 1, RightTo(n)))
\* child i of branch n split in two
SplitChild(n, i) ==
  LET l == LeftOf(n.cs[i])  r == RightOf(n.cs[i]) IN
  BranchOf(n.hb, Pair(n.ks, i, High(l), IF Bug("pairkey") THEN High(r) - 1 ELSE n.ks[i]), Pair(n.cs, i, l, r))

-----------------------------------------------------------------------------
(* Insertion at a pointer (search.rs insert, push_last; entry.rs insert).    *)
(* The result: [t: "ok" / "full" / "bad", n: the tree, p: where it went].    *)
LeafInsert(n, st, j, k, v) ==
  LET lf == At(n, st) IN
  [t |-> "ok", n |-> Put(n, st, LeafOf(InsertAt(lf.ks, j, k), InsertAt(lf.vs, j, v))), p |-> Ptr(st, j)]
Stack(p, st) == [x \in 1..Len(st) |-> <<p \o SubSeq(st, 1, x - 1), st[x]>>]
RECURSIVE Up(_, _, _, _)
Up(n, stack, k, v) ==
  IF stack = << >> THEN [t |-> "full", n |-> n, p |-> Null]
  ELSE LET p == Last(stack)[1]  i == Last(stack)[2]  br == At(n, p) IN
       IF BranchFull(br) THEN Up(n, Front(stack), k, v)
       ELSE LET br2 == SplitChild(br, i)
                n2  == Put(n, p, br2)
                ch  == IF (IF Bug("choose") THEN k < br2.ks[i] + 2 ELSE k <= br2.ks[i]) THEN i ELSE i + 1
                w   == IF br.hb THEN Walk(br2.cs[ch], k) ELSE << >>
                st  == p \o <<ch>> \o w
            IN IF w = NoPath THEN [t |-> "bad", n |-> n2, p |-> Null]
               ELSE LET lf == At(n2, st)  f == Search(lf.ks, k) IN
                    IF LeafFull(lf) THEN Up(n2, Front(stack) \o Stack(p \o <<ch>>, w), k, v)
                    ELSE IF f[1] THEN [t |-> "bad", n |-> n2, p |-> Null]
                    ELSE LeafInsert(n2, st, f[2], k, v)
PtrInsert(n, p, k, v) ==
  IF LeafFull(At(n, p.st)) THEN Up(n, Stack(<< >>, p.st), k, v) ELSE LeafInsert(n, p.st, p.j, k, v)
RECURSIVE RaiseRight(_, _)
RaiseRight(n, k) ==
  LET m == [n EXCEPT !.ks[Len(n.ks)] = k] IN
  IF n.hb THEN [m EXCEPT !.cs[Len(n.ks)] = RaiseRight(@, k)] ELSE m
PushLast(n, k, v) ==
  LET m == IF Bug("noraise") THEN [n EXCEPT !.ks[Len(n.ks)] = k] ELSE RaiseRight(n, k)  p == HighPath(m) IN
  PtrInsert(m, Ptr(p, Len(At(m, p).ks) + 1), k, v)
SplitRoot(n) == LET l == LeftOf(n)  r == RightOf(n) IN BranchOf(TRUE, <<High(l), High(r)>>, <<l, r>>)
RECURSIVE Grow(_, _, _, _)
Grow(n, p, k, v) ==       \* n has entries; k is not among them; p: where it belongs (Null: beyond)
  LET res == IF p.nul THEN PushLast(n, k, v) ELSE PtrInsert(n, p, k, v) IN
  IF res.t # "full" THEN res
  ELSE LET m == SplitRoot(res.n)  e == ExactKey(m, k) IN
       IF e.found THEN [t |-> "bad", n |-> m, p |-> Null] ELSE Grow(m, e.p, k, v)

\* insert of the entry API; size: the number of entries the tree believes it has
\* (the old value or -1, the new tree and size, and where the value is)
TreeInsert(n, size, k, v) ==
  LET e == IF HasRoot(n) THEN ExactKey(n, k) ELSE [found |-> FALSE, p |-> Null] IN
  IF e.found THEN [t |-> "ok", r |-> PVal(n, e.p), n |-> Put(n, e.p.st, [At(n, e.p.st) EXCEPT !.vs[e.p.j] = v]), size |-> size, p |-> e.p]
  ELSE IF size = 0 THEN [t |-> "ok", r |-> -1, n |-> Unit(k, v), size |-> 1, p |-> Ptr(<<1>>, 1)]
  ELSE LET res == Grow(n, e.p, k, v) IN [t |-> res.t, r |-> -1, n |-> res.n, size |-> size + 1, p |-> res.p]

-----------------------------------------------------------------------------
(* The recursive insertion (branch.rs insert, leaf.rs insert).               *)
LeafRec(lf, k, v) == LET f == Search(lf.ks, k) IN
  IF f[1] THEN [t |-> "replaced", r |-> lf.vs[f[2]], n |-> [lf EXCEPT !.vs[f[2]] = v]]
  ELSE IF LeafFull(lf) THEN [t |-> "full", r |-> -1, n |-> lf]
  ELSE [t |-> "added", r |-> -1, n |-> LeafOf(InsertAt(lf.ks, f[2], k), InsertAt(lf.vs, f[2], v))]
RECURSIVE InsRec(_, _, _)
InsRec(n, k, v) ==
  LET i == FindKey(n.ks, k) IN
  IF i # 0
  THEN LET res == IF n.hb THEN InsRec(n.cs[i], k, v) ELSE LeafRec(n.cs[i], k, v)
           m   == [n EXCEPT !.cs[i] = res.n] IN
       IF res.t # "full" THEN [res EXCEPT !.n = m]
       ELSE IF BranchFull(n) THEN [t |-> "full", r |-> -1, n |-> m]
       ELSE InsRec(SplitChild(m, i), k, v)
  ELSE LET e == Len(n.ks) IN
       IF n.hb
       THEN LET res == InsRec(n.cs[e], k, v) IN
            IF res.t # "full"
            THEN [res EXCEPT !.n = [n EXCEPT !.cs[e] = res.n, !.ks[e] = k]]
            ELSE LET m == [n EXCEPT !.cs[e] = res.n] IN
                 IF BranchFull(n) THEN [t |-> "full", r |-> -1, n |-> m]
                 ELSE InsRec(SplitChild(m, e), k, v)
       ELSE LET lf == n.cs[e] IN
            IF ~LeafFull(lf)
            THEN [t |-> "added", r |-> -1, n |-> [n EXCEPT !.cs[e] = LeafOf(Append(lf.ks, k), Append(lf.vs, v)), !.ks[e] = k]]
            ELSE IF BranchFull(n) THEN [t |-> "full", r |-> -1, n |-> n]
            ELSE [t |-> "added", r |-> -1, n |-> BranchOf(FALSE, Append(n.ks, k), Append(n.cs, LeafOf(<<k>>, <<v>>)))]
TreeInsertRec(n, size, k, v) ==
  IF ~HasRoot(n) \/ (size = 0 /\ ~Bug("recempty")) THEN [t |-> "ok", r |-> -1, n |-> Unit(k, v), size |-> 1]
  ELSE IF size = 0 /\ n.ks = << >> THEN [t |-> "bad", r |-> -1, n |-> n, size |-> 0]
  ELSE LET res == InsRec(n, k, v) IN
       CASE res.t = "added" -> [t |-> "ok", r |-> -1, n |-> res.n, size |-> size + 1]
         [] res.t = "replaced" -> [t |-> "ok", r |-> res.r, n |-> res.n, size |-> size]
         [] OTHER -> LET ti == TreeInsert(BranchOf(TRUE, <<High(res.n)>>, <<res.n>>), size, k, v) IN
                     [t |-> ti.t, r |-> ti.r, n |-> ti.n, size |-> ti.size]

-----------------------------------------------------------------------------
(* Removal (search.rs remove)                                                *)
RECURSIVE Lower(_, _, _), Prune(_, _)
\* the branch at st has a new highest key h: tell the ancestors it concerns
Lower(n, st, h) ==
  IF st = << >> \/ Bug("nolower") THEN n
  ELSE LET p == Front(st)  i == Last(st)  m == Put(n, p, [At(n, p) EXCEPT !.ks[i] = h]) IN
       IF i = Len(At(n, p).ks) /\ ~Bug("lowerone") THEN Lower(m, p, h) ELSE m
\* the node at st has become empty: remove it, and what becomes empty by that
Prune(n, st) ==
  IF st = << >> THEN n
  ELSE LET p == Front(st)  i == Last(st)  br == At(n, p)
           br2 == BranchOf(br.hb, RemoveAt(br.ks, i), RemoveAt(br.cs, i))
           m == Put(n, p, br2) IN
       IF br2.ks = << >> THEN (IF Bug("noprune") THEN m ELSE Prune(m, p))
       ELSE IF i = Len(br2.ks) + 1 THEN Lower(m, p, High(br2)) ELSE m
RemoveAtPtr(n, p) ==
  LET lf == At(n, p.st)
      lf2 == LeafOf(RemoveAt(lf.ks, p.j), RemoveAt(lf.vs, p.j))
      m == Put(n, p.st, lf2)
  IN  IF lf2.ks = << >> THEN Prune(m, p.st) ELSE m

-----------------------------------------------------------------------------
(* Bulk load (lib.rs load): s a sequence of <<key, value>>                   *)
RECURSIVE PushStack(_, _), Fill(_, _, _, _, _), Fold(_), Trim(_)
PushStack(child, stack) ==
  LET parent == IF stack = << >> THEN BranchOf(TRUE, << >>, << >>) ELSE Last(stack)
      rest   == IF stack = << >> THEN << >> ELSE Front(stack)
      full   == BranchFull(parent)
      rest2  == IF full THEN PushStack(parent, rest) ELSE rest
      par2   == IF full THEN BranchOf(TRUE, << >>, << >>) ELSE parent
  IN  Append(rest2, BranchOf(TRUE, Append(par2.ks, High(child)), Append(par2.cs, child)))
AddLeaf(x) ==       \* x = [stack, parent, leaf]: the leaf goes into the parent
  LET full == BranchFull(x.parent)
      par  == IF full THEN BranchOf(FALSE, << >>, << >>) ELSE x.parent
  IN  [stack |-> IF full THEN PushStack(x.parent, x.stack) ELSE x.stack,
       parent |-> BranchOf(FALSE, Append(par.ks, High(x.leaf)), Append(par.cs, x.leaf)),
       leaf |-> LeafOf(<< >>, << >>)]
Fill(s, i, stack, parent, leaf) ==
  IF i > Len(s) THEN AddLeaf([stack |-> stack, parent |-> parent, leaf |-> leaf])
  ELSE LET x == IF LeafFull(leaf) THEN AddLeaf([stack |-> stack, parent |-> parent, leaf |-> leaf])
                ELSE [stack |-> stack, parent |-> parent, leaf |-> leaf]
       IN  Fill(s, i + 1, x.stack, x.parent, LeafOf(Append(x.leaf.ks, s[i][1]), Append(x.leaf.vs, s[i][2])))
\* (control "fold": only the top of the stack is folded away)
Fold(stack) == IF Len(stack) <= (IF Bug("fold") THEN 2 ELSE 1) THEN Head(stack) ELSE Fold(PushStack(Last(stack), Front(stack)))
Trim(n) == IF n.hb /\ Len(n.ks) = 1 THEN Trim(n.cs[1]) ELSE n
Load(s) ==
  IF s = << >> THEN NoRoot
  ELSE LET x == Fill(s, 1, << >>, BranchOf(FALSE, << >>, << >>), LeafOf(<< >>, << >>))
       IN  Trim(Fold(PushStack(x.parent, x.stack)))

-----------------------------------------------------------------------------
(* Iterators.  A range (bounds as in OrderedMap) opens two pointers.         *)
NoIter == [l |-> Null, r |-> Null]
OpenRange(n, b) ==
  IF ~HasRoot(n) THEN NoIter
  ELSE LET l == CASE b[1] = 0 -> Lowest(n) [] b[1] = 1 -> KeyOrHigher(n, b[2]) [] OTHER -> HigherThanKey(n, b[2])
           r == CASE b[3] = 0 -> Highest(n) [] b[3] = 1 -> KeyOrLower(n, b[4]) [] OTHER -> LowerThanKey(n, b[4])
       IN  IF l.nul \/ r.nul THEN NoIter ELSE [l |-> l, r |-> r]
\* next / next_back: <<iterator, reply>>, the reply << >> or <<key, value>>
IterNext(n, it) ==
  IF it.l.nul \/ it.r.nul THEN <<it, << >>>>
  ELSE LET lk == PKey(n, it.l)  rk == PKey(n, it.r) IN
       IF lk > rk /\ ~Bug("cross") THEN <<NoIter, << >>>>
       ELSE <<IF lk = rk THEN NoIter ELSE [it EXCEPT !.l = StepForward(n, it.l)], <<lk, PVal(n, it.l)>>>>
IterBack(n, it) ==
  IF it.l.nul \/ it.r.nul THEN <<it, << >>>>
  ELSE LET lk == PKey(n, it.l)  rk == PKey(n, it.r) IN
       IF lk > rk /\ ~Bug("cross") THEN <<NoIter, << >>>>
       ELSE <<IF lk = rk THEN NoIter ELSE [it EXCEPT !.r = StepBack(n, it.r)], <<rk, PVal(n, it.r)>>>>

(* The consuming iterator takes entries out of the leaves of a tree of its   *)
(* own: [n, l, r, rem].                                                      *)
OpenOwned(n, size) ==
  IF ~HasRoot(n) THEN [n |-> n, l |-> Null, r |-> Null, rem |-> size]
  ELSE [n |-> n, l |-> Lowest(n), r |-> Highest(n), rem |-> size]
PopFront(lf) == LeafOf(Tail(lf.ks), Tail(lf.vs))
PopBack(lf) == LeafOf(Front(lf.ks), Front(lf.vs))
RECURSIVE OwnNext(_, _), OwnBack(_, _)
OwnNext(o, fuel) ==
  IF ~HasRoot(o.n) \/ o.l.nul THEN <<o, << >>>>
  ELSE IF fuel = 0 THEN <<o, <<"endless">>>>
  ELSE LET lf == At(o.n, o.l.st) IN
       IF lf.ks = << >> THEN OwnNext([o EXCEPT !.l = StepForward(o.n, Ptr(o.l.st, 1))], fuel - 1)
       ELSE <<[o EXCEPT !.n = Put(o.n, o.l.st, PopFront(lf)), !.rem = @ - 1], <<lf.ks[1], lf.vs[1]>>>>
OwnBack(o, fuel) ==
  IF ~HasRoot(o.n) \/ o.rem = 0 \/ o.r.nul THEN <<o, << >>>>
  ELSE IF fuel = 0 THEN <<o, <<"endless">>>>
  ELSE LET lf == At(o.n, o.r.st) IN
       IF lf.ks = << >>
       THEN \* (control "ownback": the other end's pointer is stepped)
            OwnBack(IF Bug("ownback") THEN [o EXCEPT !.l = StepBack(o.n, Ptr(o.l.st, 1))]
                    \* the index kept is whatever it was, and leads back once per entry the leaf once had
                    ELSE [o EXCEPT !.r = IF o.r.j > 1 THEN Ptr(o.r.st, o.r.j - 1) ELSE Bwd(o.n, o.r.st)], fuel - 1)
       ELSE <<[o EXCEPT !.n = Put(o.n, o.r.st, PopBack(lf)), !.rem = @ - 1], <<Last(lf.ks), Last(lf.vs)>>>>

-----------------------------------------------------------------------------
(* What every tree must look like.                                           *)
RECURSIVE Height(_), Sound(_, _, _, _)
Height(n) == IF IsBranch(n) THEN 1 + (IF n.cs = << >> THEN 0 ELSE Height(n.cs[1])) ELSE 0
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
\* every key below n is above lo and at most hi (lo = -1 / hi = -1: no bound)
Sound(n, h, lo, hi) ==
  /\ n.ks # << >> /\ Sorted(n.ks)
  /\ lo # -1 => n.ks[1] > lo
  /\ IF IsBranch(n)
     THEN /\ Len(n.ks) = Len(n.cs) /\ Len(n.ks) <= B
          /\ n.hb = (h > 1)
          \* a branch's highest separator is the separator its parent has for it
          /\ hi # -1 => High(n) = hi
          /\ \A i \in 1..Len(n.cs) : Sound(n.cs[i], h - 1, IF i = 1 THEN lo ELSE n.ks[i - 1], n.ks[i])
     ELSE /\ h = 0 /\ Len(n.ks) = Len(n.vs) /\ Len(n.ks) <= L
          /\ High(n) <= hi
Shape(n, size) ==
  /\ size = Len(Flat(n))
  /\ IF ~HasRoot(n) THEN TRUE
     ELSE IF size = 0 THEN n.ks = << >>
     ELSE Sound(n, Height(n), -1, -1)
=============================================================================

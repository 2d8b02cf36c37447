-------------------------------- MODULE Fault --------------------------------
(* Who owns what while a palm tree changes, and what is left when user code  *)
(* panics.  Insertion (entry.rs, search.rs), removal and copying on write    *)
(* are cut into steps at every call of user code (a comparison, a clone):    *)
(* there the call may instead panic, and everything the call's own frame     *)
(* owns is dropped, while the tree stays as it is at that moment.            *)
(*                                                                           *)
(* Keys and values are objects <<key or value, identity>>.  Linear says that *)
(* no object has two owners and none is owned after it was dropped: whatever *)
(* is dropped or used later, nothing is dropped twice.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS B, L, BUG,
          N,         \* keys are 1..N
          SHARE,     \* whether there is a clone at all
          PANICS,    \* panics in one history
          AFTER      \* calls after the first panic

VARIABLES tree,      \* the root, or NoRoot
          other,     \* another tree, cloned from this one, or NoRoot
          shared,    \* the two still share their root
          size,      \* how many entries the tree believes to have
          loc,       \* what the running call owns: role -> sequence of objects or nodes
          pc, st, j, \* where it is
          want,      \* the keys the tree should have (while nothing has gone wrong)
          panics, calls,
          dead,      \* identities of the objects dropped
          next,      \* the next identity
          dropped2   \* some object was dropped twice
vars == <<tree, other, shared, size, loc, pc, st, j, want, panics, calls, dead, next, dropped2>>
Bug(x) == x \in BUG

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
PairAt(s, i, x, y) == SubSeq(s, 1, i - 1) \o <<x, y>> \o SubSeq(s, i, Len(s))

LeafOf(ks, vs) == [ks |-> ks, vs |-> vs]
BranchOf(hb, ks, cs) == [hb |-> hb, ks |-> ks, cs |-> cs]
NoRoot == BranchOf(FALSE, <<<<0, 0>>>>, << >>)
HasRoot(n) == n # NoRoot
IsBranch(n) == "hb" \in DOMAIN n
BranchFull(n) == Len(n.ks) >= B
LeafFull(n) == Len(n.ks) >= L
RECURSIVE At(_, _), Put(_, _, _)
At(n, p) == IF p = << >> THEN n ELSE At(n.cs[Head(p)], Tail(p))
Put(n, p, x) == IF p = << >> THEN x ELSE [n EXCEPT !.cs[Head(p)] = Put(@, Tail(p), x)]

\* the objects of a node and everything below it, in no particular order
RECURSIVE Objects(_), Cat(_)
Cat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Cat(Tail(ss))
Objects(n) == IF ~HasRoot(n) THEN << >>
              ELSE IF IsBranch(n) THEN n.ks \o Cat([i \in 1..Len(n.cs) |-> Objects(n.cs[i])])
              ELSE n.ks \o n.vs
Ids(s) == {s[i][2] : i \in 1..Len(s)}
RECURSIVE Entries(_)
Entries(n) == IF ~HasRoot(n) THEN << >>
              ELSE IF IsBranch(n) THEN Cat([i \in 1..Len(n.cs) |-> Entries(n.cs[i])])
              ELSE [i \in 1..Len(n.ks) |-> <<n.ks[i][1], n.vs[i][1]>>]

\* a deep copy: new objects with identities from i on
RECURSIVE Renew(_, _), RenewAll(_, _)
Fresh(s, i) == [x \in 1..Len(s) |-> <<s[x][1], i + x - 1>>]
RenewAll(cs, i) == IF cs = << >> THEN << >>
                   ELSE <<Renew(Head(cs), i)>> \o RenewAll(Tail(cs), i + Len(Objects(Head(cs))))
Renew(n, i) ==
  IF ~HasRoot(n) THEN n
  ELSE IF IsBranch(n) THEN BranchOf(n.hb, Fresh(n.ks, i), IF Bug("shallow") THEN n.cs ELSE RenewAll(n.cs, i + Len(n.ks)))
  ELSE LeafOf(Fresh(n.ks, i), Fresh(n.vs, i + Len(n.ks)))

-----------------------------------------------------------------------------
(* What a call owns.                                                         *)
Nothing == [key |-> << >>, val |-> << >>, sep |-> << >>, hi |-> << >>, nodes |-> << >>]
Owned(l) == l.key \o l.val \o l.sep \o l.hi \o Cat([i \in 1..Len(l.nodes) |-> Objects(l.nodes[i])])
Drops(s) == /\ dead' = dead \cup Ids(s)
            /\ dropped2' = (dropped2 \/ Ids(s) \cap dead # {} \/ Cardinality(Ids(s)) # Len(s))
NoDrop == UNCHANGED <<dead, dropped2>>
Id(n) == next' = next + n

Linear ==
  LET s == Objects(tree) \o (IF shared THEN << >> ELSE Objects(other)) \o Owned(loc)
  IN  /\ ~dropped2
      /\ Cardinality(Ids(s)) = Len(s)
      /\ Ids(s) \cap dead = {}
\* every entry is one that was given (the value of key k is k)
Genuine == \A i \in 1..Len(Entries(tree)) : Entries(tree)[i][1] = Entries(tree)[i][2]
\* while nothing has gone wrong, the tree holds what it should
Whole == (pc = "idle" /\ panics = 0) =>
           /\ {Entries(tree)[i][1] : i \in 1..Len(Entries(tree))} = want
           /\ Len(Entries(tree)) = Cardinality(want) /\ size = Len(Entries(tree))

-----------------------------------------------------------------------------
Init == /\ tree = NoRoot /\ other = NoRoot /\ shared = FALSE /\ size = 0 /\ loc = Nothing
        /\ pc = "idle" /\ st = << >> /\ j = 0 /\ want = {} /\ panics = 0 /\ calls = 0
        /\ dead = {} /\ next = 1 /\ dropped2 = FALSE

Go(p) == pc' = p
Frame(x) == UNCHANGED x
\* the call's frame is gone with everything it owns
Unwind == /\ Drops(Owned(loc)) /\ loc' = Nothing /\ Go("idle") /\ st' = << >> /\ j' = 0
          /\ Frame(<<tree, other, shared, size, want, next>>)

\* User code panics.  The calls of user code are at these places.
AtUserCode == pc \in {"cow", "search", "rsearch", "unit", "raise", "cmp", "hi", "walk", "root1", "root2", "again", "fix"}
Panic == /\ AtUserCode /\ panics < PANICS /\ panics' = panics + 1 /\ calls' = calls
         \* what a copy had already made is never dropped; what stands in for the new one is
         /\ Unwind
\* The library itself refuses (an index out of bounds, an unwrap of nothing):
\* only ever on what a panic left (Whole would fail otherwise).
Refuse == /\ Unwind /\ UNCHANGED <<panics, calls>>

May == pc = "idle" /\ (panics > 0 => calls < AFTER)
Count == calls' = (IF panics > 0 THEN calls + 1 ELSE calls) /\ panics' = panics

Insert(k) ==
  /\ May /\ Count
  /\ loc' = [Nothing EXCEPT !.key = <<<<k, next>>>>, !.val = <<<<k, next + 1>>>>] /\ Id(2)
  /\ Go(IF shared /\ HasRoot(tree) THEN "cow" ELSE "search")
  /\ want' = want \cup {k} /\ NoDrop /\ Frame(<<tree, other, shared, size, st, j>>)
Remove(k) ==
  /\ May /\ Count /\ HasRoot(tree)
  /\ loc' = Nothing /\ j' = k /\ st' = << >>
  /\ Go(IF shared THEN "rcow" ELSE "rsearch")
  /\ want' = want \ {k} /\ NoDrop /\ Frame(<<tree, other, shared, size, next>>)
Clone ==
  /\ SHARE /\ May /\ Count /\ ~shared /\ ~HasRoot(other) /\ HasRoot(tree)
  /\ shared' = TRUE /\ other' = tree
  /\ NoDrop /\ Frame(<<tree, size, loc, pc, st, j, want, next>>)
\* the tree is dropped, and a new one begun
DropTree ==
  /\ May /\ Count /\ panics > 0
  /\ (IF shared THEN NoDrop ELSE Drops(Objects(tree))) /\ tree' = NoRoot /\ shared' = FALSE /\ size' = 0 /\ want' = {}
  /\ Frame(<<other, loc, pc, st, j, next>>)
DropOther ==
  /\ May /\ Count /\ HasRoot(other)
  /\ (IF shared THEN NoDrop ELSE Drops(Objects(other))) /\ other' = NoRoot /\ shared' = FALSE
  /\ Frame(<<tree, size, loc, pc, st, j, want, next>>)

Copy == /\ pc \in {"cow", "rcow"}
        /\ tree' = Renew(tree, next) /\ Id(Len(Objects(tree))) /\ shared' = FALSE
        /\ Go(IF pc = "cow" THEN "search" ELSE "rsearch")
        /\ NoDrop /\ Frame(<<other, size, loc, st, j, want, panics, calls>>)
PanicInRemoveCopy == pc = "rcow" /\ panics < PANICS /\ panics' = panics + 1 /\ calls' = calls /\ Unwind

-----------------------------------------------------------------------------
(* Searching: by the numbers.                                                *)
Num(ks) == [i \in 1..Len(ks) |-> ks[i][1]]
FindKey(ks, k) == LET s == {i \in 1..Len(ks) : ks[i][1] >= k} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A x \in s : i <= x
RECURSIVE Down(_, _)
NoPath == <<0>>
Down(n, k) == LET i == FindKey(n.ks, k) IN
  IF i = 0 THEN NoPath
  ELSE IF n.hb THEN LET w == Down(n.cs[i], k) IN IF w = NoPath THEN NoPath ELSE <<i>> \o w
  ELSE <<i>>
Place(lf, k) == LET i == FindKey(lf.ks, k) IN IF i = 0 THEN Len(lf.ks) + 1 ELSE i
Has(lf, k) == \E i \in 1..Len(lf.ks) : lf.ks[i][1] = k
\* stack of <<path of a branch, child taken>>
Stack(p, w) == [x \in 1..Len(w) |-> <<p \o SubSeq(w, 1, x - 1), w[x]>>]
Done(n, sz) == tree' = n /\ size' = sz /\ loc' = Nothing /\ Go("idle") /\ st' = << >> /\ j' = 0
TheKey == loc.key[1][1]

Search ==
  /\ pc \in {"search", "again"}
  /\ LET w == IF HasRoot(tree) THEN Down(tree, TheKey) ELSE NoPath IN
     IF (IF w = NoPath THEN FALSE ELSE Has(At(tree, w), TheKey))
     THEN LET lf == At(tree, w)  i == CHOOSE i \in 1..Len(lf.ks) : lf.ks[i][1] = TheKey IN
          \* the value is exchanged; the old value and the given key go
          /\ Done(Put(tree, w, [lf EXCEPT !.vs[i] = loc.val[1]]), size) /\ Drops(<<lf.vs[i]>> \o loc.key)
     ELSE IF size = 0 THEN Go("unit") /\ NoDrop /\ Frame(<<tree, size, loc, st, j>>)
     ELSE IF w = NoPath
     THEN Go("raise") /\ st' = << >> /\ j' = 0 /\ NoDrop /\ Frame(<<tree, size, loc>>)
     ELSE Go("place") /\ st' = Stack(<< >>, w) /\ j' = Place(At(tree, w), TheKey) /\ NoDrop /\ Frame(<<tree, size, loc>>)
  /\ Frame(<<other, shared, want, panics, calls, next>>)
\* a new leaf; its separator is a clone of its key; the old root (it has nothing in it) goes
UnitStep ==
  /\ pc = "unit"
  /\ Drops(IF shared THEN << >> ELSE Objects(tree)) /\ Id(1) /\ shared' = FALSE
  /\ Done(BranchOf(FALSE, <<<<TheKey, next>>>>, <<LeafOf(loc.key, loc.val)>>), 1)
  /\ Frame(<<other, want, panics, calls>>)
\* down the right edge, every last separator replaced by a clone of the key
RaiseStep ==
  /\ pc = "raise"
  /\ LET p == [x \in 1..Len(st) |-> st[x][2]]  br == IF HasRoot(tree) THEN At(tree, p) ELSE NoRoot  i == Len(br.ks) IN
     IF i = 0 \/ ~HasRoot(tree) THEN Refuse
     ELSE /\ Drops(<<br.ks[i]>>) /\ Id(1)
          /\ tree' = Put(tree, p, [br EXCEPT !.ks[i] = <<TheKey, next>>])
          /\ st' = Append(st, <<p, i>>)
          /\ (IF br.hb THEN Go("raise") /\ j' = 0 ELSE Go("place") /\ j' = Len(br.cs[i].ks) + 1)
          /\ Frame(<<size, loc, other, shared, want, panics, calls>>)
PlaceStep ==
  /\ pc = "place"
  /\ LET p == Append(Last(st)[1], Last(st)[2])  lf == At(tree, p) IN
     IF LeafFull(lf) THEN Go("up") /\ Frame(<<tree, size, loc, st, j>>)
     ELSE Done(Put(tree, p, LeafOf(InsertAt(lf.ks, j, loc.key[1]), InsertAt(lf.vs, j, loc.val[1]))), size + 1)
  /\ NoDrop /\ Frame(<<other, shared, want, panics, calls, next>>)
Halves(n) == LET h == Len(n.ks) \div 2  k == Len(n.ks) IN
  IF IsBranch(n) THEN <<BranchOf(n.hb, SubSeq(n.ks, 1, h), SubSeq(n.cs, 1, h)), BranchOf(n.hb, SubSeq(n.ks, h + 1, k), SubSeq(n.cs, h + 1, k))>>
  ELSE <<LeafOf(SubSeq(n.ks, 1, h), SubSeq(n.vs, 1, h)), LeafOf(SubSeq(n.ks, h + 1, k), SubSeq(n.vs, h + 1, k))>>
\* up to the first branch with room; the child is taken out of it and split
\* (control "keepslot": the child is split where it is, the branch still has it)
UpStep ==
  /\ pc = "up"
  /\ IF st = << >>
     THEN \* the root is replaced by an empty one, and split
          \* (control "keeproot": it stays in place until the halves are complete)
          /\ tree' = (IF Bug("keeproot") THEN tree ELSE BranchOf(TRUE, << >>, << >>))
          /\ loc' = [loc EXCEPT !.nodes = Halves(tree)]
          /\ Go("root1") /\ Frame(<<st, j>>)
     ELSE LET p == Last(st)[1]  i == Last(st)[2]  br == At(tree, p) IN
          IF BranchFull(br) THEN Go("up") /\ st' = Front(st) /\ Frame(<<tree, loc, j>>)
          ELSE /\ tree' = (IF Bug("keepslot") THEN tree ELSE Put(tree, p, BranchOf(br.hb, RemoveAt(br.ks, i), RemoveAt(br.cs, i))))
               /\ loc' = [loc EXCEPT !.sep = IF Bug("keepslot") THEN << >> ELSE <<br.ks[i]>>, !.nodes = Halves(br.cs[i])]
               /\ Go("cmp") /\ j' = i /\ st' = st
  /\ NoDrop /\ Frame(<<size, other, shared, want, panics, calls, next>>)
\* the key is compared with the left half's highest
CmpStep ==
  /\ pc = "cmp" /\ Go("hi") /\ NoDrop
  /\ Frame(<<tree, other, shared, size, loc, st, j, want, panics, calls, next>>)
High(n) == Last(n.ks)
\* which is cloned; then both halves go in
HiStep ==
  /\ pc = "hi"
  /\ LET p == Last(st)[1]  i == j  br == At(tree, p)  l == loc.nodes[1]  r == loc.nodes[2]
         out == IF Bug("keepslot") THEN BranchOf(br.hb, RemoveAt(br.ks, i), RemoveAt(br.cs, i)) ELSE br
         sep == IF Bug("keepslot") THEN <<br.ks[i]>> ELSE loc.sep
     IN  /\ tree' = Put(tree, p, BranchOf(br.hb, PairAt(out.ks, i, <<High(l)[1], next>>, sep[1]), PairAt(out.cs, i, l, r)))
         /\ j' = IF TheKey <= High(l)[1] THEN i ELSE i + 1
  /\ Id(1) /\ loc' = [loc EXCEPT !.sep = << >>, !.nodes = << >>] /\ Go("walk") /\ NoDrop
  /\ Frame(<<other, shared, size, st, want, panics, calls>>)
WalkStep ==
  /\ pc = "walk"
  /\ LET p == Last(st)[1]  br == At(tree, p)  w == IF br.hb THEN Down(br.cs[j], TheKey) ELSE << >> IN
     IF w = NoPath THEN Refuse
     ELSE LET q == p \o <<j>> \o w  lf == At(tree, q) IN
          IF LeafFull(lf) THEN /\ st' = Front(st) \o Stack(p \o <<j>>, w) /\ Go("up") /\ NoDrop
                               /\ Frame(<<tree, other, shared, size, loc, j, want, panics, calls, next>>)
          ELSE IF Has(lf, TheKey) THEN Refuse
          ELSE /\ st' = Front(st) \o <<<<p, j>>>> \o Stack(p \o <<j>>, w) /\ j' = Place(lf, TheKey) /\ Go("place") /\ NoDrop
               /\ Frame(<<tree, other, shared, size, loc, want, panics, calls, next>>)
Root1 == /\ pc = "root1" /\ loc' = [loc EXCEPT !.hi = <<<<High(loc.nodes[1])[1], next>>>>] /\ Id(1) /\ Go("root2") /\ NoDrop
         /\ Frame(<<tree, other, shared, size, st, j, want, panics, calls>>)
Root2 == /\ pc = "root2"
         /\ tree' = BranchOf(TRUE, <<loc.hi[1], <<High(loc.nodes[2])[1], next>>>>, loc.nodes) /\ Id(1)
         /\ loc' = [loc EXCEPT !.hi = << >>, !.nodes = << >>] /\ Go("again") /\ NoDrop
         /\ Frame(<<other, shared, size, st, j, want, panics, calls>>)

-----------------------------------------------------------------------------
(* Removal: the entry is taken out, then emptied nodes, then separators are  *)
(* lowered, one clone each.                                                  *)
RECURSIVE Prune(_, _)
\* [n: tree, drop: objects dropped, rest: the stack above the first branch not emptied, at: its path or <<-1>>, last: its last child went]
Prune(n, s) ==
  IF s = << >> THEN [n |-> n, drop |-> << >>, rest |-> << >>, at |-> <<-1>>, last |-> FALSE]
  ELSE LET p == Last(s)[1]  i == Last(s)[2]  br == At(n, p)
           x == <<br.ks[i]>> \o Objects(br.cs[i])
           b2 == BranchOf(br.hb, RemoveAt(br.ks, i), RemoveAt(br.cs, i))
           n2 == Put(n, p, b2)
       IN  IF b2.ks # << >> THEN [n |-> n2, drop |-> x, rest |-> Front(s), at |-> p, last |-> i = Len(b2.ks) + 1]
           ELSE LET q == Prune(n2, Front(s)) IN [q EXCEPT !.drop = x \o @]
RemoveStep ==
  /\ pc = "rsearch"
  /\ LET k == j  w == Down(tree, k) IN
     IF (IF w = NoPath THEN TRUE ELSE ~Has(At(tree, w), k))
     THEN Done(tree, size) /\ NoDrop
     ELSE LET lf == At(tree, w)  i == CHOOSE i \in 1..Len(lf.ks) : lf.ks[i][1] = k
              n == Put(tree, w, LeafOf(RemoveAt(lf.ks, i), RemoveAt(lf.vs, i)))
              q == Prune(n, Stack(<< >>, w))
          IN  /\ size' = size - 1
              /\ IF Len(lf.ks) > 1
                 \* key and value go to the caller, who drops them
                 THEN tree' = n /\ Drops(<<lf.ks[i], lf.vs[i]>>) /\ loc' = Nothing /\ Go("idle") /\ st' = << >> /\ j' = 0
                 ELSE /\ tree' = q.n /\ Drops(q.drop)
                      /\ loc' = [Nothing EXCEPT !.key = <<lf.ks[i]>>, !.val = <<lf.vs[i]>>]
                      /\ IF q.last /\ q.rest # << >>
                         THEN Go("fix") /\ st' = Append(q.rest, <<q.at, 0>>) /\ j' = 0
                         ELSE Go("out") /\ st' = << >> /\ j' = 0
  /\ Frame(<<other, shared, want, panics, calls, next>>)
\* the separator above becomes a clone of the highest key there is now
\* (control "take": the old one is read out first, and written over after)
Fix ==
  /\ pc = "fix"
  /\ LET src == Last(st)[1]  up == Front(st)  p == Last(up)[1]  i == Last(up)[2]  br == At(tree, p) IN
     /\ tree' = Put(tree, p, [br EXCEPT !.ks[i] = <<High(At(tree, src))[1], next>>]) /\ Drops(<<br.ks[i]>>) /\ Id(1)
     /\ IF i = Len(br.ks) /\ Len(up) > 1 THEN Go("fix") /\ st' = Append(Front(up), <<src, 0>>) ELSE Go("out") /\ st' = << >>
  /\ Frame(<<other, shared, size, loc, j, want, panics, calls>>)
\* a panic there with the old separator read out: it is dropped with the frame
PanicTaken ==
  /\ Bug("take") /\ pc = "fix" /\ panics < PANICS /\ panics' = panics + 1 /\ calls' = calls
  /\ LET up == Front(st)  br == At(tree, Last(up)[1]) IN Drops(Owned(loc) \o <<br.ks[Last(up)[2]]>>)
  /\ loc' = Nothing /\ Go("idle") /\ st' = << >> /\ j' = 0 /\ Frame(<<tree, other, shared, size, want, next>>)
Out == /\ pc = "out" /\ Drops(Owned(loc)) /\ loc' = Nothing /\ Go("idle")
       /\ Frame(<<tree, other, shared, size, st, j, want, panics, calls, next>>)

Next ==
  \/ \E k \in 1..N : Insert(k) \/ Remove(k)
  \/ Clone \/ DropTree \/ DropOther
  \/ Copy \/ Search \/ UnitStep \/ RaiseStep \/ PlaceStep \/ UpStep \/ CmpStep \/ HiStep \/ WalkStep \/ Root1 \/ Root2
  \/ RemoveStep \/ Fix \/ Out
  \/ Panic \/ PanicInRemoveCopy \/ PanicTaken
Spec == Init /\ [][Next]_vars

\* only the tree called is ever changed
Apart == [][(other' = other) \/ ~HasRoot(other) \/ ~HasRoot(other')]_vars

\* identities only matter in Linear
RECURSIVE Bare(_)
Bare(n) == IF IsBranch(n) THEN [hb |-> n.hb, ks |-> Num(n.ks), cs |-> [i \in 1..Len(n.cs) |-> Bare(n.cs[i])]] ELSE Num(n.ks)
view == <<Bare(tree), Bare(other), shared, size, Num(loc.key), Num(loc.val), Num(loc.sep), Num(loc.hi), [i \in 1..Len(loc.nodes) |-> Bare(loc.nodes[i])],
          pc, st, j, panics, calls, Linear, Genuine>>
=============================================================================

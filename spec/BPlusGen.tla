------------------------------- MODULE BPlusGen -------------------------------
(* Histories for the real crate, generated from the tree as implemented      *)
(* (Nodes.tla, at node sizes the crate accepts): random scenes aimed at the  *)
(* structure (filling and emptying chosen nodes, keys at and around          *)
(* separators), kept when they exercise the structure in a way no history    *)
(* before them did.  A way is a signature: the call, where in the tree it    *)
(* went (first, last, only child; full or not; stale separator or not), how  *)
(* many nodes came or went on each level.  The last step prints the history, *)
(* each call marked 1 when its signature was new.                            *)
EXTENDS Nodes, Json
CONSTANTS STARTS,     \* sizes of the trees to start from
          STEPS,      \* calls per history
          CALLS,      \* which calls are made
          LIMIT       \* most entries

VARIABLES root, size, hist, todo, news
vars == <<root, size, hist, todo, news>>

GAP == 16
Loaded(n) == Load([i \in 1..n |-> <<GAP * i, 0>>])

RECURSIVE Counts(_, _), Seps(_)
\* nodes per level, the root's first
Counts(n, d) ==
  IF ~IsBranch(n) THEN <<1>>
  ELSE LET RECURSIVE Sum(_)
           Sum(i) == IF i > Len(n.cs) THEN << >>
                     ELSE LET a == Counts(n.cs[i], d + 1)  b == Sum(i + 1) IN
                          [x \in 1..Len(a) |-> a[x] + (IF x <= Len(b) THEN b[x] ELSE 0)]
       IN  <<1>> \o (IF n.cs = << >> THEN << >> ELSE Sum(1))
Seps(n) == IF ~IsBranch(n) THEN << >>
           ELSE LET RECURSIVE Cat(_)
                    Cat(i) == IF i > Len(n.cs) THEN << >> ELSE Seps(n.cs[i]) \o Cat(i + 1)
                IN  n.ks \o Cat(1)
KeySeq(n) == LET f == Flat(n) IN [i \in 1..Len(f) |-> f[i][1]]
\* levels gained or lost at the bottom line up
Delta(a, b) == LET la == Counts(a, 0)  lb == Counts(b, 0) IN
  IF Len(la) # Len(lb) THEN <<Len(lb) - Len(la)>> ELSE [i \in 1..Len(la) |-> lb[i] - la[i]]

PosOf(i, len) == IF len = 1 THEN "o" ELSE IF i = 1 THEN "f" ELSE IF i = len THEN "l" ELSE "m"
FullOf(n) == Len(n.ks) = IF IsBranch(n) THEN B ELSE L
RECURSIVE PathSig(_, _)
PathSig(n, st) == IF st = << >> THEN <<FullOf(n)>>
                  ELSE <<PosOf(Head(st), Len(n.ks)), FullOf(n)>> \o PathSig(n.cs[Head(st)], Tail(st))
Stale(n, st) == LET br == At(n, Front(st)) IN br.ks[Last(st)] # High(At(n, st))
\* where key k goes
PlaceSig(n, k) ==
  IF ~HasRoot(n) \/ n.ks = << >> THEN <<"empty", HasRoot(n)>>
  ELSE LET e == ExactKey(n, k) IN
       IF e.p.nul THEN <<"beyond">> \o PathSig(n, HighPath(n))
       ELSE LET lf == At(n, e.p.st) IN
            <<e.found, IF e.p.j > Len(lf.ks) THEN "past" ELSE PosOf(e.p.j, Len(lf.ks)), Stale(n, e.p.st)>> \o PathSig(n, e.p.st)
\* how a pointer was found: stepped across how many levels
CrossSig(n, k, p) ==
  LET w == Walk(n, k) IN
  IF w = NoPath THEN <<"beyond", p.nul>>
  ELSE IF p.nul THEN <<"off", Stale(n, w)>>
  ELSE LET same == {i \in 1..Len(w) : SubSeq(w, 1, i) = SubSeq(p.st, 1, i)} IN
       <<Len(w) - Cardinality(same), PosOf(p.j, Len(At(n, p.st).ks)), Stale(n, w), w = p.st /\ PKey(n, p) = k>>
EndSig(n, kind, k, p) == IF kind = 0 THEN <<0>> ELSE <<kind>> \o CrossSig(n, k, p)
RangeSig(n, b) ==
  IF ~HasRoot(n) \/ n.ks = << >> THEN <<"empty">>
  ELSE LET l == CASE b[1] = 0 -> Lowest(n) [] b[1] = 1 -> KeyOrHigher(n, b[2]) [] OTHER -> HigherThanKey(n, b[2])
           r == CASE b[3] = 0 -> Highest(n) [] b[3] = 1 -> KeyOrLower(n, b[4]) [] OTHER -> LowerThanKey(n, b[4])
       IN  <<EndSig(n, b[1], b[2], l), EndSig(n, b[3], b[4], r),
             IF l.nul \/ r.nul THEN "none" ELSE IF PKey(n, l) > PKey(n, r) THEN "crossed" ELSE IF l = r THEN "one" ELSE IF l.st = r.st THEN "leaf" ELSE "wide">>

-----------------------------------------------------------------------------
(* One call.  The result is [n, size, sig].                                  *)
Apply(c) ==
  CASE c[1] = "ins" ->
         LET r == TreeInsert(root, size, c[2], 0) IN
         [n |-> r.n, size |-> r.size, sig |-> <<"ins", PlaceSig(root, c[2]), IF HasRoot(root) THEN Delta(root, r.n) ELSE << >>>>]
    [] c[1] = "insr" ->
         LET r == TreeInsertRec(root, size, c[2], 0) IN
         [n |-> r.n, size |-> r.size, sig |-> <<"insr", PlaceSig(root, c[2]), IF HasRoot(root) THEN Delta(root, r.n) ELSE << >>>>]
    [] c[1] = "rem" ->
         LET e == IF HasRoot(root) THEN ExactKey(root, c[2]) ELSE [found |-> FALSE, p |-> Null]
             m == IF e.found THEN RemoveAtPtr(root, e.p) ELSE root
         IN  [n |-> m, size |-> IF e.found THEN size - 1 ELSE size,
              sig |-> <<"rem", PlaceSig(root, c[2]), IF e.found THEN Delta(root, m) ELSE << >>>>]
    [] c[1] = "pop" ->
         IF size = 0 THEN [n |-> root, size |-> 0, sig |-> <<"pop", c[2], HasRoot(root)>>]
         ELSE LET p == IF c[2] = 1 THEN Highest(root) ELSE Lowest(root)
                  m == RemoveAtPtr(root, p)
              IN  [n |-> m, size |-> size - 1, sig |-> <<"pop", c[2], PathSig(root, p.st), Delta(root, m)>>]
    [] c[1] = "get" -> [n |-> root, size |-> size, sig |-> <<"get", PlaceSig(root, c[2])>>]
    [] c[1] = "range" -> [n |-> root, size |-> size, sig |-> <<"range", RangeSig(root, c[2])>>]
    [] c[1] = "rebuild" -> [n |-> Load(Flat(root)), size |-> size, sig |-> <<"rebuild", Len(Flat(root)) % L, IF HasRoot(root) THEN Counts(root, 0) ELSE << >>>>]

-----------------------------------------------------------------------------
(* Scenes: which calls to make next.                                         *)
On(o) == o \in CALLS
Some(S) == {RandomElement(S)}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
InsKind == IF On("insr") THEN {"ins", "ins", "insr"} ELSE {"ins"}
\* a random node of the tree: the entries below it are the target
RECURSIVE RandomPath(_)
RandomPath(n) == IF ~IsBranch(n) \/ RandomElement(1..5) = 1 THEN << >>
                 ELSE LET i == RandomElement(1..Len(n.cs)) IN <<i>> \o RandomPath(n.cs[i])
Near(k) == {k - 1, k, k + 1, k + 2, k + GAP \div 2} \ {-1}
\* keys worth using: stored ones, separators, and their neighbourhood
PoolKey(n) ==
  LET ks == KeySeq(n)  ss == Seps(n)
      base == CASE ks = << >> -> 5
                [] RandomElement(1..2) = 1 /\ ss # << >> -> ss[RandomElement(1..Len(ss))]
                [] OTHER -> ks[RandomElement(1..Len(ks))]
  IN  RandomElement(Near(base) \cup {base})
Beyond(n) == LET ss == Seps(n) \o KeySeq(n) IN IF ss = << >> THEN GAP ELSE (CHOOSE k \in {ss[i] : i \in 1..Len(ss)} : \A i \in 1..Len(ss) : k >= ss[i]) + 1
Repeat(n, c) == [i \in 1..n |-> c]
Scene(s) ==
  CASE s = "ins" -> {<<<<RandomElement(InsKind), PoolKey(root)>>>>}
    [] s = "rem" -> {<<<<"rem", PoolKey(root)>>>>}
    [] s = "kill" -> IF size = 0 THEN {<< >>}
         ELSE LET ks == KeySeq(At(root, RandomPath(root)))
                  o == RandomElement(1..3)
                  all == [i \in 1..Len(ks) |-> <<"rem", ks[i]>>]
              IN  {CASE o = 1 -> all [] o = 2 -> Rev(all) [] OTHER -> Tail(all)}
    [] s = "fill" -> IF size = 0 \/ size > LIMIT THEN {<< >>}
         ELSE LET ks == KeySeq(At(root, RandomPath(root)))
                  k == ks[RandomElement(1..Len(ks))]
                  up == RandomElement({1, -1})
                  o == RandomElement(InsKind)
                  m == RandomElement(1..(2 * L))
              IN  {[i \in 1..m |-> <<o, IF k + up * i < 0 THEN 0 ELSE k + up * i>>]}
    [] s = "asc" -> IF size > LIMIT THEN {<< >>}
         ELSE LET k == Beyond(root)  o == RandomElement(InsKind) IN {[i \in 1..RandomElement(1..(3 * L)) |-> <<o, k + 3 * i>>]}
    [] s = "pops" -> {Repeat(RandomElement(1..(2 * L)), <<"pop", RandomElement({0, 1})>>)}
    [] s = "empty" -> IF size > 60 THEN {<< >>} ELSE {Repeat(size, <<"pop", RandomElement({0, 1})>>)}
    [] s = "get" -> {<<<<"get", PoolKey(root)>>>>}
    [] s = "range" ->
         LET a == PoolKey(root)  b == PoolKey(root)
             lo == IF a < b THEN a ELSE b  hi == IF a < b THEN b ELSE a
             lk == RandomElement(0..2)  hk == RandomElement(0..2)
         IN  IF lo = hi /\ lk = 2 /\ hk = 2 THEN {<< >>}
             ELSE {<<<<"range", <<lk, IF lk = 0 THEN 0 ELSE lo, hk, IF hk = 0 THEN 0 ELSE hi>>>>>>}
    [] s = "rebuild" -> {<<<<"rebuild">>>>}
SCENES == <<"ins", "ins", "rem", "rem", "kill", "kill", "fill", "fill", "asc", "pops">>
  \o (IF On("get") THEN <<"get", "get", "get">> ELSE << >>)
  \o (IF On("range") THEN <<"range", "range", "range", "range", "range", "range">> ELSE << >>)
  \o (IF On("pops") THEN <<"pops", "pops", "pops">> ELSE << >>)
  \o (IF On("empty") THEN <<"empty", "empty">> ELSE << >>)
  \o (IF On("rebuild") THEN <<"rebuild">> ELSE << >>)

Init == /\ TLCSet(1, {})
        /\ \E n \in STARTS : root = Loaded(n) /\ size = n /\ hist = <<<<0, "start", n>>>>
        /\ todo = << >> /\ news = 0
Do(c) ==
  \E a \in {Apply(c)} : \E sig \in {ToString(a.sig)} : \E new \in {sig \notin TLCGet(1)} :
  /\ root' = a.n /\ size' = a.size
  /\ IF new THEN TLCSet(1, TLCGet(1) \cup {sig}) ELSE TRUE
  /\ hist' = Append(hist, <<IF new THEN 1 ELSE 0>> \o c)
  /\ news' = news + (IF new THEN 1 ELSE 0)
Ended == Len(hist) > STEPS
Next ==
  IF Ended THEN FALSE
  ELSE /\ IF todo # << >> THEN Do(Head(todo)) /\ todo' = Tail(todo)
          ELSE \E s \in Some(1..Len(SCENES)) : \E q \in Scene(SCENES[s]) :
                 IF q = << >> THEN UNCHANGED <<root, size, news>> /\ hist' = Append(hist, <<0, "skip">>) /\ todo' = << >>
                 ELSE Do(Head(q)) /\ todo' = Tail(q)
       /\ IF Len(hist') > STEPS /\ news' > 0 THEN PrintT("HIST " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
\* the sizes that would make the histories worthless
Sane == Len(Flat(root)) = size
=============================================================================

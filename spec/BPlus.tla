-------------------------------- MODULE BPlus --------------------------------
(* One palm tree as implemented (Nodes.tla), under every sequence of calls,  *)
(* and that it does what PalmMap says (the abstract system the real crate's  *)
(* runs are judged by): every step of this system is a step of PalmMap with  *)
(* the reply the caller would see.                                           *)
EXTENDS Nodes, OrderedMapLite
CONSTANTS N,          \* keys are 1..N
          VERS,       \* how many different values a key can have
          OPS,        \* which calls are made
          STARTS,     \* sizes of the trees to start from, loaded
          DEPTH,      \* longest history
          MAXSIZE     \* most entries

VARIABLES root, size,
          it,         \* the open iterator, or NoIt
          abs,        \* the entries of root, as a map (kept so that it is worked out once a step)
          last,       \* the last call and its reply
          steps
vars == <<root, size, it, abs, last, steps>>
view == <<root, size, it, IF DEPTH > 0 THEN steps ELSE 0>>

KEYS == 1..N
AbsOf(n) == LET f == Flat(n) IN [k \in {f[i][1] : i \in 1..Len(f)} |-> Ent64(f[CHOOSE i \in 1..Len(f) : f[i][1] = k][2])]
AbsMap == abs
\* the values key k may have
Value(k, x) == k * VERS + x
Vers == 0..(VERS - 1)
NoIt == [kind |-> "none"]
On(o) == o \in OPS

\* loaded trees hold every other key
Loaded(n) == Load([i \in 1..n |-> <<2 * i, Value(2 * i, 0)>>])
Init == /\ \E n \in STARTS : root = Loaded(n) /\ size = n /\ last = [o |-> "start", n |-> n]
        /\ it = NoIt /\ steps = 0 /\ abs = AbsOf(root)

Call(l) == last' = l /\ steps' = steps + 1
Open == it = NoIt
Quiet == it' = it

Ins(k, x) == LET r == TreeInsert(root, size, k, Value(k, x)) IN
  /\ root' = r.n /\ size' = r.size /\ Quiet
  /\ Call([o |-> "ins", k |-> k, v |-> Value(k, x), r |-> r.r, t |-> r.t])
\* insertion through a vacant entry, and a write through the reference it gives
InsRef(k, x) == LET r == TreeInsert(root, size, k, Value(k, 0)) IN
  /\ Get(root, k) = -1
  /\ IF r.t = "ok" THEN root' = Put(r.n, r.p.st, [At(r.n, r.p.st) EXCEPT !.vs[r.p.j] = Value(k, x)]) ELSE root' = r.n
  /\ size' = r.size /\ Quiet
  /\ Call([o |-> "insref", k |-> k, v |-> Value(k, x), r |-> r.r, t |-> r.t])
InsR(k, x) == LET r == TreeInsertRec(root, size, k, Value(k, x)) IN
  /\ root' = r.n /\ size' = r.size /\ Quiet
  /\ Call([o |-> "insr", k |-> k, v |-> Value(k, x), r |-> r.r, t |-> r.t])
Rem(k) ==
  LET e == IF HasRoot(root) THEN ExactKey(root, k) ELSE [found |-> FALSE, p |-> Null] IN
  /\ Quiet
  /\ IF e.found
     THEN /\ root' = RemoveAtPtr(root, e.p) /\ size' = size - 1
          /\ Call([o |-> "rem", k |-> k, r |-> <<PKey(root, e.p), PVal(root, e.p)>>, t |-> "ok"])
     ELSE /\ UNCHANGED <<root, size>>
          /\ Call([o |-> "rem", k |-> k, r |-> << >>, t |-> "ok"])
Pop(high) ==
  /\ Quiet
  /\ IF size = 0 THEN UNCHANGED <<root, size>> /\ Call([o |-> "pop", d |-> high, r |-> << >>, t |-> "ok"])
     ELSE LET p == IF high = 1 THEN Highest(root) ELSE Lowest(root) IN
          /\ root' = RemoveAtPtr(root, p) /\ size' = size - 1
          /\ Call([o |-> "pop", d |-> high, r |-> <<PKey(root, p), PVal(root, p)>>, t |-> "ok"])
GetM(k, x) ==
  /\ Quiet /\ size' = size
  /\ root' = IF Get(root, k) = -1 THEN root ELSE SetVal(root, k, Value(k, x))
  /\ Call([o |-> "getm", k |-> k, v |-> Value(k, x), r |-> Get(root, k), t |-> "ok"])
\* the tree is rebuilt from its entries (merging, appending, collecting)
Rebuild ==
  /\ Quiet /\ size > 0 /\ root' = Load(Flat(root)) /\ size' = size
  /\ Call([o |-> "rebuild", t |-> "ok"])

\* Iterators.  a: the abstract iterator, as PalmMap has it.
Abstract(kind, S, m) == LET s == SortedSet(S) IN
  [kind |-> kind, t |-> IF kind = "own" THEN -1 ELSE 1, m |-> m, keys |-> s, lo |-> 1, hi |-> Len(s), held |-> {}]
OpenIt(b) ==
  /\ UNCHANGED <<root, size>>
  /\ it' = [kind |-> "ref", i |-> OpenRange(root, b), a |-> Abstract("ref", Within(DOMAIN AbsMap, b), EmptyFn)]
  /\ Call([o |-> "oref", b |-> b, t |-> "ok"])
OpenOwn ==
  /\ it' = [kind |-> "own", i |-> OpenOwned(root, size), a |-> Abstract("own", DOMAIN AbsMap, AbsMap)]
  /\ root' = NoRoot /\ size' = 0
  /\ Call([o |-> "oown", t |-> "ok"])
Moved(a, d) == IF a.lo > a.hi THEN a ELSE IF d = 1 THEN [a EXCEPT !.hi = @ - 1] ELSE [a EXCEPT !.lo = @ + 1]
Fuel == 4 * MAXSIZE + 8
StepIt(d) ==
  /\ UNCHANGED <<root, size>>
  /\ LET x == IF it.kind = "ref" THEN (IF d = 1 THEN IterBack(root, it.i) ELSE IterNext(root, it.i))
              ELSE (IF d = 1 THEN OwnBack(it.i, Fuel) ELSE OwnNext(it.i, Fuel))
     IN  /\ it' = [it EXCEPT !.i = x[1], !.a = Moved(it.a, d)]
         /\ Call([o |-> "step", d |-> d, r |-> x[2], t |-> "ok"])
CloseIt == /\ UNCHANGED <<root, size>> /\ it' = NoIt /\ Call([o |-> "cend", t |-> "ok"])

BOUNDS == {<<lk, lo, hk, hi>> : lk \in 0..2, lo \in 0..(N + 1), hk \in 0..2, hi \in 0..(N + 1)}
Ranges == {b \in BOUNDS : (b[1] = 0 => b[2] = 0) /\ (b[3] = 0 => b[4] = 0) /\ ~BadRange(b)}

Fits(k) == MAXSIZE = 0 \/ size < MAXSIZE \/ Get(root, k) # -1
Calls ==
  /\ DEPTH > 0 => steps < DEPTH
  /\ IF Open
     THEN \/ On("ins") /\ \E k \in KEYS, x \in Vers : Fits(k) /\ Ins(k, x)
          \/ On("insref") /\ \E k \in KEYS, x \in Vers : Fits(k) /\ InsRef(k, x)
          \/ On("insr") /\ \E k \in KEYS, x \in Vers : Fits(k) /\ InsR(k, x)
          \/ On("rem") /\ \E k \in KEYS : Rem(k)
          \/ On("pop") /\ \E d \in {0, 1} : Pop(d)
          \/ On("getm") /\ \E k \in KEYS, x \in Vers : GetM(k, x)
          \/ On("rebuild") /\ Rebuild
          \/ On("range") /\ \E b \in Ranges : OpenIt(b)
          \/ On("own") /\ OpenOwn
     ELSE \/ \E d \in {0, 1} : StepIt(d)
          \/ CloseIt
Next == Calls /\ abs' = IF root' = root THEN abs ELSE AbsOf(root')
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What must hold.                                                           *)
ShapeOK == Shape(root, size)
NoPanic == last.o # "start" => last.t = "ok"
LookupOK == \A k \in 0..(N + 1) : Get(root, k) = IF k \in DOMAIN AbsMap THEN AbsMap[k] \div 64 ELSE -1
InOrder == LET f == Flat(root) IN \A i \in 1..(Len(f) - 1) : f[i][1] < f[i + 1][1]
\* full scans both ways over every range
RECURSIVE Scan(_, _, _, _)
Scan(n, i, d, fuel) == LET x == IF d = 1 THEN IterBack(n, i) ELSE IterNext(n, i) IN
  IF x[2] = << >> THEN << >> ELSE IF fuel = 0 THEN <<"endless">> ELSE <<x[2]>> \o Scan(n, x[1], d, fuel - 1)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RangesOK == On("ranges") => \A b \in Ranges :
  LET want == SelectSeq(Flat(root), LAMBDA e : InRange(e[1], b))
      i == OpenRange(root, b)
  IN  Scan(root, i, 0, Fuel) = want /\ Scan(root, i, 1, Fuel) = Rev(want)

\* Refinement: PalmMap with this tree as its tree 1 (and iterator 1).
PM == INSTANCE PalmMap WITH trees <- IF it.kind = "own" THEN EmptyFn ELSE (1 :> AbsMap),
                            curs <- IF it = NoIt THEN EmptyFn ELSE (1 :> it.a),
                            ents <- EmptyFn, hurt <- EmptyFn, flocks <- EmptyFn
Reply64(r) == IF r = << >> THEN << >> ELSE <<r[1], Ent64(r[2])>>
Abides(l) ==
  CASE l.o \in {"ins", "insr"} -> PM!Insert(1, l.k, l.v, 0, l.r)
    [] l.o = "insref"  -> PM!Insert(1, l.k, l.v, 0, l.r) /\ l.r = -1
    [] l.o = "rem"     -> PM!RemoveKey(1, l.k, Reply64(l.r))
    [] l.o = "pop"     -> PM!RemoveEnd(1, l.d, Reply64(l.r))
    [] l.o = "getm"    -> PM!GetMut(1, l.k, l.v, l.r)
    [] l.o = "rebuild" -> UNCHANGED <<PM!vars>>
    [] l.o = "oref"    -> PM!OpenRef(1, 1, l.b, 0)
    [] l.o = "oown"    -> PM!OpenOwn(1, 1)
    [] l.o = "step"    -> PM!Step(1, l.d, Reply64(l.r))
    [] l.o = "cend"    -> PM!CloseCur(1) \/ it.kind = "own"
    [] OTHER -> FALSE
\* consuming iterators also say how many entries are left
HintOK == it.kind = "own" => it.i.rem = it.a.hi - it.a.lo + 1
Refines == [][Abides(last')]_vars
=============================================================================

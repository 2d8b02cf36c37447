-------------------------------- MODULE Merge --------------------------------
(* The merging iterator (iter/merge.rs) over two maps, and bulk load of what *)
(* it yields (merge, append): it yields the biased union, entry by entry.    *)
(* BUG: design mistakes, all controls.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, OrderedMapLite
CONSTANTS N,        \* keys are 1..N, all pairs of maps over them
          BUG
Bug(x) == x \in BUG

VARIABLES ma, mb, right,      \* the maps (left, right) and which side wins
          ls, rs,             \* what the two iterators have left
          nl, nr, nx,         \* the item taken from each (or << >>), and whose turn it is
          i,                  \* how many items were yielded
          cur,                \* the abstract iterator
          last
vars == <<ma, mb, right, ls, rs, nl, nr, nx, i, cur, last>>

KEYS == 1..N
Left(k) == 2 * k
Right(k) == 2 * k + 1
MapOf(S, f(_)) == [k \in S |-> Ent64(f(k))]
Seq64(S, f(_)) == LET s == SortedSet(S) IN [j \in 1..Len(s) |-> <<s[j], Ent64(f(s[j]))>>]
HeadOf(s) == IF s = << >> THEN << >> ELSE Head(s)
TailOf(s) == IF s = << >> THEN << >> ELSE Tail(s)

\* merge_left: the left item goes first unless it is higher; merge_right: unless it is no lower
RightFirst(l, r) == IF right = 1 /\ ~Bug("tie") THEN l[1] >= r[1] ELSE l[1] > r[1]
Choose(l, r) == IF l # << >> /\ r # << >> THEN (IF RightFirst(l, r) THEN "R" ELSE "L")
                ELSE IF l = << >> /\ r # << >> THEN "R" ELSE "L"
Equal(l, r) == l # << >> /\ r # << >> /\ l[1] = r[1]
\* the loser of a tie is passed over
Settle(l, r, s, t, n) ==
  IF ~Equal(l, r) \/ Bug("keepboth") THEN [l |-> l, r |-> r, ls |-> s, rs |-> t]
  ELSE IF (n = "L") # Bug("winner") THEN [l |-> l, r |-> HeadOf(t), ls |-> s, rs |-> TailOf(t)]
  ELSE [l |-> HeadOf(s), r |-> r, ls |-> TailOf(s), rs |-> t]

Abstract(a, b) == LET m == IF right' = 1 THEN [k \in DOMAIN a \cup DOMAIN b |-> IF k \in DOMAIN b THEN b[k] ELSE a[k]]
                           ELSE [k \in DOMAIN a \cup DOMAIN b |-> IF k \in DOMAIN a THEN a[k] ELSE b[k]]
                      s == SortedSet(DOMAIN m)
                  IN  [kind |-> "merge", t |-> -1, m |-> m, keys |-> s, lo |-> 1, hi |-> Len(s), held |-> {}]
Init ==
  /\ ma = EmptyFn /\ mb = EmptyFn /\ right = 0 /\ ls = << >> /\ rs = << >> /\ nl = << >> /\ nr = << >> /\ nx = "L" /\ i = 0
  /\ cur = << >> /\ last = [o |-> "start"]
\* the two trees come to be, then the iterator
Give == /\ last.o = "start"
        /\ \E A \in SUBSET KEYS, C \in SUBSET KEYS : ma' = MapOf(A, Left) /\ mb' = MapOf(C, Right)
        /\ right' \in {0, 1}
        /\ last' = [o |-> "given"] /\ UNCHANGED <<ls, rs, nl, nr, nx, i, cur>>
Open == /\ last.o = "given"
        /\ UNCHANGED <<ma, mb, right, i>>
        /\ LET s == Seq64(DOMAIN ma, Left)  t == Seq64(DOMAIN mb, Right)
               l == HeadOf(s)  r == HeadOf(t)  n == Choose(l, r)
               x == IF Bug("firsttie") THEN [l |-> l, r |-> r, ls |-> TailOf(s), rs |-> TailOf(t)]
                    ELSE Settle(l, r, TailOf(s), TailOf(t), n)
           IN  /\ ls' = x.ls /\ rs' = x.rs /\ nl' = x.l /\ nr' = x.r /\ nx' = n
        /\ cur' = Abstract(ma, mb) /\ last' = [o |-> "open"]
Step == /\ last.o \in {"open", "step"} /\ i <= 2 * N + 1
        /\ UNCHANGED <<ma, mb, right>> /\ i' = i + 1
        /\ LET l == IF nx = "L" THEN HeadOf(ls) ELSE nl
               r == IF nx = "R" THEN HeadOf(rs) ELSE nr
               s == IF nx = "L" THEN TailOf(ls) ELSE ls
               t == IF nx = "R" THEN TailOf(rs) ELSE rs
               n == Choose(l, r)
               x == Settle(l, r, s, t, n)
           IN  /\ ls' = x.ls /\ rs' = x.rs /\ nl' = x.l /\ nr' = x.r /\ nx' = n
               /\ last' = [o |-> "step", r |-> IF nx = "L" THEN nl ELSE nr]
               /\ cur' = IF cur.lo > cur.hi THEN cur ELSE [cur EXCEPT !.lo = @ + 1]
Next == Give \/ Open \/ Step
Spec == Init /\ [][Next]_vars

\* both trees exist until the iterator takes them
AbsTrees == IF last.o = "given" THEN (1 :> ma) @@ (2 :> mb) ELSE EmptyFn
AbsCurs == IF cur = << >> THEN EmptyFn ELSE (1 :> cur)
PM == INSTANCE PalmMap WITH trees <- AbsTrees, curs <- AbsCurs, ents <- EmptyFn, hurt <- EmptyFn, flocks <- EmptyFn
Abides(l) ==
  CASE l.o = "given" -> TRUE
    [] l.o = "open" -> PM!OpenMerge(1, 1, 2, right)
    [] l.o = "step" -> PM!Step(1, 0, l.r)
    [] OTHER -> FALSE
Refines == [][Abides(last')]_vars
=============================================================================

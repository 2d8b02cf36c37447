----------------------------- MODULE OrderedMap -----------------------------
(* The theory of finite ordered maps that everything else is judged by.      *)
(*                                                                           *)
(* A map is a function whose domain is the (finite) set of present keys.     *)
(* Keys are integers.  An entry is an integer packing the stored value and   *)
(* the identity ("tag") of the stored key object: two keys that compare      *)
(* equal may be different objects, and the map says which one it keeps.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

TAGS == 64
Ent(v, g) == v * TAGS + g
Val(e) == e \div TAGS
Tag(e) == e % TAGS
None == -1                       \* no value / no key

EmptyMap == [k \in {} |-> 0]
Keys(m) == DOMAIN m
\* (Yes: TLC is to evaluate p as one predicate, also inside an action.)
Yes(p) == p = TRUE
Size(m) == Cardinality(DOMAIN m)
Put(m, k, e) == (k :> e) @@ m
\* Storing f(k) at every key k of S.
Patch(m, S, f(_)) == [k \in S \cup DOMAIN m |-> IF k \in S THEN f(k) ELSE m[k]]
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]

\* Storing value v under key object k/g: a replacement keeps the old key object.
Store(m, k, v, g) == Put(m, k, IF k \in DOMAIN m THEN Ent(v, Tag(m[k])) ELSE Ent(v, g))
Lookup(m, k) == IF k \in DOMAIN m THEN Val(m[k]) ELSE None

SortedKeys(S) == SetToSortSeq(S, LAMBDA a, b: a < b)
IsLeast(k, S) == k \in S /\ Yes(\A x \in S : k <= x)
IsGreatest(k, S) == k \in S /\ Yes(\A x \in S : k >= x)

-----------------------------------------------------------------------------
(* Bounds: <<lkind, lo, hkind, hi>>, kinds: 0 unbounded 1 included 2 excluded *)
AboveLow(k, b)  == CASE b[1] = 0 -> TRUE [] b[1] = 1 -> k >= b[2] [] OTHER -> k > b[2]
BelowHigh(k, b) == CASE b[3] = 0 -> TRUE [] b[3] = 1 -> k <= b[4] [] OTHER -> k < b[4]
InBounds(k, b) == AboveLow(k, b) /\ BelowHigh(k, b)
FullRange == <<0, 0, 0, 0>>
BadBounds(b) == /\ b[1] # 0 /\ b[3] # 0
                /\ \/ b[2] > b[4]
                   \/ b[2] = b[4] /\ b[1] = 2 /\ b[3] = 2
RangeKeys(m, b) == IF b = FullRange THEN DOMAIN m ELSE {k \in DOMAIN m : InBounds(k, b)}

(* A sequence of <<key, entry>> pairs is exactly the entries of m with keys  *)
(* in S, ascending / descending.                                             *)
Ascending(s)  == Yes(\A i \in 1..(Len(s) - 1) : s[i][1] < s[i + 1][1])
Descending(s) == Yes(\A i \in 1..(Len(s) - 1) : s[i][1] > s[i + 1][1])
Entries(m, S, s) == Yes(/\ Len(s) = Cardinality(S)
                        /\ \A i \in 1..Len(s) : s[i][1] \in S /\ s[i][2] = m[s[i][1]])
AscEntries(m, S, s)  == Entries(m, S, s) /\ Ascending(s)
DescEntries(m, S, s) == Entries(m, S, s) /\ Descending(s)

-----------------------------------------------------------------------------
(* Combination: the union, the left (right) map winning on common keys.      *)
UnionL(a, b) == Patch(b, DOMAIN a, LAMBDA k : a[k])
UnionR(a, b) == Patch(a, DOMAIN b, LAMBDA k : b[k])

(* The map a strictly ascending sequence of pairs stands for.                *)
RECURSIVE Find(_, _, _, _)
Find(s, k, lo, hi) == LET mid == (lo + hi) \div 2 IN      \* binary search
  IF s[mid][1] = k THEN mid ELSE IF s[mid][1] < k THEN Find(s, k, mid + 1, hi) ELSE Find(s, k, lo, mid - 1)
OfAscending(s) == [k \in {s[i][1] : i \in 1..Len(s)} |-> s[Find(s, k, 1, Len(s))][2]]
(* Storing the pairs of a sequence one after the other.                      *)
StoreAll(m, s) == FoldLeft(LAMBDA acc, p : Store(acc, p[1], Val(p[2]), Tag(p[2])), m, s)

-----------------------------------------------------------------------------
(* Comparison of maps by their ascending sequences of (key, value).          *)
(* With part = 1 some values equal nothing, not even themselves (as a NaN).  *)
Odd(part, v) == part = 1 /\ v % 5 = 0
Alike(part, v, w) == v = w /\ ~Odd(part, v)
SameEntries(part, a, b) == /\ DOMAIN a = DOMAIN b
                           /\ \A k \in DOMAIN a : Alike(part, Val(a[k]), Val(b[k]))
(* -1, 0, 1: lexicographic; 2: incomparable.  The first difference decides.  *)
LexCompare(part, a, b) ==
  LET D == {k \in DOMAIN a \cup DOMAIN b :
               \/ k \notin DOMAIN a \/ k \notin DOMAIN b
               \/ ~Alike(part, Val(a[k]), Val(b[k]))}
  IN  IF D = {} THEN 0
      ELSE LET k == Min(D)      \* both agree on all keys below k
           IN CASE k \in DOMAIN a /\ k \in DOMAIN b ->
                     IF Odd(part, Val(a[k])) \/ Odd(part, Val(b[k])) THEN 2
                     ELSE IF Val(a[k]) < Val(b[k]) THEN -1 ELSE 1
                \* only a has k: b continues with a higher key, or has ended
                [] k \in DOMAIN a /\ k \notin DOMAIN b ->
                     IF \E x \in DOMAIN b : x > k THEN -1 ELSE 1
                [] OTHER -> IF \E x \in DOMAIN a : x > k THEN 1 ELSE -1

DebugString(m) ==
  LET s == SortedKeys(DOMAIN m)
      Item(k) == ToString(k) \o ": " \o ToString(Val(m[k]))
      body == FoldLeft(LAMBDA acc, k : IF acc = "" THEN Item(k) ELSE acc \o ", " \o Item(k), "", s)
  IN  "{" \o body \o "}"
PrettyString(m) ==
  LET s == SortedKeys(DOMAIN m)
      Item(k) == "\n    " \o ToString(k) \o ": " \o ToString(Val(m[k])) \o ","
  IN  IF s = << >> THEN "{}" ELSE "{" \o FoldLeft(LAMBDA acc, k : acc \o Item(k), "", s) \o "\n}"
=============================================================================

------------------------------- MODULE Lemmas --------------------------------
(* What the other specifications take for granted, checked for all small     *)
(* cases: the searches mean what their names say, comparison of maps is a    *)
(* total order consistent with equality, bulk steps are what their parts do, *)
(* bulk load builds well-formed trees of every number of entries.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS K,      \* keys 0..K
          MAXLEN, \* longest sequence searched
          LOADS   \* entries loaded: 0..LOADS

N4 == INSTANCE Nodes WITH B <- 4, L <- 4, BUG <- {}
N45 == INSTANCE Nodes WITH B <- 4, L <- 5, BUG <- {}
N54 == INSTANCE Nodes WITH B <- 5, L <- 4, BUG <- {}
N33 == INSTANCE Nodes WITH B <- 3, L <- 3, BUG <- {}
OM == INSTANCE OrderedMap
PMt == INSTANCE PalmMap WITH trees <- OM!EmptyMap, curs <- OM!EmptyMap, ents <- OM!EmptyMap, hurt <- OM!EmptyMap, flocks <- OM!EmptyMap

SeqsOf == {OM!SortedKeys(S) : S \in {X \in SUBSET (0..K) : OM!Size([k \in X |-> 0]) <= MAXLEN}}
ASSUME Searches == \A s \in SeqsOf : \A k \in 0..(K + 1) : N4!SearchMeans(s, k)

\* maps over three keys with two values, or two with three
MapsOver(S, V) == UNION {[X -> {OM!Ent(v, 0) : v \in V}] : X \in SUBSET S}
Ms == MapsOver(1..3, 0..1) \cup MapsOver(1..2, 0..2)
ASSUME Compared ==
  \A a \in Ms : \A b \in Ms :
    /\ (OM!LexCompare(0, a, b) = 0) = OM!SameEntries(0, a, b)
    /\ OM!LexCompare(0, a, b) = -OM!LexCompare(0, b, a)
ASSUME Transitive ==
  \A a \in Ms : \A b \in Ms : OM!LexCompare(0, a, b) = -1 => \A c \in Ms : OM!LexCompare(0, b, c) = -1 => OM!LexCompare(0, a, c) = -1
\* lexicographic, by its recursive definition
RECURSIVE Lex(_, _)
Lex(s, t) == IF s = << >> THEN (IF t = << >> THEN 0 ELSE -1) ELSE IF t = << >> THEN 1
             ELSE LET x == Head(s)  y == Head(t) IN
                  IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1)
                  ELSE IF x[2] # y[2] THEN (IF x[2] < y[2] THEN -1 ELSE 1) ELSE Lex(Tail(s), Tail(t))
AsSeq(m) == LET s == OM!SortedKeys(DOMAIN m) IN [i \in 1..Len(s) |-> <<s[i], m[s[i]]>>]
ASSUME Lexicographic == \A a \in Ms : \A b \in Ms : OM!LexCompare(0, a, b) = Lex(AsSeq(a), AsSeq(b))
\* the same where some values compare with nothing: the first pair not equal decides
RECURSIVE LexP(_, _)
LexP(s, t) == IF s = << >> THEN (IF t = << >> THEN 0 ELSE -1) ELSE IF t = << >> THEN 1
              ELSE LET x == Head(s)  y == Head(t)  v == OM!Val(x[2])  w == OM!Val(y[2]) IN
                   IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1)
                   ELSE IF OM!Odd(1, v) \/ OM!Odd(1, w) THEN 2
                   ELSE IF v # w THEN (IF v < w THEN -1 ELSE 1) ELSE LexP(Tail(s), Tail(t))
Ps == MapsOver(1..3, {0, 1, 6})
ASSUME Partially == \A a \in Ps : \A b \in Ps :
  /\ OM!LexCompare(1, a, b) = LexP(AsSeq(a), AsSeq(b))
  /\ (OM!LexCompare(1, a, b) = 0) = OM!SameEntries(1, a, b)
ASSUME Unions ==
  \A a \in Ms : \A b \in Ms :
    /\ OM!UnionL(a, b) = OM!StoreAll(b, AsSeq(a)) /\ OM!UnionR(a, b) = OM!StoreAll(a, AsSeq(b))
    /\ OM!OfAscending(AsSeq(a)) = a

\* a tree of every size: sound, with the entries given; lookups find them
LoadOK(Load(_), Flat(_), Shape(_, _), Get(_, _), n) ==
  LET s == [i \in 1..n |-> <<2 * i, i>>]  t == Load(s) IN
  /\ Flat(t) = s /\ Shape(t, n)
  /\ \A i \in {1, n \div 2, n - 1, n} \cap 1..n : Get(t, 2 * i) = i /\ Get(t, 2 * i + 1) = -1
ASSUME Loads44 == \A n \in 0..LOADS : LoadOK(N4!Load, N4!Flat, N4!Shape, N4!Get, n)
ASSUME Loads45 == \A n \in 0..LOADS : LoadOK(N45!Load, N45!Flat, N45!Shape, N45!Get, n)
ASSUME Loads54 == \A n \in 0..LOADS : LoadOK(N54!Load, N54!Flat, N54!Shape, N54!Get, n)
ASSUME Loads33 == \A n \in 0..LOADS : LoadOK(N33!Load, N33!Flat, N33!Shape, N33!Get, n)

\* bulk steps of PalmMap
ASSUME Joined == \A S \in SUBSET (1..6) : \A lo \in 0..4 : \A st \in 1..3 : \A n \in 0..3 :
  PMt!JoinSorted(S, lo, st, n) = S \cup PMt!Progression(lo, st, n)

VARIABLE z
Init == z = 0
Next == FALSE /\ UNCHANGED z
Spec == Init /\ [][Next]_z
=============================================================================

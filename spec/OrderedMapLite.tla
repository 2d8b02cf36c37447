---------------------------- MODULE OrderedMapLite ----------------------------
(* What the structural specifications need of OrderedMap, under other names  *)
(* (they have operators of their own called Last, Load, Scan...).            *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL OM == INSTANCE OrderedMap
EmptyFn == OM!EmptyMap
Ent64(v) == OM!Ent(v, 0)
BadRange(b) == OM!BadBounds(b)
InRange(k, b) == OM!InBounds(k, b)
Within(S, b) == {k \in S : InRange(k, b)}
SortedSet(S) == OM!SortedKeys(S)
=============================================================================

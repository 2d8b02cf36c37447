--------------------------------- MODULE Cow ---------------------------------
(* Copy on write as palmtree does it: a tree is a counted reference to its   *)
(* root, a clone is another reference to the same root, and whoever writes   *)
(* first makes sure that it is the only one (Pointer::make_mut, Arc's), or   *)
(* copies everything below the root (Branch::clone copies all the nodes).    *)
(* Threads own handles and take steps in any order; the steps of one call    *)
(* are the atomic steps of the counts and the reading and writing of cells.  *)
(* What is checked: each completed call is a step of PalmMap on maps that    *)
(* are nobody else's, cells are used only while allocated, and none is left  *)
(* once all handles are gone.                                                *)
(*                                                                           *)
(* BUG is a set of names of design mistakes, all controls.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, OrderedMapLite
CONSTANTS THREADS, HANDLES, CELLS, VALUES, BUG
Bug(x) == x \in BUG

VARIABLES
  cell,    \* cell -> [rc, vals (a pair: what a copy reads in two steps), live]
  ref,     \* handle -> cell, 0: no such tree now
  own,     \* handle -> the thread that has it
  pc,      \* thread -> what it is in the middle of
  abs,     \* handle -> what its tree must hold
  last,    \* the last call completed and its reply
  bad      \* a cell was used after it was freed, or freed twice
vars == <<cell, ref, own, pc, abs, last, bad>>
view == <<cell, ref, own, pc, abs, bad>>

Idle == [at |-> "idle"]
None == [o |-> "none"]
Init ==
  /\ cell = [c \in CELLS |-> [rc |-> IF c = 1 THEN 1 ELSE 0, a |-> 0, b |-> 0, live |-> c = 1]]
  /\ ref = [h \in HANDLES |-> IF h = 1 THEN 1 ELSE 0]
  /\ own = [h \in HANDLES |-> 1]
  /\ pc = [t \in THREADS |-> Idle]
  /\ abs = [h \in HANDLES |-> 0]
  /\ last = None /\ bad = FALSE

Free == {c \in CELLS : ~cell[c].live}
NewCell == CHOOSE c \in Free : \A d \in Free : c <= d
\* handles that nobody is using
InUse(h) == \E t \in THREADS : pc[t].at # "idle" /\ (pc[t].h = h \/ ("h2" \in DOMAIN pc[t] /\ pc[t].h2 = h))
Mine(t, h) == ref[h] # 0 /\ own[h] = t /\ ~InUse(h)
Go(t, x) == pc' = [pc EXCEPT ![t] = x]
Use(c) == bad' = (bad \/ ~cell[c].live)
Quiet == last' = None

\* Clone: the count goes up, then the handle exists.
StartClone(t, h, h2) ==
  /\ pc[t] = Idle /\ Mine(t, h) /\ ref[h2] = 0 /\ ~InUse(h2)
  /\ h2 = CHOOSE x \in HANDLES : ref[x] = 0 /\ ~InUse(x) /\ \A y \in HANDLES : (ref[y] = 0 /\ ~InUse(y)) => x <= y
  /\ Use(ref[h]) /\ Quiet
  /\ IF Bug("racyinc")
     THEN Go(t, [at |-> "inc", h |-> h, h2 |-> h2, n |-> cell[ref[h]].rc]) /\ UNCHANGED <<cell, ref, own, abs>>
     ELSE /\ cell' = [cell EXCEPT ![ref[h]].rc = IF Bug("noinc") THEN @ ELSE @ + 1]
          /\ Go(t, [at |-> "cloned", h |-> h, h2 |-> h2]) /\ UNCHANGED <<ref, own, abs>>
Inc(t) == LET x == pc[t] IN
  /\ x.at = "inc" /\ Use(ref[x.h]) /\ Quiet
  /\ cell' = [cell EXCEPT ![ref[x.h]].rc = x.n + 1]
  /\ Go(t, [at |-> "cloned", h |-> x.h, h2 |-> x.h2]) /\ UNCHANGED <<ref, own, abs>>
EndClone(t) == LET x == pc[t] IN
  /\ x.at = "cloned"
  /\ ref' = [ref EXCEPT ![x.h2] = ref[x.h]] /\ own' = [own EXCEPT ![x.h2] = t]
  /\ abs' = [abs EXCEPT ![x.h2] = abs[x.h]]
  /\ last' = [o |-> "clone", t |-> x.h, u |-> x.h2]
  /\ Go(t, Idle) /\ UNCHANGED <<cell, bad>>

\* Writing (any call that may change the tree): sole owner or copy.
StartWrite(t, h, v) ==
  /\ pc[t] = Idle /\ Mine(t, h) /\ Use(ref[h]) /\ Quiet
  /\ Go(t, IF cell[ref[h]].rc = 1 \/ Bug("nocow") THEN [at |-> "write", h |-> h, v |-> v]
           ELSE IF Bug("dropfirst") THEN [at |-> "dec", h |-> h, v |-> v, c |-> ref[h]]
           ELSE [at |-> "copy", h |-> h, v |-> v])
  /\ UNCHANGED <<cell, ref, own, abs>>
Copy(t) == LET x == pc[t] IN
  /\ x.at = "copy" /\ Free # {} /\ Use(ref[x.h]) /\ Quiet
  /\ cell' = [cell EXCEPT ![NewCell] = [rc |-> 1, a |-> cell[ref[x.h]].a, b |-> -1, live |-> TRUE]]
  /\ Go(t, [at |-> "copy2", h |-> x.h, v |-> x.v, n |-> NewCell]) /\ UNCHANGED <<ref, own, abs>>
Copy2(t) == LET x == pc[t] IN
  /\ x.at = "copy2" /\ Use(ref[x.h]) /\ Quiet
  /\ cell' = [cell EXCEPT ![x.n].b = cell[ref[x.h]].b]
  /\ ref' = [ref EXCEPT ![x.h] = x.n]
  /\ Go(t, IF Bug("keepold") \/ Bug("dropfirst") THEN [at |-> "write", h |-> x.h, v |-> x.v] ELSE [at |-> "dec", h |-> x.h, v |-> x.v, c |-> ref[x.h]])
  /\ UNCHANGED <<own, abs>>
\* the reference to the shared cell is given up, the last one frees
Dec(t) == LET x == pc[t] IN
  /\ x.at = "dec" /\ Use(x.c) /\ Quiet
  /\ cell' = [cell EXCEPT ![x.c].rc = @ - 1]
  /\ Go(t, IF cell[x.c].rc = 1 THEN [x EXCEPT !.at = "free"] ELSE [at |-> IF Bug("dropfirst") THEN "copy" ELSE "write", h |-> x.h, v |-> x.v])
  /\ UNCHANGED <<ref, own, abs>>
FreeCell(t) == LET x == pc[t] IN
  /\ x.at = "free" /\ Use(x.c) /\ Quiet
  /\ cell' = [cell EXCEPT ![x.c].live = FALSE]
  /\ Go(t, [at |-> IF Bug("dropfirst") THEN "copy" ELSE "write", h |-> x.h, v |-> x.v]) /\ UNCHANGED <<ref, own, abs>>
Write(t) == LET x == pc[t]  c == ref[x.h] IN
  /\ x.at = "write" /\ Use(c)
  /\ last' = [o |-> "write", t |-> x.h, w |-> x.v, r |-> IF cell[c].a = cell[c].b THEN cell[c].a ELSE -2]
  /\ cell' = [cell EXCEPT ![c].a = x.v, ![c].b = x.v]
  /\ abs' = [abs EXCEPT ![x.h] = x.v]
  /\ Go(t, Idle) /\ UNCHANGED <<ref, own>>

Read(t, h) ==
  /\ pc[t] = Idle /\ ref[h] # 0 /\ own[h] = t /\ ~InUse(h)
  /\ Use(ref[h])
  /\ last' = [o |-> "read", t |-> h, r |-> IF cell[ref[h]].a = cell[ref[h]].b THEN cell[ref[h]].a ELSE -2]
  /\ UNCHANGED <<cell, ref, own, pc, abs>>
Send(t, h, t2) ==
  /\ pc[t] = Idle /\ Mine(t, h) /\ t2 # t
  /\ own' = [own EXCEPT ![h] = t2] /\ Quiet /\ UNCHANGED <<cell, ref, pc, abs, bad>>

StartDrop(t, h) ==
  /\ pc[t] = Idle /\ Mine(t, h) /\ Quiet /\ Use(ref[h])
  /\ IF Bug("racydec")
     THEN Go(t, [at |-> "loaded", h |-> h, n |-> cell[ref[h]].rc]) /\ UNCHANGED cell
     ELSE /\ cell' = [cell EXCEPT ![ref[h]].rc = @ - 1]
          /\ Go(t, [at |-> IF cell[ref[h]].rc = 1 THEN "last" ELSE "gone", h |-> h])
  /\ UNCHANGED <<ref, own, abs>>
Store(t) == LET x == pc[t] IN
  /\ x.at = "loaded" /\ Quiet /\ Use(ref[x.h])
  /\ cell' = [cell EXCEPT ![ref[x.h]].rc = x.n - 1]
  /\ Go(t, [at |-> IF x.n = 1 THEN "last" ELSE "gone", h |-> x.h]) /\ UNCHANGED <<ref, own, abs>>
LastDrop(t) == LET x == pc[t] IN
  /\ x.at = "last" /\ Use(ref[x.h]) /\ Quiet
  /\ cell' = [cell EXCEPT ![ref[x.h]].live = FALSE]
  /\ Go(t, [at |-> "gone", h |-> x.h]) /\ UNCHANGED <<ref, own, abs>>
EndDrop(t) == LET x == pc[t] IN
  /\ x.at = "gone" /\ ref' = [ref EXCEPT ![x.h] = 0] /\ own' = [own EXCEPT ![x.h] = 1] /\ abs' = [abs EXCEPT ![x.h] = 0]
  /\ last' = [o |-> "drop", t |-> x.h] /\ Go(t, Idle) /\ UNCHANGED <<cell, bad>>

Next == \E t \in THREADS :
  \/ \E h \in HANDLES :
        \/ \E h2 \in HANDLES : StartClone(t, h, h2)
        \/ \E v \in VALUES : StartWrite(t, h, v)
        \/ Read(t, h) \/ StartDrop(t, h)
        \/ \E t2 \in THREADS : Send(t, h, t2)
  \/ Inc(t) \/ EndClone(t) \/ Copy(t) \/ Copy2(t) \/ Dec(t) \/ FreeCell(t) \/ Write(t)
  \/ Store(t) \/ LastDrop(t) \/ EndDrop(t)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
NoMisuse == ~bad
\* counts are the references there are
Counts == \A c \in CELLS : cell[c].live => cell[c].rc >= 0
NoLeak == ((\A h \in HANDLES : ref[h] = 0) /\ (\A t \in THREADS : pc[t] = Idle)) => \A c \in CELLS : ~cell[c].live
\* a tree at rest holds what it must
Isolated == \A h \in HANDLES : (ref[h] # 0 /\ ~InUse(h)) => cell[ref[h]].a = abs[h] /\ cell[ref[h]].b = abs[h]

AbsTrees == [h \in {x \in HANDLES : ref[x] # 0} |-> (1 :> Ent64(abs[h]))]
PM == INSTANCE PalmMap WITH trees <- AbsTrees,
                            curs <- EmptyFn, ents <- EmptyFn, hurt <- EmptyFn, flocks <- EmptyFn
Abides(l) ==
  CASE l.o = "none"  -> UNCHANGED <<PM!vars>>
    [] l.o = "clone" -> PM!CloneTree(l.t, l.u)
    [] l.o = "write" -> PM!GetMut(l.t, 1, l.w, l.r)
    [] l.o = "read"  -> PM!Get(l.t, 1, l.r)
    [] l.o = "drop"  -> PM!DropTree(l.t)
Refines == [][Abides(last')]_vars
=============================================================================

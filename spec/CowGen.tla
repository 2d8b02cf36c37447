------------------------------- MODULE CowGen --------------------------------
(* Histories of trees and their clones for the real crate: who shares with   *)
(* whom (as in Cow.tla: whoever writes to a shared root has a copy of its    *)
(* own from then on), which call is made on it, and, with several threads,   *)
(* which calls are held in the middle (copying, or comparing keys) while the *)
(* others go on.  A history is kept when it makes a call in a situation no   *)
(* history before it made it in; the call is then marked 1.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS THREADS, HANDLES, STEPS,
          SIZES,     \* entries of the first tree
          WRITES,    \* calls that change one tree
          JOINS,     \* calls that change one tree and use up another
          READS,     \* calls that only look
          ENDS       \* calls that use a tree up

VARIABLES cls,   \* handle -> which root it has (a number), 0: no tree
          own,   \* handle -> thread
          held,  \* thread -> << >> or the call it is held in
          how,   \* handle -> the last thing done to it
          next, hist, news
vars == <<cls, own, held, how, next, hist, news>>

Ids == {h \in HANDLES : cls[h] # 0}
Sharers(h) == {g \in Ids : cls[g] = cls[h]}
Many(n) == IF n > 3 THEN 3 ELSE n
\* handles a held call is using
Using(h) == {t \in THREADS : held[t] # << >> /\ h \in held[t].uses}
HeldOn(h) == {<<held[t].kind, held[t].h = h>> : t \in {x \in THREADS : held[x] # << >> /\ held[x].c = cls[h]}}
Free(h) == h \in Ids /\ Using(h) = {}
\* readable while others read it
Seen(h) == h \in Ids /\ \A t \in Using(h) : held[t].reads
MayUse(t) == held[t] = << >>
Situation(h) == <<Many(Cardinality(Sharers(h))), how[h], {how[g] : g \in Sharers(h) \ {h}}, Cardinality({own[g] : g \in Sharers(h)}), HeldOn(h)>>

Note(sig, op) ==
  \E new \in {sig \notin TLCGet(1)} :
    /\ IF new THEN TLCSet(1, TLCGet(1) \cup {sig}) ELSE TRUE
    /\ hist' = Append(hist, <<IF new THEN 1 ELSE 0>> \o op)
    /\ news' = news + (IF new THEN 1 ELSE 0)
Init == /\ TLCSet(1, {})
        /\ cls = [h \in HANDLES |-> IF h = 1 THEN 1 ELSE 0] /\ own = [h \in HANDLES |-> 1]
        /\ held = [t \in THREADS |-> << >>] /\ how = [h \in HANDLES |-> "new"] /\ next = 2
        /\ \E n \in SIZES : hist = <<<<0, "start", n>>>>
        /\ news = 0

\* n: held in the middle (0: not); a call can only be held when there are others to go on
Hold(t, n, x) == held' = IF n = 0 THEN held ELSE [held EXCEPT ![t] = x]
Gates(t) == IF \E u \in THREADS \ {t} : held[u] = << >> THEN {0, 1} ELSE {0}

Clone(t, h, g, n) ==
  /\ MayUse(t) /\ Seen(h) /\ g \notin Ids /\ \A u \in THREADS : held[u] # << >> => g \notin held[u].uses
  /\ Note(ToString(<<"clone", Situation(h)>>), <<"clone", t, h, g, 0>>)
  /\ cls' = [cls EXCEPT ![g] = cls[h]] /\ own' = [own EXCEPT ![g] = t] /\ how' = [how EXCEPT ![g] = "clone"]
  /\ UNCHANGED <<held, next>>
WriteTo(t, h, k, n) ==
  /\ MayUse(t) /\ own[h] = t /\ Free(h)
  /\ Note(ToString(<<k, n, Situation(h)>>), <<"write", t, h, k, n>>)
  /\ cls' = (IF Sharers(h) = {h} THEN cls ELSE [cls EXCEPT ![h] = next])
  /\ next' = next + 1
  /\ how' = [how EXCEPT ![h] = k]
  /\ Hold(t, n, [kind |-> k, h |-> h, c |-> cls[h], uses |-> {h}, reads |-> FALSE])
  /\ UNCHANGED own
Join(t, h, g, k, n) ==
  /\ MayUse(t) /\ own[h] = t /\ own[g] = t /\ Free(h) /\ Free(g) /\ h # g
  /\ Note(ToString(<<k, n, Situation(h), Situation(g), cls[h] = cls[g]>>), <<"join", t, h, g, k, n>>)
  /\ cls' = [cls EXCEPT ![h] = next, ![g] = 0] /\ next' = next + 1
  /\ how' = [how EXCEPT ![h] = k]
  /\ Hold(t, n, [kind |-> k, h |-> h, c |-> cls[h], uses |-> {h, g}, reads |-> FALSE])
  /\ UNCHANGED own
Read(t, h, k, n) ==
  /\ MayUse(t) /\ Seen(h)
  /\ Note(ToString(<<k, n, own[h] = t, Situation(h)>>), <<"read", t, h, k, n>>)
  /\ Hold(t, n, [kind |-> k, h |-> h, c |-> cls[h], uses |-> {h}, reads |-> TRUE])
  /\ UNCHANGED <<cls, own, how, next>>
End(t, h, k, n) ==
  /\ MayUse(t) /\ own[h] = t /\ Free(h) /\ Cardinality(Ids) > 1
  /\ Note(ToString(<<k, n, Situation(h)>>), <<"end", t, h, k, n>>)
  /\ cls' = [cls EXCEPT ![h] = 0]
  /\ Hold(t, n, [kind |-> k, h |-> h, c |-> cls[h], uses |-> {h}, reads |-> FALSE])
  /\ UNCHANGED <<own, how, next>>
Send(t, h, u) ==
  /\ MayUse(t) /\ own[h] = t /\ Free(h) /\ u # t
  /\ Note("send", <<"send", t, h, u>>)
  /\ own' = [own EXCEPT ![h] = u] /\ UNCHANGED <<cls, held, how, next>>
Go(t) ==
  /\ held[t] # << >>
  /\ Note(ToString(<<"go", held[t].kind, Cardinality({h \in Ids : cls[h] = held[t].c}), {how[h] : h \in {x \in Ids : cls[x] = held[t].c}}>>), <<"go", t>>)
  /\ held' = [held EXCEPT ![t] = << >>] /\ UNCHANGED <<cls, own, how, next>>

Some(S) == {RandomElement(S)}
Ended == Len(hist) > STEPS
Turn(t) ==
  IF held[t] # << >> THEN Go(t)
  ELSE \E a \in Some(1..20) : \E n \in Some(Gates(t)) :
    LET mine == {h \in Ids : own[h] = t /\ Free(h)}
        seen == {h \in Ids : Seen(h)}
        none == {h \in HANDLES : h \notin Ids /\ \A u \in THREADS : held[u] # << >> => h \notin held[u].uses}
    IN  IF a <= 5 /\ seen # {} /\ none # {} THEN \E h \in Some(seen) : \E g \in Some(none) : Clone(t, h, g, n)
        ELSE IF a <= 12 /\ mine # {} THEN \E h \in Some(mine) : \E k \in Some(WRITES) : WriteTo(t, h, k, n)
        ELSE IF a <= 13 /\ Cardinality(mine) > 1 THEN \E h \in Some(mine) : \E g \in Some(mine \ {h}) : \E k \in Some(JOINS) : Join(t, h, g, k, n)
        ELSE IF a <= 15 /\ mine # {} /\ Cardinality(Ids) > 1 THEN \E h \in Some(mine) : \E k \in Some(ENDS) : End(t, h, k, n)
        ELSE IF a <= 17 /\ mine # {} /\ Cardinality(THREADS) > 1 THEN \E h \in Some(mine) : \E u \in Some(THREADS \ {t}) : Send(t, h, u)
        ELSE IF seen # {} THEN \E h \in Some(seen) : \E k \in Some(READS) : Read(t, h, k, n)
        ELSE Note("skip", <<"skip">>) /\ UNCHANGED <<cls, own, held, how, next>>
Next ==
  IF Ended THEN FALSE
  ELSE /\ \E t \in Some(THREADS) : Turn(t)
       /\ IF Len(hist') > STEPS /\ news' > 0 THEN PrintT("HIST " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
\* no tree is used by two at once unless all only read
Sane == \A t \in THREADS, u \in THREADS : (t # u /\ held[t] # << >> /\ held[u] # << >> /\ held[t].uses \cap held[u].uses # {}) => (held[t].reads /\ held[u].reads)
=============================================================================

------------------------------ MODULE PalmTrace ------------------------------
(* Trace validation: is a recorded run of the real library a behaviour of    *)
(* PalmMap?  Each line of the trace is one call with its arguments and the   *)
(* reply the caller saw; it must be a step of the PalmMap action of that     *)
(* name with exactly these values.  A "begin" line starts a new program from *)
(* the initial state.  x = 1 records that the call panicked.                 *)
EXTENDS PalmMap, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cfg          \* position; header of the current program
tvars == <<trees, curs, ents, hurt, flocks, l, cfg>>

TraceInit == Init /\ l = 1 /\ cfg = [dbg |-> 0, shared |-> 0, part |-> 0]

Begin(e) == /\ trees' = EmptyMap /\ curs' = EmptyMap /\ ents' = EmptyMap /\ hurt' = EmptyMap /\ flocks' = EmptyMap
            /\ cfg' = [dbg |-> e.dbg, shared |-> e.shared, part |-> e.part]

\* Calls that may only return, never panic.
Returns(e) == e.x = 0
\* The thread that made the call; each uses one entry handle at a time.
Th(e) == IF "th" \in DOMAIN e THEN e.th ELSE 0

Judge(e) ==
  CASE e.o = "ins"   -> Returns(e) /\ Insert(e.t, e.k, e.v, e.g, e.r)
    [] e.o = "get"   -> Returns(e) /\ Get(e.t, e.k, e.r)
    [] e.o = "rem"   -> Returns(e) /\ RemoveKey(e.t, e.k, e.r)
    [] e.o = "scan"  -> Scan(e.t, e.b, e.d, e.x, e.s)
    [] e.o = "step"  -> Returns(e) /\ Step(e.c, e.d, e.r)
    [] e.o = "rsum"  -> RangeSummary(e.t, e.b, e.x, e.n, e.f, e.l)
    [] e.o = "osum"  -> Returns(e) /\ ConsumeSummary(e.t, e.n, e.f, e.l)
    [] e.o = "getm"  -> Returns(e) /\ GetMut(e.t, e.k, e.w, e.r)
    [] e.o = "gets"  -> Returns(e) /\ GetMany(e.t, e.k, e.r)
    [] e.o = "len"   -> Returns(e) /\ Length(e.t, e.n, e.e)
    [] e.o = "pop"   -> Returns(e) /\ RemoveEnd(e.t, e.d, e.r)
    [] e.o = "idx"   -> IndexGet(e.t, e.k, e.x, e.r)
    [] e.o = "idxm"  -> IndexMut(e.t, e.k, e.w, e.x, e.r)
    [] e.o = "live"  -> Live(cfg.shared, e.v, e.k, e.bad, e.mem)
    [] e.o = "lmem"  -> Returns(e) /\ MemoryReturned(e.mem)
    [] e.o = "eopen" -> Returns(e) /\ OpenEntry(Th(e), e.t, e.k, e.g, e.occ)
    [] e.o = "ekey"  -> Returns(e) /\ EntryKey(Th(e), e.k, e.g)
    [] e.o = "eget"  -> Returns(e) /\ EntryGet(Th(e), e.r)
    [] e.o = "ewrite"-> Returns(e) /\ EntryWrite(Th(e), e.w, e.r)
    [] e.o = "evac"  -> Returns(e) /\ VacantInsert(Th(e), e.v)
    [] e.o = "emut"  -> Returns(e) /\ EntryIntoMut(Th(e))
    [] e.o = "erem"  -> Returns(e) /\ EntryRemove(Th(e), e.r)
    [] e.o = "ekeyi" -> Returns(e) /\ EntryIntoKey(Th(e), e.k, e.g)
    [] e.o = "edrop" -> Returns(e) /\ EntryDrop(Th(e))
    [] e.o = "oref"  -> OpenRef(e.c, e.t, e.b, e.x)
    [] e.o = "omut"  -> OpenMut(e.c, e.t, e.b, e.x)
    [] e.o = "oown"  -> Returns(e) /\ OpenOwn(e.c, e.t)
    [] e.o = "omrg"  -> Returns(e) /\ OpenMerge(e.c, e.t, e.u, e.d)
    [] e.o = "cwr"   -> Returns(e) /\ WriteHeld(e.c, e.k, e.w, e.r)
    [] e.o = "ccl"   -> Returns(e) /\ CloneCur(e.c, e.d)
    [] e.o = "cend"  -> Returns(e) /\ CloseCur(e.c)
    [] e.o = "chint" -> Returns(e) /\ SizeHint(e.c, e.l, e.h)
    [] e.o = "cnth"  -> Returns(e) /\ Nth(e.c, e.d, e.n, e.r)
    [] e.o = "cfind" -> Returns(e) /\ FindFrom(e.c, e.d, e.k, e.r)
    [] e.o = "ccol"  -> Returns(e) /\ Collect(e.c, e.d, e.s)
    [] e.o = "ccnt"  -> Returns(e) /\ CountLeft(e.c, e.n)
    [] e.o = "clast" -> Returns(e) /\ LastLeft(e.c, e.r)
    [] e.o = "flock" -> Returns(e) /\ Flock(e.f, e.t, e.n)
    [] e.o = "fscan" -> Returns(e) /\ FlockScan(e.f, e.d, e.s)
    [] e.o = "ftake" -> Returns(e) /\ FlockTake(e.f, e.u)
    [] e.o = "fdrop" -> Returns(e) /\ FlockDrop(e.f)
    [] e.o = "hclone"-> Returns(e) /\ HammerClone(e.t, e.ks, e.v, e.ss)
    [] e.o = "cdrain"-> Returns(e) /\ Drain(e.c, e.d, e.s)
    [] e.o = "scanm" -> ScanMut(e.t, e.b, e.d, e.v, e.x, e.s)
    [] e.o = "insn"  -> Returns(e) /\ InsertMany(e.t, e.k, e.p, e.n, e.v, e.r)
    [] e.o = "remn"  -> Returns(e) /\ RemoveMany(e.t, e.k, e.p, e.n, e.r)
    [] e.o = "popn"  -> Returns(e) /\ PopMany(e.t, e.d, e.n, e.r)
    [] e.o = "new"   -> Returns(e) /\ New(e.t)
    [] e.o = "load"  -> Load(e.t, e.s, cfg.dbg, e.x)
    [] e.o = "loadn" -> Returns(e) /\ LoadMany(e.t, e.k, e.p, e.n, e.v)
    [] e.o = "frommap" -> Returns(e) /\ FromMap(e.t, e.s)
    [] e.o = "fromseq" -> Returns(e) /\ FromSeq(e.t, e.s)
    [] e.o = "ext"   -> Returns(e) /\ ExtendSeq(e.t, e.s)
    [] e.o = "clone" -> Returns(e) /\ CloneTree(e.t, e.u)
    [] e.o = "drop"  -> Returns(e) /\ DropTree(e.t)
    [] e.o = "comb"  -> Returns(e) /\ Combine(e.t, e.u, e.f, e.d)
    [] e.o = "cmp"   -> Returns(e) /\ Compare(cfg.part, e.t, e.u, e.eq, e.ord, e.h)
    [] e.o = "dbg"   -> Returns(e) /\ Debugged(e.t, e.m, e.s)
    [] e.o = "dbgs"  -> Returns(e) /\ DebugList(e.t, e.s)
    \* an injected panic went off inside the call
    [] e.o = "fault" -> Interrupt({e.us[i] : i \in 1..Len(e.us)}, e.t, e.s)
    \* ... inside a call that only reads what exists, or whose result never came to be
    [] e.o = "rfault" -> UNCHANGED vars
    \* the life of an interrupted tree: any call may panic again
    [] e.o = "hscan" -> HurtScan(e.t, e.s)
    [] e.o = "hget"  -> HurtGet(e.t, e.k, e.r)
    [] e.o = "hins"  -> HurtInsert(e.t, e.k, e.v, e.g, e.r)
    [] e.o = "hrem"  -> HurtRemove(e.t, e.r)
    [] e.o = "hpop"  -> HurtRemove(e.t, e.r)
    [] e.o = "hent"  -> HurtEntry(e.t, e.k, e.v, e.g, e.r)
    [] e.o = "hmut"  -> HurtMut(e.t, e.v, e.s)
    [] e.o = "hown"  -> HurtConsume(e.t, e.s)
    [] e.o = "hcopy" -> HurtCopy(e.t, e.u)
    [] e.o = "hcomb" -> Interrupt({e.u}, e.t, << >>)
    [] e.o = "none"  -> UNCHANGED vars      \* nothing was left to call it on
    [] e.o = "hdrop" -> Returns(e) /\ HurtDrop(e.t)
    [] e.o = "hlive" -> Returns(e) /\ HurtLive(e.bad, e.v)
    [] e.o = "end"   -> UNCHANGED vars      \* the recording process ended normally
    \* anything else (e.g. "crash", "hang") is no action at all
    [] OTHER         -> FALSE

TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
       IF e.o = "begin" THEN Begin(e) ELSE Judge(e) /\ UNCHANGED cfg

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* One state per consumed line, plus the initial one.
View == l
TraceAccepted ==
  LET d == TLCGet("stats").diameter
  IN  IF d - 1 = Len(Trace) THEN TRUE
      ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================

#!/usr/bin/env python3
"""Writes the model configurations of spec/mc (committed; run again after changing this file)."""
import os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec", "mc")
os.makedirs(D, exist_ok=True)


def w(name, text):
    with open(os.path.join(D, name + ".cfg"), "w") as f:
        f.write(text)


def bset(xs):
    return "{" + ",".join('"%s"' % x for x in xs) + "}" if xs and isinstance(xs[0], str) else "{" + ",".join(map(str, xs)) + "}"


# ------------------------------------------------------------ BPlus: the tree as implemented, exhaustively
ALL = "ShapeOK NoPanic LookupOK InOrder RangesOK HintOK".split()


def bplus(name, B, L, N, ops, starts=(0,), depth=0, maxsize=None, vers=1, bug="", invs=ALL, refines=True):
    w(name, "CONSTANTS B = %d L = %d BUG = %s N = %d VERS = %d\nOPS = %s\nSTARTS = %s DEPTH = %d MAXSIZE = %d\nSPECIFICATION Spec\nVIEW view\nINVARIANTS %s\n%sCHECK_DEADLOCK FALSE\n"
      % (B, L, bset([bug]) if bug else "{}", N, vers, bset(list(ops)), bset(list(starts)), depth, N + 2 if maxsize is None else maxsize, " ".join(invs), "PROPERTY Refines\n" if refines else ""))


bplus("edit", 3, 2, 6, ["ins", "insr", "rem", "pop"])
bplus("edit-wide", 3, 2, 8, ["ins", "rem", "pop"])
bplus("edit-tall", 2, 2, 7, ["ins", "insr", "rem"])
bplus("edit-tall6", 2, 2, 6, ["ins", "insr", "rem", "pop"])
bplus("edit-l3", 3, 3, 8, ["ins", "insr", "rem"])
bplus("edit-b4", 4, 2, 8, ["ins", "rem"])
bplus("lookup", 3, 2, 5, ["ins", "insref", "getm", "rem"], vers=2)
bplus("lookup-wide", 3, 2, 6, ["ins", "insref", "getm", "rem"], vers=2)
bplus("ranges", 3, 2, 5, ["ins", "rem", "ranges"])
bplus("ranges-wide", 3, 2, 6, ["ins", "insr", "rem", "ranges"])
bplus("ranges-tall", 2, 2, 6, ["ins", "rem", "ranges"])
bplus("iter", 3, 2, 5, ["ins", "rem", "range"])
bplus("iter-tall", 2, 2, 6, ["ins", "rem", "range"])
bplus("own", 3, 2, 6, ["ins", "rem", "own"])
bplus("own-tall", 2, 2, 7, ["ins", "rem", "own"])
bplus("load", 2, 2, 84, ["ins", "insr", "rem", "rebuild"], starts=range(0, 42), depth=1, maxsize=200)
bplus("load3", 3, 2, 130, ["ins", "insr", "rem", "pop"], starts=[1, 5, 6, 7, 17, 18, 19, 20, 24, 36, 37, 54, 55, 56, 60, 61], depth=1, maxsize=200)
bplus("load-deep", 2, 2, 40, ["ins", "insr", "rem", "pop"], starts=[8, 9, 16, 17, 18], depth=2, maxsize=200)

# Controls: a mistake in the design, and what then fails (with the shape not looked at, something a user sees).
SEEN = [i for i in ALL if i != "ShapeOK"]
bplus("no-nostep", 3, 2, 7, ["ins", "rem", "ranges"], bug="nostep", invs=SEEN)
bplus("no-nostepback", 3, 2, 7, ["ins", "rem", "ranges"], bug="nostepback", invs=SEEN)
bplus("no-exclonly", 3, 2, 7, ["ins", "rem", "ranges"], bug="exclonly", invs=SEEN)
bplus("no-cross", 3, 2, 7, ["ins", "rem", "ranges"], bug="cross", invs=SEEN)
bplus("no-odd", 3, 3, 8, ["ins", "insr", "rem"], bug="odd", invs=SEEN)
bplus("no-pairkey", 3, 2, 7, ["ins", "insr", "rem"], bug="pairkey", invs=SEEN)
bplus("no-choose", 3, 2, 7, ["ins", "rem"], bug="choose", invs=SEEN)
bplus("no-noraise", 3, 2, 8, ["ins", "rem"], bug="noraise", invs=SEEN)
bplus("no-recempty", 3, 2, 4, ["ins", "insr", "rem"], bug="recempty", invs=SEEN)
bplus("no-nolower", 3, 2, 8, ["ins", "insr", "rem"], bug="nolower", invs=SEEN)
bplus("no-lowerone", 2, 2, 7, ["ins", "rem"], bug="lowerone", invs=SEEN)
bplus("no-noprune", 3, 2, 6, ["ins", "rem", "own"], bug="noprune", invs=SEEN)
bplus("no-ownback", 3, 2, 6, ["ins", "rem", "own"], bug="ownback", invs=SEEN)
bplus("no-fold", 2, 2, 84, ["rebuild"], starts=range(0, 42), depth=1, maxsize=200, bug="fold", invs=SEEN)

# ------------------------------------------------------------ Cow: sharing, copying, dropping, by threads
def cow(name, threads, handles, cells, values, bug=""):
    w(name, "CONSTANTS THREADS = %s HANDLES = %s CELLS = %s VALUES = %s BUG = %s\nSPECIFICATION Spec\nVIEW view\nINVARIANTS NoMisuse Counts NoLeak Isolated\nPROPERTY Refines\nCHECK_DEADLOCK FALSE\n"
      % (bset(list(range(1, threads + 1))), bset(list(range(1, handles + 1))), bset(list(range(1, cells + 1))), bset(list(range(values))), bset([bug]) if bug else "{}"))


cow("cow", 2, 3, 4, 2)
cow("cow-three", 3, 3, 5, 2)
cow("cow-four", 2, 4, 5, 2)
for b in ["nocow", "noinc", "racyinc", "racydec", "dropfirst", "keepold"]:
    cow("cow-" + b, 2, 3, 4, 2, bug=b)

# ------------------------------------------------------------ Merge, and lemmas
def merge(name, n, bug=""):
    w(name, "CONSTANTS N = %d BUG = %s\nSPECIFICATION Spec\nPROPERTY Refines\nCHECK_DEADLOCK FALSE\n" % (n, bset([bug]) if bug else "{}"))


merge("merge", 5)
merge("merge-wide", 7)
for b in ["tie", "keepboth", "winner", "firsttie"]:
    merge("merge-" + b, 3, bug=b)
w("lemmas", "CONSTANTS K = 8 MAXLEN = 9 LOADS = 90\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
w("lemmas-wide", "CONSTANTS K = 12 MAXLEN = 13 LOADS = 600\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")

# ------------------------------------------------------------ Fault: ownership, and panics in user code
def fault(name, B, L, N, share, panics, after, bug=""):
    w(name, "CONSTANTS B = %d L = %d BUG = %s N = %d SHARE = %s PANICS = %d AFTER = %d\nSPECIFICATION Spec\nVIEW view\nINVARIANTS Linear Genuine Whole\nPROPERTY Apart\nCHECK_DEADLOCK FALSE\n"
      % (B, L, bset([bug]) if bug else "{}", N, "TRUE" if share else "FALSE", panics, after))


fault("fault", 3, 2, 5, False, 1, 1)
fault("fault-share", 3, 2, 4, True, 1, 1)
fault("fault-wide", 3, 2, 6, False, 1, 2)
fault("fault-tall", 2, 2, 6, False, 1, 1)
fault("fault-twice", 2, 2, 5, False, 2, 2)
fault("fault-share-tall", 2, 2, 4, True, 1, 1)
fault("fault-share-twice", 3, 2, 4, True, 2, 2)
for b in ["keepslot", "keeproot", "shallow", "take"]:
    fault("fault-" + b, 2, 2, 5, b == "shallow", 1, 1, bug=b)

# ------------------------------------------------------------ BPlusGen: histories for the real crate
G = "CONSTANTS B = %d L = %d BUG = {} STEPS = %d LIMIT = %d\nCALLS = %s\nSTARTS = %s\nSPECIFICATION Spec\nINVARIANT Sane\nCHECK_DEADLOCK FALSE\n"
for b, l in [(4, 4), (5, 5), (5, 4), (4, 5), (3, 3), (7, 6), (6, 7)]:
    n = l * b
    st = sorted({0, 1, l, l + 1, n, n + 1, n + l, n + l + 1, 2 * n + 1, n * b, n * b + 1, n * b + l})   # around where a load gains a level
    few = [x for x in st if x <= 120]
    calls = ["insr", "get", "range", "empty", "rebuild"]
    w("gen%d%d" % (b, l), G % (b, l, 150, 90 if l < 6 else 140, bset(calls), bset(few)))
    w("deep%d%d" % (b, l), G % (b, l, 220, 2 * n * b + 60, bset(calls), bset(sorted({n * b, n * b + 1, n * b + l, 2 * n * b} | ({n * b * b + 1} if n * b * b < 400 else set())))))
    w("ends%d%d" % (b, l), G % (b, l, 160, 60, bset(["pops", "empty", "insr"]), bset(sorted({0, 1, 2, l, l + 1, 2 * l + 1, n, n + 1, 2 * n}))))
    w("ranges%d%d" % (b, l), G % (b, l, 150, 90, bset(["range"]), bset([x for x in few if x > 0])))

# ------------------------------------------------------------ CowGen: histories of clones
W1 = ["ins", "new", "insr", "rem", "gone", "low", "high", "getm", "idxm", "evac", "erem", "ewrite", "emut", "scanm", "ranm", "omut", "ext", "insn", "remn", "popn"]
W2 = ["ins", "new", "insr", "rem", "gone", "low", "high", "getm", "idxm", "scanm", "ranm", "ext", "insn", "remn", "popn"]
J = ["mergel", "merger", "plus", "appl", "appr", "pluseq"]
R = ["get", "linear", "scan", "back", "range", "len", "cmp"]
for name, th, hs, wr, ends in [("clones", 1, 5, W1, ["drop", "osum", "own"]), ("threads", 3, 6, W2, ["drop", "osum"])]:
    w(name, "CONSTANTS THREADS = %s HANDLES = %s STEPS = 60\nSIZES = {0,1,3,4,5,9,17,40,90,300}\nWRITES = %s\nJOINS = %s\nREADS = %s\nENDS = %s\nSPECIFICATION Spec\nINVARIANT Sane\nCHECK_DEADLOCK FALSE\n"
      % (bset(list(range(1, th + 1))), bset(list(range(1, hs + 1))), bset(wr), bset(J), bset(R), bset(ends)))

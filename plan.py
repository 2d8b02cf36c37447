"""What each property is decided by: the jobs of its check, per tier."""
import json, random

BUDGET = {"quick": 600, "thorough": 2400}   # seconds after which no new job is started
CORE = ["int44u", "int55a", "int64u", "tok44r", "tok54u", "tok45a", "str67r"]
TOK = ["tok44r", "tok54u", "tok45a"]
WIDE = CORE + [
    "int44r", "int44a", "int55u", "int45a", "int54r", "int67u", "int64a", "int5x64u", "int64x4r", "int33u", "int66u",
    "tok44u", "tok44a", "tok55r", "tok45u", "tok76a", "tok64r", "tok7x16u", "str76u", "str16x5a", "alv44u", "alv55r", "alv44a",
    "alk45a", "alk54r", "par44r", "par55a", "par67u", "int300u", "int512x4u", "int5x512r", "tok130x4a", "tokz55a", "tokz64u", "tokz44r", "zv44u", "zv64r", "zv55a", "zk44r", "zk64u", "byte44r", "byte64u", "big4x16u", "big55r", "rev44a", "rev66u"]

RULE = ("A program is a sequence of calls on the public interface, made up at random around the property's own operations or "
        "generated by TLC from a specification; each is run on the real crate, and TLC steps PalmMap.tla through the recorded "
        "calls and replies. Every program counted made at least one call and was judged to its last line.")
ASSUMPTIONS = [
    "the driver (harness/src) records faithfully what the crate returned, and keeps the borrow rules the compiler enforces",
    "rustc, the standard library's Rc, Arc and Box, TLC and the CommunityModules are correct",
    "exploration is bounded by the programs run: random ones sample, generated ones cover the bounded specifications they come from",
]


def gen(prof, n, events, kits=None, wide=False, ops=300):
    """n shards of random programs, alternating between debug and release builds"""
    out = []
    for i in range(n):
        out.append(dict(kind="gen", prof=prof, profile=["chk", "rel"][i % 2], kits=kits or CORE, events=events, ops=ops, wide=wide))
    return out


def large(prof, n, kits=None, wide=False, events=700):
    """the same on trees of thousands of entries"""
    out = []
    for i in range(n):
        out.append(dict(kind="gen", prof=prof, profile=["chk", "rel"][i % 2], kits=kits or CORE, events=events, ops=60, wide=wide,
                        large=[9000, 9000, 24000, 5000, 14000, 40000][i % 6], heap="3g", cost=3))
    return out


def jobs(prop, tier):
    q = tier == "quick"
    out = []
    if prop not in ("C12", "C16"):
        kits = {"C18": TOK + ["tokz44r"], "C14": CORE + ["tokz44r"], "C15": WIDE}.get(prop, CORE)
        out += large(prop, 6 if q else 36, kits=kits if q else kits + ["int5x64u", "int64x4r"], wide=prop == "C15" or not q)
    if prop == "C12":
        for i in range(8 if q else 48):
            out.append(dict(kind="gen", cmd="threads", profile=["rel", "chk"][i % 2], kits=["tok45a", "int55a"], events=25000, threads=[3, 6, 8][i % 3], ops=[150, 400][i % 2]))
    elif prop == "C16":
        kits = ["int44u", "int55a", "tok44r", "int64u"]
        out.append(dict(kind="gen", cmd="big", profile="rel", kits=["int44u"], programs=1, size=560000, style=1, heap="4g", jit=False, cost=9))
        out.append(dict(kind="gen", cmd="big", profile="rel", kits=["int44u"], programs=1, size=1500000, style=9, heap="6g", jit=False, cost=9))
        out.append(dict(kind="gen", cmd="big", profile="chk", kits=["int44u"], programs=1, size=450000, heap="4g", jit=False, cost=9))
        for i in range(8 if q else 24):
            out.append(dict(kind="gen", cmd="big", profile=["chk", "rel"][i % 2], kits=kits, programs=6, size=20000, cost=3))
        for i in range(4 if q else 8):
            out.append(dict(kind="gen", cmd="big", profile=["rel", "chk"][i % 2], kits=["int44u", "tok44r"], programs=25, size=2000, cost=2))
        if not q:
            for i in range(6):
                out.append(dict(kind="gen", cmd="big", profile=["rel", "chk"][i % 2], kits=kits, programs=1, size=600000, heap="5g", jit=False, cost=9))
        out += gen("C16", 4 if q else 16, 40000)
    elif prop == "C15":
        wide = WIDE if not q else WIDE
        out += gen("C15", 12 if q else 48, 40000, kits=wide, wide=True, ops=200)
        big = ["int300u", "int5x512r", "tok130x4a", "int64u", "int512x4u", "int64x4r", "int5x64u"]
        for i in range(1 if q else 6):
            out.append(dict(kind="gen", cmd="big", profile=["rel", "chk"][i % 2], kits=big[:1], programs=1, size=120000, wide=True, heap="4g", jit=False, cost=9))
            out.append(dict(kind="gen", cmd="big", profile=["chk", "rel"][i % 2], kits=big, programs=14, size=8000, wide=True, cost=5))
        for i in range(2 if q else 8):
            out.append(dict(kind="across", prof="C01", profile=["chk", "rel"][i % 2], kits=["int44u"] + [k for k in WIDE if k[:3] in ("int", "str", "alv", "alk", "rev", "big")], events=1500, wide=True, cost=4))
    elif prop == "C18":
        out += gen("C18", 12 if q else 60, 40000, kits=TOK + ["tokz44r"] if q else TOK + ["tokz44r", "tok55r", "tok45u", "tok76a", "tok44a"], wide=not q)
    elif prop == "C13":
        out += gen(prop, 14 if q else 60, 50000, kits=CORE + ["par44r"])
        if not q:
            out += gen(prop, 20, 50000, kits=WIDE, wide=True)
    elif prop == "C14":
        out += gen("C14", 12 if q else 60, 40000, kits=CORE + ["tokz44r"])
    else:
        out += gen(prop, 14 if q else 80, 50000, kits=CORE if q else CORE + ["int44r", "int45a", "int54r", "int67u", "tok44u", "tok55r", "tok76a", "tok7x16u", "str16x5a"], wide=not q)
    return out + specs(prop, tier) + designs(prop, tier)


# The design specifications behind each property: (module, configuration) to hold, and controls to fail.
DESIGN = {
    "C01": (["BPlus lookup"], ["BPlus no-pairkey", "BPlus no-choose", "BPlus no-nolower"], ["BPlus lookup-wide", "BPlus edit-tall", "BPlus edit-wide"]),
    "C02": (["BPlus edit", "BPlus load-deep"], ["BPlus no-odd", "BPlus no-noraise", "BPlus no-lowerone"], ["BPlus edit-wide", "BPlus edit-tall", "BPlus edit-l3", "BPlus edit-b4"]),
    "C03": (["BPlus edit-tall6"], ["BPlus no-noprune"], ["BPlus edit-wide", "BPlus load3"]),
    "C04": (["BPlus lookup"], ["BPlus no-choose", "BPlus no-noraise"], ["BPlus lookup-wide", "BPlus edit-tall"]),
    "C05": (["BPlus iter"], ["BPlus no-cross", "BPlus no-nostep"], ["BPlus iter-tall"]),
    "C06": (["BPlus ranges"], ["BPlus no-nostep", "BPlus no-nostepback", "BPlus no-exclonly"], ["BPlus ranges-wide", "BPlus ranges-tall"]),
    "C07": (["BPlus iter"], ["BPlus no-cross", "BPlus no-exclonly"], ["BPlus iter-tall"]),
    "C08": (["BPlus own"], ["BPlus no-ownback", "BPlus no-noprune"], ["BPlus own-tall"]),
    "C09": (["BPlus load", "Lemmas lemmas"], ["BPlus no-fold"], ["BPlus load3", "Lemmas lemmas-wide"]),
    "C10": (["Merge merge"], ["Merge merge-tie", "Merge merge-keepboth", "Merge merge-winner", "Merge merge-firsttie"], ["Merge merge-wide", "BPlus load3"]),
    "C11": (["Cow cow"], ["Cow cow-nocow", "Cow cow-noinc"], ["Cow cow-four"]),
    "C12": (["Cow cow"], ["Cow cow-racyinc", "Cow cow-racydec", "Cow cow-dropfirst"], ["Cow cow-three"]),
    "C13": (["Lemmas lemmas"], [], ["Lemmas lemmas-wide"]),
    "C14": (["Cow cow"], ["Cow cow-keepold", "Cow cow-racydec"], ["BPlus own-tall"]),
    "C15": (["BPlus edit", "BPlus edit-tall6"], ["BPlus no-odd"], ["BPlus edit-l3", "BPlus edit-b4", "Lemmas lemmas-wide"]),
    "C16": (["BPlus load-deep"], ["BPlus no-fold"], ["BPlus load3", "Lemmas lemmas-wide", "BPlus load"]),
    "C17": (["BPlus edit"], ["BPlus no-recempty", "BPlus no-noprune"], ["BPlus edit-tall", "BPlus edit-l3"]),
    "C18": (["Fault fault", "Fault fault-share"], ["Fault fault-keepslot", "Fault fault-keeproot", "Fault fault-shallow", "Fault fault-take"],
            ["Fault fault-wide", "Fault fault-tall", "Fault fault-twice", "Fault fault-share-tall", "Fault fault-share-twice"]),
}


def designs(prop, tier):
    hold, fail, more = DESIGN.get(prop, ([], [], []))
    out = []
    for x in hold + (more if tier != "quick" else []):
        m, c = x.split()
        big = x in more or m == "Cow"
        out.append(dict(kind="design", module=m + ".tla", cfg="mc/%s.cfg" % c, workers=4 if big else 1, jit=not big, heap="8g" if x in more else "3g", timeout=1500))
    for x in fail:
        m, c = x.split()
        out.append(dict(kind="design", module=m + ".tla", cfg="mc/%s.cfg" % c, fails="is violated"))
    return out


# which histories a property's programs are made from
FAMILY = {"C01": "gen", "C02": "gen", "C03": "ends", "C04": "gen", "C05": "ranges", "C06": "ranges", "C07": "ranges", "C08": "ends",
          "C09": "gen", "C10": "gen", "C11": "gen", "C13": "gen", "C14": "ends", "C17": "ends", "C18": "gen"}
# where trees of a size (branch, leaf) live
KITS = {"44": ["int44u", "tok44r"], "55": ["int55a"], "54": ["tok54u"], "45": ["tok45a"],
        "33": ["int33u"], "67": ["int67u"], "76": ["tok76a", "str76u"]}
WIDEKITS = {"44": ["int44u", "tok44r", "int44r", "int44a", "tok44u", "tok44a", "alv44u", "alv44a", "rev44a"],
            "55": ["int55a", "int55u", "tok55r", "alv55r", "big55r"], "54": ["tok54u", "int54r", "alk54r"], "45": ["tok45a", "int45a", "tok45u", "alk45a"],
            "33": ["int33u"], "67": ["int67u"], "76": ["tok76a", "str76u"]}


def histories(fam, size, num, combos, copies=1, wide=False, cost=5):
    """Histories of the tree as implemented, made by simulating BPlusGen."""
    return dict(kind="spec", module="BPlusGen.tla", cfg="mc/%s%s.cfg" % (fam, size), args=["-simulate", "num=%d" % num, "-depth", "400", "-seed", "@SEED"],
                combos=combos, copies=copies, wide=wide, cost=cost, at_least=num // 10, chunk=40)


def shares(cfg, num, combos, copies=1, wide=False, cost=5, cmd="replay", chunk=40):
    """Histories of trees and their clones, made by simulating CowGen."""
    return dict(kind="spec", module="CowGen.tla", cfg="mc/%s.cfg" % cfg, args=["-simulate", "num=%d" % num, "-depth", "200", "-seed", "@SEED"],
                combos=combos, copies=copies, wide=wide, cost=cost, at_least=num // 10, chunk=chunk, cmd=cmd)


def specs(prop, tier):
    q = tier == "quick"
    fam = FAMILY.get(prop)
    out = []
    if prop in ("C11", "C14", "C18", "C08", "C07", "C04"):
        ks = TOK if prop in ("C14", "C18") else TOK + ["int44u", "int55a"]
        if not q:
            ks = ks + ["tok44a", "tok55r", "tok45u", "tok76a", "tok44u"] + ([] if prop in ("C14", "C18") else ["int44r", "int44a", "int67u", "alv44a", "str16x5a"])
        n = 400 if prop == "C11" else 150
        out.append(shares("clones", n if q else 6 * n, [(k, p) for k in ks for p in ("chk", "rel")], copies=1 if q else 3, wide=not q))
    if prop in ("C12", "C11", "C14"):
        n = 400 if prop == "C12" else 80
        ks = ["tok45a"] if q else ["tok45a", "tok44a", "tok76a"]
        for i in range(1 if q else 3):
            out.append(shares("threads", n if q else 5 * n, [(k, p) for k in ks for p in ("chk", "rel")], copies=2, wide=not q, cmd="sched"))
    if fam is None:
        return out
    tok = prop in ("C14", "C18")    # what these look at, only ledgered kinds show
    both = lambda ks: [(k, p) for k in ks if not tok or k.startswith("tok") for p in ("chk", "rel")]
    if q:
        out.append(histories(fam, "44", 220, both(KITS["44"])))
        other = {"C03": "45", "C08": "54", "C14": "54", "C17": "45", "C18": "45", "C05": "54", "C06": "45", "C07": "55"}.get(prop, "55")
        out.append(histories(fam, other, 80, both(KITS[other])))
        out.append(histories("deep", "44", 30, both(KITS["44"])))
    else:
        for size in ("44", "55", "54", "45", "33", "67", "76"):
            ks = both(WIDEKITS[size])
            if not ks:
                continue
            for f in sorted({fam, "gen", "deep", "ends", "ranges"}):
                out.append(histories(f, size, 1500 if f == fam else 300, ks, copies=2, wide=True, cost=20))
    return out


def programs(j, out, seed, prop):
    """The programs TLC's output stands for."""
    import probes
    rng = random.Random(seed)
    hs = []
    for line in out.split("\n"):
        if line.startswith('"HIST '):
            hs.append(json.loads(json.loads(line)[5:]))
    if j["module"] == "CowGen.tla":
        return [probes.clones(h, prop, rng, j.get("cmd") == "sched") for h in hs]
    return [probes.history(h, prop, rng) for h in hs]

"""Turns histories generated by the specifications into programs for the driver.

A history says which calls to make and which of them exercised the structure in a new way; what is
looked at around those calls is chosen here, according to the property.  The mirror kept here only
helps to choose arguments: the judge of every reply is the specification."""
import bisect, random

BIG = 10 ** 9


class Prog:
    def __init__(self, prop, rng):
        self.prop, self.rng = prop, rng
        self.out = []
        self.t = 0          # the tree the history is about
        self.m = {}         # key -> (value, tag)
        self.v = 5000
        self.next = 1
        self.clones = []    # [tree, contents]
        self.c = 0

    def ev(self, o, **kw):
        e = {"o": o}
        e.update(kw)
        self.out.append(e)

    def value(self):
        self.v += 1
        return self.v

    def tree(self):
        self.next += 1
        return self.next

    def cur(self):
        self.c += 1
        return self.c

    def tag(self):
        return self.rng.randrange(1, 60)

    def keys(self):
        return sorted(self.m)

    def pairs(self, m=None):
        m = self.m if m is None else m
        return [[k, m[k][0] * 64 + m[k][1]] for k in sorted(m)]

    # ------------------------------------------------------------ the calls of a history
    def start(self, n):
        if n == 0:
            self.ev("new", t=self.t)
        else:
            self.ev("loadn", t=self.t, k=16, p=16, n=n, v=1000)
            self.m = {16 * (i + 1): (1000 + i, 0) for i in range(n)}

    def put(self, k, v, g):
        self.m[k] = (v, self.m[k][1] if k in self.m else g)

    def call(self, c):
        o = c[0]
        r = self.rng
        if o in ("ins", "insr"):
            k, v, g = c[1], self.value(), self.tag()
            if o == "ins" and (self.prop == "C04" or r.random() < 0.15):
                w = self.value()
                self.ev("eopen", t=self.t, k=k, g=g)
                if r.random() < 0.3:
                    self.ev("ekey")
                if k in self.m:
                    self.ev("eget")
                    self.ev("ewrite", w=v, m=r.randrange(2))
                    if r.random() < 0.5:
                        self.ev("emut")
                        self.ev("ewrite", w=w, m=0)
                        v = w
                    self.put(k, v, 0)
                else:
                    self.ev("evac", v=v)
                    if r.random() < 0.7:
                        self.ev("ewrite", w=w, m=0)
                        v = w
                    self.m[k] = (v, g)
                self.ev("edrop")
            else:
                self.ev("ins", t=self.t, k=k, v=v, g=g, m=1 if o == "insr" else 0)
                self.put(k, v, g)
        elif o == "rem":
            k = c[1]
            if self.prop == "C04" or r.random() < 0.1:
                self.ev("eopen", t=self.t, k=k, g=self.tag())
                if k in self.m:
                    self.ev("erem", m=r.randrange(2))
                elif r.random() < 0.5:
                    self.ev("ekeyi")
                else:
                    self.ev("edrop")
            else:
                self.ev("rem", t=self.t, k=k)
            self.m.pop(k, None)
        elif o == "pop":
            self.ev("pop", t=self.t, d=c[1])
            if self.m:
                del self.m[max(self.m) if c[1] else min(self.m)]
        elif o == "get":
            k = c[1]
            if self.prop == "C04":
                self.ev("eopen", t=self.t, k=k, g=self.tag())
                self.ev("ekey")
                if k in self.m:
                    self.ev("eget")
                self.ev("edrop")
            elif self.prop == "C01" and r.random() < 0.5:
                self.getm(k)
            else:
                self.ev("get", t=self.t, k=k, m=r.randrange(2))
        elif o == "range":
            b = list(c[1])
            if self.prop == "C07":
                self.scanm(b)
            elif self.prop == "C05" and r.random() < 0.5:
                self.walk("oref", b)
            elif self.prop == "C06" and r.random() < 0.5:
                self.walk("oref", b)
            else:
                self.ev("scan", t=self.t, b=b, d=0)
                self.ev("scan", t=self.t, b=b, d=1)
        elif o == "rebuild":
            self.rebuild()

    def getm(self, k):
        w = self.value()
        self.ev("getm", t=self.t, k=k, w=w)
        if k in self.m:
            self.put(k, w, 0)

    def within(self, b):
        return [k for k in self.keys() if (b[0] == 0 or k > b[1] or b[0] == 1 and k == b[1]) and (b[2] == 0 or k < b[3] or b[2] == 1 and k == b[3])]

    def scanm(self, b):
        v = self.value() + 100
        self.v += 3000
        self.ev("scanm", t=self.t, b=b, d=self.rng.randrange(2), v=v)
        for k in self.within(b):
            self.put(k, v + k, 0)
        self.v = max(self.v, v + 3000)

    def walk(self, how, b, t=None):
        """An iterator stepped from both ends, in a random pattern, to its end and beyond."""
        r = self.rng
        c = self.cur()
        if how == "oown":
            self.ev("oown", c=c, t=t)
            left = self.keys()
        else:
            self.ev(how, c=c, t=self.t if t is None else t, b=b)
            left = self.within(b)
        n = len(left)
        p = r.choice([0.05, 0.5, 0.5, 0.95])
        held = []
        done = 0
        while done < min(n + 2, 40):
            d = 1 if r.random() < p else 0
            x = r.random()
            if how == "oown" and x < 0.3:
                self.ev("chint", c=c)
            if x > 0.93 and left:
                i = r.randrange(0, min(4, len(left)))
                self.ev("cnth", c=c, d=d, n=i)
                for _ in range(i):
                    left.pop(-1 if d else 0)
                held.append(left.pop(-1 if d else 0))
                done += i + 1
                continue
            self.ev("step", c=c, d=d)
            done += 1
            if left:
                held.append(left.pop(-1 if d else 0))
            if how == "omut" and held and r.random() < 0.5:
                k, w = r.choice(held), self.value()
                self.ev("cwr", c=c, k=k, w=w)
                self.put(k, w, 0)
            if how == "oref" and r.random() < 0.03:
                e = self.cur()
                self.ev("ccl", c=c, d=e)
                self.ev("cdrain", c=e, d=r.randrange(2), cap=4096)
                self.ev("cend", c=e)
        if how == "oown":
            self.ev("chint", c=c)
        if len(left) and r.random() < 0.5:
            self.ev("cdrain", c=c, d=r.randrange(2), cap=4096)
        self.ev("cend", c=c)

    def rebuild(self):
        """What the history calls a bulk load of the present entries."""
        r = self.rng
        how = r.randrange(5)
        if self.prop == "C09":
            u = self.tree()
            if how < 3:
                self.ev("load", t=u, s=self.pairs())
            elif how == 3:
                self.ev("new", t=u)
                self.ev("comb", t=u, u=self.t, f="merge", d=r.randrange(2))
                self.t = u
                return
            else:
                self.ev("load", t=u, s=self.pairs())
            self.ev("cmp", t=u, u=self.t)
            self.ev("drop", t=self.t)
            self.t = u
        else:
            u = self.tree()
            self.ev("new", t=u)
            if how < 2:
                self.ev("comb", t=self.t, u=u, f="merge", d=r.randrange(2))
            else:
                self.ev("comb", t=self.t, u=u, f="append" if self.m else "merge", d=r.randrange(2))

    # ------------------------------------------------------------ what is looked at
    def gets(self, lo, hi):
        lo = max(lo, 0)
        self.ev("gets", t=self.t, k=lo, n=hi - lo + 1)

    def top(self):
        return (max(self.m) if self.m else 0) + 3

    def near(self, k):
        """stored keys around k"""
        ks = self.keys()
        i = bisect.bisect_left(ks, k)
        return ks[max(0, i - 6): i + 6]

    def probe(self, c):
        """After a call that did something new to the structure."""
        p, r, t = self.prop, self.rng, self.t
        k = c[1] if len(c) > 1 and isinstance(c[1], int) and c[0] != "pop" else None
        if k is None:
            ks = self.keys()
            k = (max(ks) if c[0] == "pop" and c[1] else min(ks)) if ks else 8
            if c[0] == "range":
                k = c[1][1] or c[1][3] or k
        if p == "C01":
            self.gets(k - 20, k + 20)
            for q in (k, k + 1, max(k - 1, 0)):
                self.ev(r.choice(["get", "get", "idx"]), t=t, k=q, m=r.randrange(2))
            self.getm(k + r.randrange(2))
            for q in self.near(k)[::4]:
                self.ev("get", t=t, k=q, m=1)
        elif p == "C02":
            self.ev("len", t=t)
            self.gets(k - 3, k + 3)
        elif p == "C03":
            if r.random() < 0.5:
                u = self.tree()
                self.ev("clone", t=t, u=u)
                for _ in range(r.randrange(1, 4)):
                    d, n = r.randrange(2), r.randrange(1, 12)
                    self.ev("popn", t=u, d=d, n=n)
                    if r.random() < 0.5:
                        self.ev("ins", t=u, k=max(0, k + r.randrange(-20, 20)), v=self.value(), g=self.tag(), m=0)
                    self.ev("pop", t=u, d=r.randrange(2))
                    self.ev("len", t=u)
                if r.random() < 0.6:
                    self.ev("popn", t=u, d=r.randrange(2), n=10000)
                    self.ev("pop", t=u, d=r.randrange(2))
                    self.ev("len", t=u)
                self.ev("drop", t=u)
        elif p == "C04":
            for q in {k, k + 1, max(0, k - 1)}:
                self.call(["get", q])
            if r.random() < 0.3:
                self.gets(k - 10, k + 10)
        elif p == "C05":
            self.ev("scan", t=t, b=[0, 0, 0, 0], d=r.randrange(2))
            if r.random() < 0.4:
                n = self.near(k)
                b = [1, n[0], 1, n[-1]] if n else [0, 0, 0, 0]
                self.walk("oref", b)
            elif r.random() < 0.2:
                self.walk("oref", [0, 0, 0, 0])
        elif p == "C06":
            n = self.near(k) or [k]
            for _ in range(4):
                a, z = sorted((max(0, k + r.randrange(-1, 2)), max(0, r.choice(n) + r.randrange(-1, 2))))
                lk, hk = r.randrange(3), r.randrange(3)
                if lk == 0 and a > 64 and r.random() < 0.8:
                    lk = 1
                if hk == 0 and r.random() < 0.8:
                    hk = 2
                self.ev("scan", t=t, b=[lk, a if lk else 0, hk, z if hk else 0], d=r.randrange(2))
        elif p == "C07":
            n = self.near(k) or [k]
            for _ in range(2):
                a, z = sorted((max(0, k + r.randrange(-1, 2)), max(0, r.choice(n) + r.randrange(-1, 2))))
                lk, hk = r.randrange(1, 3), r.randrange(1, 3)
                if a == z:
                    lk = hk = 1
                if r.random() < 0.5:
                    self.scanm([lk, a, hk, z])
                else:
                    self.walk("omut", [lk, a, hk, z])
            self.gets(n[0] - 1, n[-1] + 1)
        elif p == "C08":
            if r.random() < 0.45:
                u = self.tree()
                self.ev("clone", t=t, u=u)
                self.walk("oown", None, t=u)
        elif p == "C10":
            if r.random() < 0.4:
                self.combine()
        elif p == "C11":
            if r.random() < 0.35:
                u = self.tree()
                src = t
                self.ev("clone", t=src, u=u)
                self.clones.append([u, dict(self.m)])
                if len(self.clones) > 5:
                    x = self.clones.pop(r.randrange(5))
                    how = r.random()
                    if how < 0.4:
                        self.ev("osum", t=x[0], d=r.randrange(3))
                    else:
                        self.ev("scan", t=x[0], b=[0, 0, 0, 0], d=0)
                        self.ev("drop", t=x[0])
            if self.clones and r.random() < 0.5:
                x = r.choice(self.clones)
                how = r.randrange(4)
                if how == 0:
                    # the clone is changed too: neither sees it in the other
                    q = r.choice(sorted(x[1])) if x[1] else 1
                    self.ev("rem", t=x[0], k=q)
                    x[1].pop(q, None)
                elif how == 1:
                    self.ev("ins", t=x[0], k=k, v=self.value(), g=self.tag(), m=r.randrange(2))
                    x[1][k] = (0, 0)
                elif how == 2:
                    self.ev("getm", t=x[0], k=k, w=self.value())
                self.ev("scan", t=x[0], b=[0, 0, 0, 0], d=r.randrange(2))
                self.ev("scan", t=t, b=[0, 0, 0, 0], d=r.randrange(2))
        elif p == "C13":
            if r.random() < 0.4:
                u = self.tree()
                s = self.pairs()
                r.shuffle(s)
                self.ev("fromseq", t=u, s=s)
                self.ev("cmp", t=t, u=u)
                if self.m and r.random() < 0.7:
                    q = r.choice(self.keys())
                    how = r.randrange(3)
                    if how == 0:
                        self.ev("rem", t=u, k=q)
                    elif how == 1:
                        self.ev("ins", t=u, k=q, v=self.m[q][0] + r.choice([-1, 1]), g=0, m=0)
                    else:
                        self.ev("ins", t=u, k=q + 1, v=1, g=0, m=0)
                    self.ev("cmp", t=t, u=u)
                    self.ev("cmp", t=u, u=t)
                self.ev("drop", t=u)
            if r.random() < 0.1:
                self.ev("dbg", t=t)
        elif p == "C14":
            self.ev("live")
            if r.random() < 0.15:
                u = self.tree()
                self.ev("clone", t=t, u=u)
                c = self.cur()
                self.ev("oown", c=c, t=u)
                for _ in range(r.randrange(0, 20)):
                    self.ev("step", c=c, d=r.randrange(2))
                self.ev("live")
                self.ev("cend", c=c)
                self.ev("live")
        elif p == "C17":
            if not self.m:
                self.emptied()
        elif p == "C18":
            if r.random() < 0.7:
                self.fault(c, k)
        else:
            if r.random() < 0.4:
                self.ev("scan", t=t, b=[0, 0, 0, 0], d=r.randrange(2))
            self.gets(k - 5, k + 5)

    def combine(self):
        """The tree and a relative of it are combined, in every way, on clones."""
        r, t = self.rng, self.t
        u, w = self.tree(), self.tree()
        how = r.randrange(4)
        if how == 0:
            self.ev("clone", t=t, u=u)
            lo = r.choice(self.keys()) if self.m else 0
            self.ev("remn", t=u, k=lo, p=r.choice([1, 2, 3, 16]), n=r.randrange(1, 120), m=r.choice([0, 2]))
            self.ev("insn", t=u, k=r.randrange(0, 40), p=r.randrange(1, 30), n=r.randrange(0, 40), v=self.value() + 10, m=r.randrange(4))
        elif how == 1:
            self.ev("loadn", t=u, k=r.choice([1, 16, 32, self.top()]), p=r.choice([1, 8, 16, 17, 48]), n=r.randrange(1, 90), v=self.value() + 10)
        elif how == 2:
            self.ev("new", t=u)
        else:
            # emptied
            self.ev("loadn", t=u, k=16, p=16, n=r.randrange(1, 30), v=self.value())
            self.ev("popn", t=u, d=r.randrange(2), n=100)
        self.v += 200
        self.ev("clone", t=t, u=w)
        a, b = (w, u) if r.random() < 0.7 else (u, w)
        f = r.choice(["merge", "append", "ref", "iter"])
        if f == "iter":
            c = self.cur()
            self.ev("omrg", c=c, t=a, u=b, d=r.randrange(2))
            for _ in range(r.randrange(0, 12)):
                self.ev("step", c=c, d=0)
            self.ev("cdrain", c=c, d=0, cap=4096)
            self.ev("step", c=c, d=0)
            self.ev("cend", c=c)
        else:
            d = 1 if f == "ref" else r.randrange(2)
            self.ev("comb", t=a, u=b, f=f, d=d, m=r.randrange(2))
            self.ev("scan", t=a, b=[0, 0, 0, 0], d=r.randrange(2))
            self.ev("len", t=a)
            if f == "ref":
                self.ev("scan", t=b, b=[0, 0, 0, 0], d=0, **{"if": 0})
                self.ev("drop", t=b, **{"if": 0})
            self.ev("drop", t=a)

    def emptied(self):
        r, t = self.rng, self.t
        self.ev("len", t=t)
        for x in r.sample(range(12), 4):
            k = r.randrange(0, 400)
            if x == 0:
                self.ev("get", t=t, k=k, m=r.randrange(2))
            elif x == 1:
                self.ev("scan", t=t, b=[r.randrange(3), 5, r.randrange(3), 300], d=r.randrange(2))
            elif x == 2:
                self.ev("pop", t=t, d=r.randrange(2))
            elif x == 3:
                self.ev("rem", t=t, k=k)
            elif x == 4:
                u = self.tree()
                self.ev("new", t=u)
                self.ev("cmp", t=t, u=u)
                self.ev("drop", t=u)
            elif x == 5:
                u = self.tree()
                self.ev("clone", t=t, u=u)
                self.ev("insn", t=u, k=3, p=r.randrange(1, 9), n=r.randrange(1, 60), v=self.value(), m=r.randrange(4))
                self.v += 100
                self.ev("scan", t=u, b=[0, 0, 0, 0], d=r.randrange(2))
                self.ev("drop", t=u)
            elif x == 6:
                u, w = self.tree(), self.tree()
                self.ev("clone", t=t, u=u)
                self.ev("loadn", t=w, k=16, p=16, n=r.randrange(0, 40), v=self.value())
                self.v += 100
                a, b = (u, w) if r.random() < 0.6 else (w, u)
                f = r.choice(["merge", "append", "ref"])
                self.ev("comb", t=a, u=b, f=f, d=1 if f == "ref" else r.randrange(2), m=r.randrange(2))
                self.ev("scan", t=a, b=[0, 0, 0, 0], d=r.randrange(2))
                self.ev("ins", t=a, k=k, v=self.value(), g=0, m=1)
                self.ev("len", t=a)
                self.ev("drop", t=a)
                if f == "ref":
                    self.ev("drop", t=b, **{"if": 0})
            elif x == 7:
                self.ev("scanm", t=t, b=[0, 0, 0, 0], d=r.randrange(2), v=5)
            elif x == 8:
                u = self.tree()
                self.ev("clone", t=t, u=u)
                c = self.cur()
                self.ev("oown", c=c, t=u)
                self.ev("chint", c=c)
                self.ev("step", c=c, d=r.randrange(2))
                self.ev("cend", c=c)
            elif x == 9:
                self.ev("dbg", t=t)
            elif x == 10:
                self.ev("eopen", t=t, k=k, g=1)
                self.ev("ekey")
                self.ev("edrop")
            else:
                self.ev("getm", t=t, k=k, w=1)

    def hurt_life(self, u, q, i):
        """More calls on what a panic left of tree u."""
        r = self.rng
        for _ in range(r.randrange(1, 9)):
            k, d = max(0, q + r.randrange(-6, 7)), r.randrange(2)
            fuse = {r.choice(["fc", "fl"]): r.randrange(0, 10)} if r.random() < 0.25 else {}
            o = r.choice(["hins", "hins", "hins", "hrem", "hrem", "hpop", "hent", "hmut", "hscan", "hget", "hcopy", "hown"])
            if o in ("hins", "hent"):
                self.ev(o, t=u, k=k, v=self.value(), g=self.tag(), m=d, **fuse, **i)
            elif o == "hmut":
                self.v += 600
                self.ev(o, t=u, d=d, v=self.v, **fuse, **i)
                self.v += 600
            elif o == "hcopy":
                w = self.tree()
                self.ev(o, t=u, u=w, **fuse, **i)
                self.ev("hscan", t=w, d=d, **i)
                self.ev("hdrop", t=w, **{"if": 1})
            elif o == "hown":
                if r.random() < 0.4:
                    self.ev(o, t=u, d=d, n=r.choice([0, 1, 2, 5, 1000]), **fuse, **i)
            else:
                self.ev(o, t=u, k=k, d=d, m=d, **fuse, **i)
        self.ev("hscan", t=u, d=r.randrange(2), **i)

    def fault(self, c, k):
        """The call is made again on a clone, and user code panics somewhere inside."""
        r, t = self.rng, self.t
        u = self.tree()
        self.ev("clone", t=t, u=u)
        o = r.choice(["ins", "ins", "rem", "pop", "insr", "ext", "load", "getm", "clone", "eopen", "oown", "comb"])
        n = r.randrange(0, 14)
        fuse = {r.choice(["fc", "fl"]): n}
        q = max(0, k + r.randrange(-2, 3))
        if o in ("ins", "insr"):
            # fill the leaf first, so that something has to split
            if r.random() < 0.5:
                for i in range(r.randrange(1, 5)):
                    self.ev("ins", t=u, k=q + 2 + i, v=self.value(), g=self.tag(), m=0)
            self.ev("ins", t=u, k=q, v=self.value(), g=self.tag(), m=1 if o == "insr" else 0, **fuse)
        elif o in ("rem", "pop", "getm", "oown"):
            if o == "oown":
                # the tree's nodes are shared with the original: consuming copies them
                self.ev("pop", t=u, d=r.randrange(2), **fuse)
            else:
                self.ev(o, t=u, k=q, d=r.randrange(2), w=self.value(), **fuse)
        elif o == "ext":
            s = [[max(0, q + 3 * i), self.value() * 64] for i in range(r.randrange(1, 8))]
            self.ev("ext", t=u, s=s, **(fuse if r.random() < 0.5 else {"fi": r.randrange(0, len(s) + 1)}))
        elif o == "load":
            w = self.tree()
            self.ev("load", t=w, s=self.pairs(), **{r.choice(["fi", "fl", "fc"]): r.randrange(0, 60)})
            self.ev("scan", t=w, b=[0, 0, 0, 0], d=0, **{"if": 0})
            self.ev("drop", t=w, **{"if": 0})
        elif o == "clone":
            w = self.tree()
            self.ev("clone", t=u, u=w, **fuse)
            self.ev("drop", t=w, **{"if": 0})
        elif o == "eopen":
            self.ev("rem", t=u, k=q)
            self.ev("ins", t=u, k=q, v=self.value(), g=self.tag(), m=0, **fuse)
        else:
            w = self.tree()
            self.ev("loadn", t=w, k=max(0, q - 40), p=7, n=r.randrange(1, 40), v=self.value())
            self.v += 60
            self.ev("comb", t=u, u=w, f=r.choice(["merge", "append"]), d=r.randrange(2), **{r.choice(["fc", "fl"]): r.randrange(0, 150)})
        for h in (1, 0):
            i = {"if": h}
            if h:
                self.ev("hscan", t=u, d=r.randrange(2), **i)
                self.ev("hget", t=u, k=q, **i)
                if r.random() < 0.6:
                    self.hurt_life(u, q, i)
                self.ev("hdrop", t=u, **i)
            else:
                self.ev("scan", t=u, b=[0, 0, 0, 0], d=r.randrange(2), **i)
                self.ev("drop", t=u, **i)
        self.ev("hlive")
        self.ev("scan", t=t, b=[0, 0, 0, 0], d=r.randrange(2))

    def finish(self):
        r, t = self.rng, self.t
        self.ev("len", t=t)
        self.ev("scan", t=t, b=[0, 0, 0, 0], d=0)
        self.ev("scan", t=t, b=[0, 0, 0, 0], d=1)
        self.gets(0, self.top())
        for x in self.clones:
            self.ev("scan", t=x[0], b=[0, 0, 0, 0], d=0)
            self.ev("drop", t=x[0])
        if self.prop == "C08":
            self.walk("oown", None, t=t)
        elif r.random() < 0.5:
            self.ev("osum", t=t, d=r.randrange(3))
        else:
            self.ev("drop", t=t)
        if self.prop == "C18":
            self.ev("hlive")
        else:
            self.ev("live" if self.prop == "C14" else "lmem")


def history(h, prop, rng):
    """h: [[mark, call, args...], ...]"""
    p = Prog(prop, rng)
    for x in h:
        mark, c = x[0], x[1:]
        if c[0] == "start":
            p.start(c[1])
        elif c[0] != "skip":
            p.call(c)
            if mark:
                p.probe(c)
            elif prop == "C17" and not p.m and c[0] in ("rem", "pop"):
                p.emptied()
    p.finish()
    return p.out


class Clones(Prog):
    """Histories of CowGen: handles are trees of the same number."""

    def __init__(self, prop, rng, threads):
        super().__init__(prop, rng)
        self.maps = {}
        self.threads = threads
        self.held = {}      # thread -> handles in use
        self.next = 100
        self.th = None

    def ev(self, o, **kw):
        if self.threads:
            kw["th"] = self.th or 1
        super().ev(o, **kw)

    def busy(self):
        return set().union(*self.held.values()) if self.held else set()

    def key(self, h, present=True):
        m, r = self.maps[h], self.rng
        if m and present:
            return r.choice(sorted(m))
        k = r.randrange(0, 16 * len(m) + 40)
        while k in m and not present:
            k += 1
        return k

    def play(self, hist):
        for x in hist:
            mark, c = x[0], x[1:]
            if c[0] == "start":
                n = c[1]
                if n == 0:
                    self.ev("new", t=1)
                else:
                    self.ev("loadn", t=1, k=16, p=16, n=n, v=1000)
                self.maps[1] = {16 * (i + 1): (1000 + i, 0) for i in range(n)}
                continue
            if c[0] in ("skip", "send"):
                continue
            self.th = c[1]
            if c[0] == "go":
                self.ev("go")
                self.held.pop(c[1], None)
                continue
            gate = {}
            if c[-1] == 1:
                # held at the n-th clone or comparison of the call
                n = 2 * len(self.maps[c[2]]) + 2
                if c[0] == "read" or self.rng.random() < 0.25:
                    gate = {"gatec": self.rng.randrange(0, 8)}
                else:
                    gate = {"gate": self.rng.choice([0, 1, n // 2, self.rng.randrange(n), max(n - 3, 0)])}
            others = [g for g in sorted(self.maps) if g != c[2]]
            before = dict(self.maps[c[2]])
            if mark and self.prop == "C18" and c[0] in ("write", "join") and not gate:
                self.faulty(c)
            getattr(self, "do_" + c[0])(c, gate)
            if gate:
                self.held[c[1]] = {c[2]} | ({c[3]} if c[0] == "join" else set())
                continue
            if mark:
                free = [g for g in others if g in self.maps and g not in self.busy()]
                self.rng.shuffle(free)
                for g in free[:2]:
                    self.look(g)
                if c[2] in self.maps and self.rng.random() < 0.6:
                    self.look(c[2])
                if self.prop == "C14" and not self.held:
                    self.ev("live")
                if self.prop == "C18":
                    self.ev("hlive")
        for t in sorted(self.held):
            self.th = t
            self.ev("go")
        self.th = 1
        if not self.threads:
            hs = sorted(self.maps)
            self.rng.shuffle(hs)
            for h in hs:
                self.ev("scan", t=h, b=[0, 0, 0, 0], d=self.rng.randrange(2))
                self.ev("drop", t=h)
            self.ev("hlive" if self.prop == "C18" else "live")
        return self.out

    def rd(self, n=1):
        return {"rd": n} if self.threads else {}

    def look(self, h):
        r = self.rng
        x = r.random()
        if x < 0.6 or not self.maps[h]:
            self.ev("scan", t=h, b=[0, 0, 0, 0], d=r.randrange(2), **self.rd())
        elif x < 0.8:
            self.ev("gets", t=h, k=max(0, self.key(h) - 20), n=41, **self.rd())
        else:
            self.ev("len", t=h, **self.rd())
            self.ev("get", t=h, k=self.key(h), m=r.randrange(2), **self.rd())

    def do_clone(self, c, gate):
        h, g = c[2], c[3]
        self.ev("clone", t=h, u=g, **self.rd())
        self.maps[g] = dict(self.maps[h])

    def do_write(self, c, gate):
        self.write(c[2], c[3], gate)

    def write(self, h, kind, x):
        r, m = self.rng, self.maps[h]
        v, g = self.value(), self.tag()

        def put(k, v, g=0):
            m[k] = (v, m[k][1] if k in m else g)
        if kind in ("ins", "new", "insr"):
            k = self.key(h, kind == "ins" or kind == "insr" and r.random() < 0.5)
            self.ev("ins", t=h, k=k, v=v, g=g, m=1 if kind == "insr" else 0, **x)
            put(k, v, g)
        elif kind in ("rem", "gone"):
            k = self.key(h, kind == "rem")
            self.ev("rem", t=h, k=k, **x)
            m.pop(k, None)
        elif kind in ("low", "high"):
            self.ev("pop", t=h, d=int(kind == "high"), **x)
            if m:
                del m[max(m) if kind == "high" else min(m)]
        elif kind in ("getm", "idxm"):
            k = self.key(h, r.random() < 0.85)
            self.ev(kind, t=h, k=k, w=v, **x)
            if k in m:
                put(k, v)
        elif kind in ("evac", "erem", "ewrite", "emut"):
            k = self.key(h, kind != "evac")
            self.ev("eopen", t=h, k=k, g=g, **x)
            if k not in m:
                self.ev("evac", v=v)
                put(k, v, g)
                self.ev("ewrite", w=v + 1, m=0)
                put(k, v + 1)
                self.v += 1
                self.ev("edrop")
            elif kind == "erem":
                self.ev("erem", m=r.randrange(2))
                del m[k]
            else:
                if kind == "emut":
                    self.ev("emut")
                self.ev("ewrite", w=v, m=0 if kind == "emut" else r.randrange(2))
                put(k, v)
                self.ev("edrop")
        elif kind in ("scanm", "ranm"):
            a, z = sorted((self.key(h), self.key(h)))
            b = [0, 0, 0, 0] if kind == "scanm" else [r.randrange(2), a, r.randrange(2), z]
            b = [b[0], b[1] if b[0] else 0, b[2], b[3] if b[2] else 0]
            self.v += 6000
            self.ev("scanm", t=h, b=b, d=r.randrange(2), v=v, **x)
            for k in list(m):
                if (not b[0] or k >= b[1]) and (not b[2] or k <= b[3]):
                    put(k, v + k)
            self.v += max(m) if m else 0
        elif kind == "omut":
            old, self.m, self.t = self.m, m, h
            a, z = sorted((self.key(h), self.key(h)))
            self.walk("omut", r.choice([[0, 0, 0, 0], [1, a, 1, z]]))
            self.m = old
        elif kind == "ext":
            s = [[self.key(h, r.random() < 0.4), self.value() * 64 + self.tag()] for _ in range(r.randrange(0, 6))]
            self.ev("ext", t=h, s=s, **x)
            for k, e in s:
                put(k, e // 64, e % 64)
        elif kind in ("insn", "remn"):
            k, p, n = self.key(h), r.choice([1, 3, 16, 17]), r.randrange(1, 20)
            if kind == "insn":
                self.v += n
                self.ev("insn", t=h, k=k, p=p, n=n, v=v, m=r.randrange(4), **x)
            else:
                self.ev("remn", t=h, k=k, p=p, n=n, m=r.choice([0, 2]), **x)
            for i in range(n):
                if kind == "insn":
                    put(k + i * p, v + i, 0)
                else:
                    m.pop(k + i * p, None)
        elif kind == "popn":
            d, n = r.randrange(2), r.choice([1, 3, 7, 30, 1000])
            self.ev("popn", t=h, d=d, n=n, **x)
            for k in (sorted(m)[-n:] if d else sorted(m)[:n]):
                del m[k]

    def do_join(self, c, gate):
        h, g, kind = c[2], c[3], c[4]
        f, d, m = {"mergel": ("merge", 0, 0), "merger": ("merge", 1, 0), "plus": ("merge", 1, 1),
                   "appl": ("append", 0, 0), "appr": ("append", 1, 0), "pluseq": ("append", 1, 1)}[kind]
        self.ev("comb", t=h, u=g, f=f, d=d, m=m, **gate)
        a, b = self.maps[h], self.maps.pop(g)
        self.maps[h] = {**a, **b} if d else {**b, **a}

    def do_read(self, c, gate):
        h, kind, r = c[2], c[3], self.rng
        x = dict(gate, **self.rd())
        if kind in ("get", "linear"):
            self.ev("get", t=h, k=self.key(h, r.random() < 0.8), m=int(kind == "linear"), **x)
        elif kind in ("scan", "back"):
            self.ev("scan", t=h, b=[0, 0, 0, 0], d=int(kind == "back"), **x)
        elif kind == "range":
            a, z = sorted((self.key(h), self.key(h)))
            self.ev("scan", t=h, b=[1, a, 1, z], d=r.randrange(2), **x)
        elif kind == "len":
            self.ev("len", t=h, **x)
        else:
            free = [g for g in self.maps if g not in self.busy()]
            g = h if self.threads else r.choice(free)
            self.ev("cmp", t=h, u=g, **dict(gate, **self.rd(3)))

    def do_end(self, c, gate):
        h, kind, r = c[2], c[3], self.rng
        if kind == "own":
            self.m = self.maps.pop(h)
            self.walk("oown", None, t=h)
        else:
            self.ev(kind, t=h, **dict({"d": r.randrange(3)} if kind == "osum" else {}, **gate))
            self.maps.pop(h)

    def faulty(self, c):
        """The call is made on one more clone first, and user code panics inside."""
        r, h = self.rng, c[2]
        u = self.tree()
        self.ev("clone", t=h, u=u)
        kind = c[3] if c[0] == "write" else "ext"
        if kind in ("evac", "erem", "ewrite", "emut", "omut", "insn", "remn", "popn"):
            kind = r.choice(["ins", "new", "insr", "rem", "low", "high", "getm"])
        n = len(self.maps[h])
        fuse = {r.choice(["fc", "fl", "fl"]): r.choice([0, 1, 2, 3, r.randrange(2 * n + 4)])}
        self.maps[u] = dict(self.maps[h])
        self.write(u, kind, fuse)
        del self.maps[u]
        self.ev("hscan", t=u, d=r.randrange(2), **{"if": 1})
        if r.random() < 0.5:
            self.hurt_life(u, r.choice(sorted(self.maps[h]) or [3]), {"if": 1})
        self.ev("hdrop", t=u, **{"if": 1})
        self.ev("scan", t=u, b=[0, 0, 0, 0], d=r.randrange(2), **{"if": 0})
        self.ev("drop", t=u, **{"if": 0})
        self.ev("scan", t=h, b=[0, 0, 0, 0], d=r.randrange(2))


def clones(h, prop, rng, threads):
    return Clones(prop, rng, threads).play(h)


def adapted(e, kit, rng):
    """What a program's event is on a kind of tree; and by which of several ways the same call is made."""
    e = dict(e)
    if not kit.startswith("tok"):
        # key types all of whose objects are alike
        if "g" in e:
            e["g"] = 0
        if e["o"] in ("load", "fromseq", "ext", "frommap"):
            e["s"] = [[k, x // 64 * 64] for k, x in e["s"]]
    if not kit.startswith("int") and e["o"] == "comb" and e["f"] == "ref":
        # only Copy entries can be added by reference
        e["f"], e["d"], e["m"] = "merge", 1, 0
    if e["o"] == "comb" and e["f"] == "ref":
        e["m"] = rng.randrange(4)
    if e["o"] in ("load", "fromseq", "ext") and rng.random() < 0.4:
        e["sh"] = rng.randrange(1, 6)
    if e["o"] in ("scan", "rsum", "scanm", "oref", "omut") and not e.get("m") and rng.random() < 0.4:
        e["m"] = 3
    if e["o"] == "dbg":
        e["m"] = rng.randrange(2)
    return e

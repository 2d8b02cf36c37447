//! Generates programs: scenes of calls chosen with the help of a mirror of what the trees should
//! hold. The mirror only guides the choice of arguments; the specification is the judge.
use crate::ev::Ev;
use crate::mach::Info;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: i64) -> i64 {
        if n <= 0 {
            0
        } else {
            (self.next() % n as u64) as i64
        }
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, pct: i64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        let i = self.below(s.len() as i64) as usize;
        &s[i]
    }
}

pub type Map = BTreeMap<i64, (i64, i64)>;
struct Cursor {
    kind: &'static str,
    t: i64,
    /// what is left to yield
    left: VecDeque<(i64, i64, i64)>,
    held: Vec<i64>,
}

pub struct Gen {
    pub rng: Rng,
    prof: String,
    info: Info,
    q: VecDeque<Ev>,
    trees: BTreeMap<i64, Map>,
    curs: BTreeMap<i64, Cursor>,
    hurt: BTreeSet<i64>,
    next_t: i64,
    next_c: i64,
    val: i64,
    dom: i64,
    base: i64,
    weights: Vec<(&'static str, i64)>,
    mood: i64,
    pub left: i64,
    /// Trees have thousands of entries.
    large: bool,
    ended: bool,
    fault_pending: bool,
    clones: bool,
    /// Trees that may only be read here.
    borrowed: BTreeMap<i64, Map>,
}

/// Which scenes a property's workload is made of. `base` scenes give the trees their shapes.
fn weights(prof: &str) -> Vec<(&'static str, i64)> {
    let base = [("fill", 6), ("ins", 14), ("rem", 14), ("block", 6), ("leafkill", 5), ("window", 3), ("build", 2), ("drop", 2), ("popn", 1), ("probe", 3)];
    let focus: &[(&'static str, i64)] = match prof {
        "C01" => &[("get", 60), ("getm", 25), ("idx", 14), ("sweep", 10)],
        "C02" => &[("ins", 40), ("rem", 40), ("len", 15), ("sweep", 4), ("rebuild", 2)],
        "C03" => &[("pop", 90), ("poprun", 8), ("scan", 2)],
        "C04" => &[("entry", 90), ("get", 5), ("scan", 3), ("len", 4)],
        "C05" => &[("scan", 14), ("cur", 40)],
        "C06" => &[("range", 45), ("rcur", 25), ("ranges", 3)],
        "C07" => &[("scanm", 18), ("mcur", 40), ("scan", 3), ("get", 5)],
        "C08" => &[("own", 45), ("build", 6)],
        "C09" => &[("build", 50), ("ext", 14), ("sweep", 4), ("scan", 4), ("rangescan", 4), ("len", 4), ("own", 3), ("poprun", 2)],
        "C10" => &[("comb", 40), ("mrg", 22), ("build", 12)],
        "C11" => &[("clone", 30), ("getm", 14), ("entry", 14), ("scanm", 8), ("mcur", 8), ("own", 10), ("comb", 6), ("pop", 8), ("drop", 5), ("ext", 4), ("scanall", 30), ("flock", 3)],
        "C12" => &[
            ("get", 6), ("pop", 10), ("entry", 8), ("scan", 10), ("rcur", 3), ("cur", 3), ("scanm", 6), ("mcur", 4), ("own", 6), ("mrg", 2), ("comb", 6),
            ("getm", 8), ("clone", 40), ("drop", 12), ("ext", 2), ("cmp", 3), ("hammer", 6), ("flock", 1),
        ],
        "C13" => &[("cmp", 60), ("dbg", 24), ("build", 6)],
        "C14" => &[("live", 60), ("own", 12), ("mrg", 8), ("comb", 6), ("entry", 10), ("build", 8), ("pop", 8), ("getm", 4), ("ext", 4), ("dropall", 3), ("clone", 6), ("flock", 1)],
        "C17" => &[("empty", 45), ("get", 3), ("scan", 1)],
        "C18" => &[("fault", 45), ("clone", 5)],
        // every operation there is
        _ => &[
            ("get", 8), ("getm", 6), ("idx", 3), ("len", 3), ("pop", 5), ("entry", 6), ("scan", 4), ("range", 5), ("rcur", 4), ("cur", 4), ("scanm", 3),
            ("mcur", 4), ("own", 5), ("mrg", 3), ("comb", 3), ("build", 5), ("ext", 2), ("clone", 3), ("cmp", 4), ("dbg", 2), ("live", 3), ("empty", 2),
            ("sweep", 2), ("rebuild", 1), ("rangescan", 2),
        ],
    };
    let mut w: Vec<(&'static str, i64)> = base.to_vec();
    if prof == "C18" {
        w.retain(|x| x.0 != "window")
    }
    w.extend_from_slice(focus);
    w
}

impl Gen {
    pub fn new(prof: &str, seed: u64, info: Info, ops: i64, large: i64) -> Gen {
        let mut rng = Rng(seed);
        let dom = match rng.below(10) {
            0 => rng.range(4, 12),
            1..=3 => rng.range(16, 60),
            4..=7 => rng.range(60, 200),
            _ => rng.range(200, 500),
        };
        let dom = if large > 0 { rng.range(large / 2, large) } else { dom }.min(info.kmax);
        let base = if info.kmax > 1000 { rng.range(0, 40) } else { 0 };
        let clones = matches!(prof, "C11" | "C12" | "C14" | "C15" | "C18") || rng.chance(30);
        let mut g = Gen {
            rng,
            prof: prof.into(),
            info,
            q: VecDeque::new(),
            trees: BTreeMap::new(),
            curs: BTreeMap::new(),
            hurt: BTreeSet::new(),
            next_t: 0,
            next_c: 0,
            val: 1,
            dom,
            base,
            weights: weights(prof),
            mood: 50,
            left: ops,
            large: large > 0,
            ended: false,
            fault_pending: false,
            clones,
            borrowed: BTreeMap::new(),
        };
        g.start();
        g
    }

    // ------------------------------------------------------------ several threads
    /// A generator for another thread: its own names, and no tree yet.
    pub fn fork(&mut self, first: i64) -> Gen {
        Gen {
            rng: Rng(self.rng.next()),
            prof: self.prof.clone(),
            info: self.info,
            q: VecDeque::new(),
            trees: BTreeMap::new(),
            curs: BTreeMap::new(),
            hurt: BTreeSet::new(),
            next_t: first,
            next_c: first,
            val: self.val + first,
            dom: self.dom,
            base: self.base,
            weights: self.weights.iter().filter(|w| w.0 != "hammer").copied().collect(),
            mood: self.rng.range(20, 80),
            left: 0,
            large: self.large,
            ended: true,
            fault_pending: false,
            clones: true,
            borrowed: BTreeMap::new(),
        }
    }
    pub fn ids(&self) -> Vec<i64> {
        self.trees.keys().copied().collect()
    }
    pub fn give(&mut self, t: i64) -> Map {
        self.trees.remove(&t).unwrap()
    }
    pub fn mirror(&self, t: i64) -> Map {
        self.trees[&t].clone()
    }
    pub fn adopt(&mut self, t: i64, m: Map) {
        self.trees.insert(t, m);
    }
    pub fn lend(&mut self, t: i64, m: Map) {
        self.borrowed.insert(t, m);
    }
    pub fn clone_all(&mut self, t: i64, n: i64) {
        for _ in 0..n {
            self.clone_of(t);
        }
    }
    /// Look at a tree that others look at too, or clone it.
    pub fn peek(&mut self) {
        let Some((&t, m)) = self.borrowed.iter().next() else { return };
        let m = m.clone();
        let was = self.trees.insert(t, m.clone());
        debug_assert!(was.is_none());
        match self.rng.below(6) {
            0 | 1 => {
                for _ in 0..4 {
                    let k = self.near(t);
                    self.get(t, k)
                }
            }
            2 => {
                let b = self.bounds(t);
                let d = self.rng.below(2);
                self.scan(t, b, d)
            }
            3 => self.full(t),
            _ => {
                self.clone_of(t);
            }
        }
        self.trees.remove(&t);
    }
    pub fn drop_one(&mut self, t: i64) {
        self.drop_tree(t)
    }
    pub fn take_stock(&mut self) {
        self.live()
    }
    pub fn wind_up(&mut self) {
        self.finish()
    }
    pub fn pending(&mut self) -> Option<Ev> {
        self.q.pop_front()
    }
    pub fn any_scene(&mut self) {
        self.scene()
    }

    // ------------------------------------------------------------ pieces
    fn emit(&mut self, mut e: Ev) {
        self.left -= 1;
        match e.op() {
            "scan" | "rsum" | "scanm" | "oref" | "omut" if e.int("m") == 0 && self.rng.chance(40) => e.seti("m", 3),
            "load" | "fromseq" | "ext" if self.rng.chance(40) => e.seti("sh", 1 + self.rng.below(5)),
            "dbg" | "dbgs" => e.seti("m", self.rng.below(2)),
            _ => {}
        }
        self.q.push_back(e)
    }
    fn value(&mut self) -> i64 {
        self.val += 1;
        if self.rng.chance(5) {
            return self.rng.below(3).min(self.info.vmax - 1);
        }
        self.val % self.info.vmax
    }
    fn tag(&mut self) -> i64 {
        if self.info.tags {
            self.rng.below(64)
        } else {
            0
        }
    }
    fn key(&mut self) -> i64 {
        let k = self.base + self.rng.below(self.dom);
        k.min(self.info.kmax - 1)
    }
    /// A key near an entry of t: present, a neighbour, or outside.
    fn near(&mut self, t: i64) -> i64 {
        let m = &self.trees[&t];
        if m.is_empty() || self.rng.chance(15) {
            return match self.rng.below(6) {
                0 => 0,
                1 => (self.base + self.dom + 2).min(self.info.kmax - 1),
                _ => self.key(),
            };
        }
        let n = self.rng.below(m.len() as i64) as usize;
        let k = *m.keys().nth(n).unwrap();
        let k = match self.rng.below(10) {
            0 | 1 => k + 1,
            2 => k - 1,
            3 => *m.keys().next().unwrap(),
            4 => *m.keys().next_back().unwrap(),
            _ => k,
        };
        k.clamp(0, self.info.kmax - 1)
    }
    fn present(&mut self, t: i64) -> Option<i64> {
        let m = &self.trees[&t];
        if m.is_empty() {
            return None;
        }
        let n = self.rng.below(m.len() as i64) as usize;
        m.keys().nth(n).copied()
    }
    fn tree(&mut self) -> i64 {
        let ids: Vec<i64> = self.trees.keys().copied().collect();
        if ids.is_empty() {
            return self.new_tree();
        }
        // mostly the first: it grows interesting
        if self.rng.chance(50) {
            ids[0]
        } else {
            *self.rng.pick(&ids)
        }
    }
    fn fresh(&mut self) -> i64 {
        self.next_t += 1;
        self.next_t - 1
    }
    fn fresh_c(&mut self) -> i64 {
        self.next_c += 1;
        self.next_c - 1
    }
    fn new_tree(&mut self) -> i64 {
        let t = self.fresh();
        let m = self.rng.below(2);
        self.emit(Ev::new("new").i("t", t).i("m", m));
        self.trees.insert(t, Map::new());
        t
    }
    fn store(&mut self, t: i64, k: i64, v: i64, g: i64) {
        let e = self.trees.get_mut(&t).unwrap().entry(k).or_insert((v, g));
        e.0 = v;
    }
    fn ins(&mut self, t: i64, k: i64) {
        let (v, g) = (self.value(), self.tag());
        let m = self.rng.chance(20) as i64;
        self.emit(Ev::new("ins").i("t", t).i("k", k).i("v", v).i("g", g).i("m", m));
        self.store(t, k, v, g);
    }
    fn rem(&mut self, t: i64, k: i64) {
        self.emit(Ev::new("rem").i("t", t).i("k", k));
        self.trees.get_mut(&t).unwrap().remove(&k);
    }
    fn get(&mut self, t: i64, k: i64) {
        let m = self.rng.chance(20) as i64;
        self.emit(Ev::new("get").i("t", t).i("k", k).i("m", m));
    }
    fn pop(&mut self, t: i64, d: i64) {
        self.emit(Ev::new("pop").i("t", t).i("d", d));
        let m = self.trees.get_mut(&t).unwrap();
        let k = if d == 1 { m.keys().next_back().copied() } else { m.keys().next().copied() };
        if let Some(k) = k {
            m.remove(&k);
        }
    }
    fn scan(&mut self, t: i64, b: [i64; 4], d: i64) {
        let m = self.rng.below(3);
        self.emit(Ev::new("scan").i("t", t).l("b", b.to_vec()).i("d", d).i("m", m));
    }
    fn full(&mut self, t: i64) {
        let d = self.rng.below(2);
        self.scan(t, [0; 4], d)
    }
    fn len(&mut self, t: i64) {
        self.emit(Ev::new("len").i("t", t))
    }
    fn bounds(&mut self, t: i64) -> [i64; 4] {
        let a = self.near(t);
        let b = if self.rng.chance(25) {
            (a + self.rng.below(6)).min(self.info.kmax - 1)
        } else if self.rng.chance(8) {
            a
        } else {
            self.near(t)
        };
        let (lo, hi) = if a <= b || self.rng.chance(4) { (a, b) } else { (b, a) };
        let kinds = [0, 1, 1, 1, 2, 2, 2];
        let lk = *self.rng.pick(&kinds);
        let hk = *self.rng.pick(&kinds);
        [lk, if lk == 0 { 0 } else { lo }, hk, if hk == 0 { 0 } else { hi }]
    }
    fn bad(b: [i64; 4]) -> bool {
        b[0] != 0 && b[2] != 0 && (b[1] > b[3] || b[1] == b[3] && b[0] == 2 && b[2] == 2)
    }
    fn within(m: &Map, b: [i64; 4]) -> VecDeque<(i64, i64, i64)> {
        m.iter()
            .filter(|(k, _)| match b[0] {
                0 => true,
                1 => **k >= b[1],
                _ => **k > b[1],
            } && match b[2] {
                0 => true,
                1 => **k <= b[3],
                _ => **k < b[3],
            })
            .map(|(k, e)| (*k, e.0, e.1))
            .collect()
    }
    fn pairs(m: &Map) -> Vec<Vec<i64>> {
        m.iter().map(|(k, e)| vec![*k, e.0 * 64 + e.1]).collect()
    }
    /// A random map of about n entries, with a random key pattern.
    fn random_map(&mut self, n: i64) -> Map {
        let n = n.min(self.info.kmax);
        let mut m = Map::new();
        let style = self.rng.below(3);
        let step = self.rng.range(1, 3);
        for i in 0..n {
            let k = match style {
                0 => self.base + i * step,
                1 => self.base + i,
                _ => self.key(),
            };
            if k >= self.info.kmax {
                break;
            }
            let (v, g) = (self.value(), self.tag());
            m.insert(k, (v, g));
        }
        m
    }
    /// Build a tree holding exactly m, by a random route.
    fn build_as(&mut self, m: Map) -> i64 {
        let t = self.fresh();
        let mut s = Self::pairs(&m);
        match self.rng.below(if s.len() > 1000 { 3 } else { 5 }) {
            0 | 1 => self.emit(Ev::new("load").i("t", t).p("s", s)),
            2 => self.emit(Ev::new("frommap").i("t", t).p("s", s)),
            3 => {
                self.shuffle(&mut s);
                // with earlier duplicates that lose their value but give their key object
                self.emit(Ev::new("fromseq").i("t", t).p("s", s))
            }
            _ => {
                let mm = self.rng.below(2);
                self.emit(Ev::new("new").i("t", t).i("m", mm));
                self.shuffle(&mut s);
                let m1 = if self.info.copy { self.rng.below(2) } else { 0 };
                self.emit(Ev::new("ext").i("t", t).p("s", s).i("m", m1))
            }
        }
        self.trees.insert(t, m);
        t
    }
    fn shuffle<X>(&mut self, s: &mut [X]) {
        match self.rng.below(4) {
            0 => {}
            1 => s.reverse(),
            _ => {
                for i in (1..s.len()).rev() {
                    let j = self.rng.below(i as i64 + 1) as usize;
                    s.swap(i, j)
                }
            }
        }
    }
    fn size(&mut self) -> i64 {
        match self.rng.below(12) {
            0 => 0,
            1 => 1,
            2 => self.rng.range(2, 9),
            3 => *self.rng.pick(&[16, 17, 20, 25, 36, 49, 64, 65, 80, 100, 125, 128, 129, 256, 257, 320]),
            4..=7 => self.rng.range(4, 40),
            _ => self.rng.range(10, self.dom.max(12)),
        }
    }
    fn second(&mut self, t: i64) -> i64 {
        let ids: Vec<i64> = self.trees.keys().copied().filter(|x| *x != t).collect();
        if ids.is_empty() || self.rng.chance(35) {
            let n = self.size();
            let m = match self.rng.below(4) {
                // overlapping with t in part
                0 | 1 => {
                    let mut m = Map::new();
                    let src: Vec<i64> = self.trees[&t].keys().copied().collect();
                    for k in src {
                        if self.rng.chance(40) {
                            let (v, g) = (self.value(), self.tag());
                            m.insert(k, (v, g));
                        }
                        if self.rng.chance(20) {
                            let (v, g) = (self.value(), self.tag());
                            m.insert((k + 1).min(self.info.kmax - 1), (v, g));
                        }
                    }
                    m
                }
                _ => self.random_map(n),
            };
            return self.build_as(m);
        }
        *self.rng.pick(&ids)
    }
    /// Two trees side by side on the key line: stretches of it belong to one, the other, or both.
    fn pair(&mut self) -> (i64, i64) {
        let lens: &[i64] = if self.large { &[1, 2, 5, 30, 300, 2500, 4000] } else { &[1, 1, 2, 3, 5, 9, 17, 33, 64, 70, 200] };
        let (mut a, mut b) = (Map::new(), Map::new());
        let mut k = self.base;
        let step = self.rng.range(1, 2);
        let mut last = 3;
        for _ in 0..self.rng.range(1, 6) {
            let mut who = self.rng.below(3);
            if who == last {
                who = (who + 1) % 3
            }
            last = who;
            for _ in 0..*self.rng.pick(lens) {
                if k >= self.info.kmax {
                    break;
                }
                if who != 1 {
                    let (v, g) = (self.value(), self.tag());
                    a.insert(k, (v, g));
                }
                if who != 0 {
                    let (v, g) = (self.value(), self.tag());
                    b.insert(k, (v, g));
                }
                k += step
            }
            if self.rng.chance(20) {
                k += self.rng.below(4)
            }
        }
        let (t, u) = (self.build_as(a), self.build_as(b));
        if self.rng.chance(30) {
            let n = self.rng.below(6);
            self.block(t, n)
        }
        if self.rng.chance(30) {
            let n = self.rng.below(6);
            self.block(u, n)
        }
        (t, u)
    }
    /// Two operands: t and another, or a pair of their own.
    fn operands(&mut self, t: i64) -> (i64, i64) {
        let pct = if matches!(self.prof.as_str(), "C10" | "C15" | "C01") { 50 } else { 20 };
        if self.rng.chance(pct) && self.trees.len() < 5 {
            return self.pair();
        }
        (t, self.second(t))
    }
    fn drop_tree(&mut self, t: i64) {
        self.emit(Ev::new("drop").i("t", t));
        self.trees.remove(&t);
    }
    fn clone_of(&mut self, t: i64) -> i64 {
        let u = self.fresh();
        self.emit(Ev::new("clone").i("t", t).i("u", u));
        let m = self.trees[&t].clone();
        self.trees.insert(u, m);
        u
    }
    fn live(&mut self) {
        if self.info.ledger {
            self.emit(Ev::new("live"))
        } else {
            self.emit(Ev::new("lmem"))
        }
    }

    // ------------------------------------------------------------ cursors
    fn open(&mut self, kind: &'static str, t: i64, b: [i64; 4]) -> Option<i64> {
        let c = self.fresh_c();
        let m = self.rng.below(3);
        let o = if kind == "ref" { "oref" } else { "omut" };
        self.emit(Ev::new(o).i("c", c).i("t", t).l("b", b.to_vec()).i("m", m));
        if Self::bad(b) {
            return None;
        }
        let left = Self::within(&self.trees[&t], b);
        self.curs.insert(c, Cursor { kind, t, left, held: vec![] });
        Some(c)
    }
    fn step(&mut self, c: i64, d: i64) {
        self.emit(Ev::new("step").i("c", c).i("d", d));
        let cur = self.curs.get_mut(&c).unwrap();
        let e = if d == 1 { cur.left.pop_back() } else { cur.left.pop_front() };
        if let Some(e) = e {
            if cur.kind == "mut" {
                cur.held.push(e.0)
            }
        }
    }
    /// One of the methods that pass over items.
    fn leap(&mut self, c: i64, d: i64) {
        let n = self.curs[&c].left.len() as i64;
        if self.rng.chance(60) {
            let n = match self.rng.below(8) {
                0 => n,
                1 => n + self.rng.below(40),
                2 => (n - 1).max(0),
                _ => self.rng.below(5.min(n + 1)),
            };
            self.emit(Ev::new("cnth").i("c", c).i("d", d).i("n", n));
            let cur = self.curs.get_mut(&c).unwrap();
            let mut e = None;
            for _ in 0..=n {
                e = if d == 1 { cur.left.pop_back() } else { cur.left.pop_front() };
                if e.is_none() {
                    break;
                }
            }
            if let (Some(e), "mut") = (e, cur.kind) {
                cur.held.push(e.0)
            }
        } else {
            let at = if n == 0 { 0 } else if d == 0 { self.rng.below(4.min(n)) } else { n - 1 - self.rng.below(4.min(n)) };
            let k = self.curs[&c].left.get(at as usize).map_or(0, |e| e.0);
            let k = if self.rng.chance(25) { self.key() } else { k };
            self.emit(Ev::new("cfind").i("c", c).i("d", d).i("k", k));
            let cur = self.curs.get_mut(&c).unwrap();
            loop {
                match if d == 1 { cur.left.pop_back() } else { cur.left.pop_front() } {
                    Some(e) if d == 1 && e.0 > k || d == 0 && e.0 < k => {}
                    Some(e) => {
                        if cur.kind == "mut" {
                            cur.held.push(e.0)
                        }
                        break;
                    }
                    None => break,
                }
            }
        }
    }
    /// The cursor's end by one of the methods that consume it.
    fn consume(&mut self, c: i64) {
        let double = self.curs[&c].kind != "merge";
        let d = if double { self.rng.below(2) } else { 0 };
        let m = self.rng.below(4);
        let how = self.rng.below(6);
        self.emit(match how {
            0 => Ev::new("ccnt").i("c", c),
            1 => Ev::new("clast").i("c", c),
            _ => Ev::new("ccol").i("c", c).i("d", d).i("m", m),
        });
        self.curs.remove(&c);
    }
    fn close(&mut self, c: i64) {
        self.emit(Ev::new("cend").i("c", c));
        self.curs.remove(&c);
    }
    fn hint(&mut self, c: i64) {
        self.emit(Ev::new("chint").i("c", c))
    }
    fn drain(&mut self, c: i64, d: i64) {
        let cur = self.curs.get_mut(&c).unwrap();
        let cap = cur.left.len() as i64 + 16;
        let all: Vec<i64> = cur.left.drain(..).map(|e| e.0).collect();
        if cur.kind == "mut" {
            cur.held.extend(all)
        }
        self.emit(Ev::new("cdrain").i("c", c).i("d", d).i("cap", cap))
    }
    /// Walk a cursor: bursts from either end, to and past exhaustion or only part of the way.
    fn walk(&mut self, c: i64) {
        let kind = self.curs[&c].kind;
        let double = kind != "merge";
        let finish = self.rng.chance(60);
        let mut budget = if finish { self.curs[&c].left.len() as i64 + 6 } else { self.rng.below(self.curs[&c].left.len() as i64 + 3) };
        budget = budget.min(60);
        let style = self.rng.below(4);
        while budget > 0 {
            let d = match style {
                _ if !double => 0,
                0 => 0,
                1 => 1,
                _ => self.rng.below(2),
            };
            if self.rng.chance(7) {
                self.leap(c, d);
                budget -= 2;
                if kind == "own" {
                    self.hint(c)
                }
            }
            let run = if style == 3 { self.rng.range(1, 9) } else { 1 };
            for _ in 0..run {
                self.step(c, d);
                budget -= 1;
            }
            if kind == "own" || self.rng.chance(4) {
                self.hint(c)
            }
            if kind == "mut" && self.rng.chance(40) && !self.curs[&c].held.is_empty() {
                let held = self.curs[&c].held.clone();
                let k = *self.rng.pick(&held);
                let w = self.value();
                let t = self.curs[&c].t;
                self.emit(Ev::new("cwr").i("c", c).i("k", k).i("w", w));
                self.store(t, k, w, 0);
                for e in self.curs.get_mut(&c).unwrap().left.iter_mut() {
                    if e.0 == k {
                        e.1 = w
                    }
                }
            }
            if kind == "own" && self.prof == "C14" && self.rng.chance(20) {
                self.live()
            }
            if kind == "ref" && self.rng.chance(3) {
                let d = self.fresh_c();
                self.emit(Ev::new("ccl").i("c", c).i("d", d));
                let cur = &self.curs[&c];
                let n = Cursor { kind: "ref", t: cur.t, left: cur.left.clone(), held: vec![] };
                self.curs.insert(d, n);
                let s = self.rng.below(2);
                if self.rng.chance(50) {
                    self.drain(d, s)
                } else {
                    self.step(d, s);
                    self.step(d, 1 - s);
                }
                self.close(d);
            }
        }
        if self.rng.chance(15) {
            return self.consume(c);
        }
        if self.rng.chance(10) {
            let d = if double { self.rng.below(2) } else { 0 };
            self.leap(c, d);
            if kind == "own" {
                self.hint(c)
            }
        }
        if finish {
            let d = if double { self.rng.below(2) } else { 0 };
            self.drain(c, d);
            self.step(c, 0);
            if double {
                self.step(c, 1);
                self.step(c, 0);
            }
            if kind == "own" {
                self.hint(c)
            }
        }
        self.close(c);
    }

    // ------------------------------------------------------------ scenes
    fn start(&mut self) {
        let n = self.size().max(self.dom / 3);
        if self.large {
            return self.start_large();
        }
        match self.rng.below(6) {
            0 => {
                self.new_tree();
            }
            1 | 2 => {
                let m = self.random_map(n);
                self.build_as(m);
            }
            _ => {
                let t = self.new_tree();
                self.fill(t, n);
            }
        }
        self.mood = self.rng.range(20, 80);
    }
    /// A tree of thousands, made in few steps, with some of it taken out again.
    fn start_large(&mut self) {
        let p = self.rng.range(1, 3).min((self.info.kmax / self.dom).max(1));
        let n = (self.dom / p).min(self.info.kmax / p);
        let t = self.fresh();
        let (k, v) = (if self.info.kmax > 1 << 20 { self.base } else { 0 }, if self.info.vmax > 1 << 20 { self.val } else { 0 });
        let mut m = Map::new();
        let bulk = self.info.vmax > 1 << 20;
        if !bulk {
            // values must fit: entry by entry
            for i in 0..n {
                let v = self.value();
                m.insert(k + i * p, (v, 0));
            }
            self.emit(Ev::new("load").i("t", t).p("s", Self::pairs(&m)));
        } else if self.rng.chance(50) {
            self.emit(Ev::new("loadn").i("t", t).i("k", k).i("p", p).i("n", n).i("v", v));
            m = (0..n).map(|i| (k + i * p, (v + i, 0))).collect();
        } else {
            self.emit(Ev::new("new").i("t", t));
            let passes = self.rng.range(1, 4);
            let each = n / passes;
            let mut order: Vec<i64> = (0..passes).collect();
            self.shuffle(&mut order);
            for o in order {
                let (q, lo, d) = (p * passes, k + o * p, 2 * self.rng.below(2));
                self.emit(Ev::new("insn").i("t", t).i("k", lo).i("p", q).i("n", each).i("v", v).i("m", d));
                for i in 0..each {
                    m.insert(lo + i * q, (v + i, 0));
                }
            }
        }
        self.val += n;
        self.trees.insert(t, m);
        for _ in 0..self.rng.below(3) {
            // every s-th of a stretch goes
            let a = k + self.rng.below(self.dom);
            let (s, d) = (self.rng.range(1, 4), 2 * self.rng.below(2));
            let n = self.rng.range(1, (self.dom / s).max(2)).min((self.info.kmax - 1 - a) / s + 1).max(0);
            self.emit(Ev::new("remn").i("t", t).i("k", a).i("p", s).i("n", n).i("m", d));
            let m = self.trees.get_mut(&t).unwrap();
            for i in 0..n {
                m.remove(&(a + i * s));
            }
        }
        self.mood = self.rng.range(20, 80);
    }
    fn fill(&mut self, t: i64, n: i64) {
        let lo = self.key();
        let style = self.rng.below(4);
        if n > 24 && self.rng.chance(50) && self.info.kmax > 2000 {
            let p = self.rng.range(1, 3);
            let v = self.val;
            self.val += n;
            let m = self.rng.below(4);
            if self.info.vmax > 2000 || self.info.vmax == 1 && false {
                self.emit(Ev::new("insn").i("t", t).i("k", lo).i("p", p).i("n", n).i("v", v).i("m", m));
                for i in 0..n {
                    self.store(t, lo + i * p, v + i, 0)
                }
                return;
            }
        }
        for i in 0..n {
            let k = match style {
                0 => lo + i,
                1 => lo + n - i,
                _ => self.key(),
            };
            self.ins(t, k.clamp(0, self.info.kmax - 1));
        }
    }
    fn block(&mut self, t: i64, n: i64) {
        let keys: Vec<i64> = self.trees[&t].keys().copied().collect();
        if keys.is_empty() {
            return;
        }
        let a = self.rng.below(keys.len() as i64) as usize;
        let b = (a + n as usize).min(keys.len());
        let mut ks = keys[a..b].to_vec();
        self.shuffle(&mut ks);
        for k in ks {
            if self.rng.chance(4) {
                continue;
            }
            self.rem(t, k)
        }
    }
    fn probe(&mut self, t: i64, n: i64) {
        for _ in 0..n {
            match self.rng.below(5) {
                0 | 1 => {
                    let k = self.near(t);
                    self.get(t, k)
                }
                2 => {
                    let b = self.bounds(t);
                    let d = self.rng.below(2);
                    self.scan(t, b, d)
                }
                3 => self.len(t),
                _ => {
                    let k = self.near(t);
                    self.ins(t, k)
                }
            }
        }
    }
    fn entry(&mut self, t: i64) {
        let k = self.near(t);
        let g = self.tag();
        let occ = self.trees[&t].contains_key(&k);
        self.emit(Ev::new("eopen").i("t", t).i("k", k).i("g", g));
        for _ in 0..self.rng.below(3) {
            match self.rng.below(3) {
                0 => self.emit(Ev::new("ekey")),
                1 if occ => self.emit(Ev::new("eget")),
                _ if occ => {
                    let (w, m) = (self.value(), self.rng.below(2));
                    self.emit(Ev::new("ewrite").i("w", w).i("m", m));
                    self.store(t, k, w, 0)
                }
                _ => {}
            }
        }
        let mut is_ref = false;
        match (occ, self.rng.below(5)) {
            (true, 0 | 1) => {
                let m = self.rng.below(2);
                self.emit(Ev::new("erem").i("m", m));
                self.trees.get_mut(&t).unwrap().remove(&k);
                return;
            }
            (true, 2 | 3) => {
                self.emit(Ev::new("emut"));
                is_ref = true
            }
            (false, 0..=2) => {
                let v = self.value();
                self.emit(Ev::new("evac").i("v", v).i("ek", k).i("eg", g));
                self.store(t, k, v, g);
                is_ref = true
            }
            (false, 3) => {
                self.emit(Ev::new("ekeyi"));
                return;
            }
            _ => {}
        }
        if is_ref {
            for _ in 0..self.rng.below(3) {
                let w = self.value();
                self.emit(Ev::new("ewrite").i("w", w));
                self.store(t, k, w, 0)
            }
        }
        self.emit(Ev::new("edrop"));
        if self.rng.chance(30) {
            self.get(t, k)
        }
    }
    fn build(&mut self) {
        let n = self.size();
        let mut m = self.random_map(n);
        match self.rng.below(10) {
            // not ascending: must panic in debug builds; not done in release builds
            0 if crate::DEBUG && m.len() >= 2 => {
                let mut s = Self::pairs(&m);
                let i = self.rng.below(s.len() as i64 - 1) as usize;
                if self.rng.chance(50) {
                    s.swap(i, i + 1)
                } else {
                    s[i + 1] = s[i].clone()
                }
                let t = self.fresh();
                self.emit(Ev::new("load").i("t", t).p("s", s));
            }
            1 | 2 => {
                // duplicates: the first key object and the last value win
                let mut s = Self::pairs(&m);
                for _ in 0..self.rng.below(8) {
                    if let Some(p) = (!s.is_empty()).then(|| self.rng.pick(&s).clone()) {
                        let (v, g) = (self.value(), self.tag());
                        s.push(vec![p[0], v * 64 + g])
                    }
                }
                self.shuffle(&mut s);
                m.clear();
                for p in &s {
                    let e = m.entry(p[0]).or_insert((p[1] / 64, p[1] % 64));
                    e.0 = p[1] / 64;
                }
                let t = self.fresh();
                self.emit(Ev::new("fromseq").i("t", t).p("s", s));
                self.trees.insert(t, m);
            }
            3 if self.info.vmax > 2000 && self.info.kmax > 3000 => {
                let (p, v) = (self.rng.range(1, 3), self.val);
                let k = self.key();
                self.val += n;
                let t = self.fresh();
                self.emit(Ev::new("loadn").i("t", t).i("k", k).i("p", p).i("n", n).i("v", v));
                self.trees.insert(t, (0..n).map(|i| (k + i * p, (v + i, 0))).collect());
            }
            _ => {
                self.build_as(m);
            }
        }
        if self.prof == "C09" || self.prof == "C15" {
            if let Some(t) = self.trees.keys().next_back().copied() {
                self.full(t);
                self.probe(t, 3);
            }
        }
    }
    fn ext(&mut self, t: i64) {
        let n = self.rng.below(20);
        let mut s = vec![];
        for _ in 0..n {
            let (k, v, g) = (self.near(t), self.value(), self.tag());
            s.push(vec![k, v * 64 + g]);
            self.store(t, k, v, g);
        }
        let m = if self.info.copy { self.rng.below(2) } else { 0 };
        self.emit(Ev::new("ext").i("t", t).p("s", s).i("m", m));
    }
    fn comb(&mut self, t: i64) {
        let (t, u) = self.operands(t);
        let d = self.rng.below(2);
        let m = self.rng.below(4);
        let f = match self.rng.below(3) {
            2 if self.info.copy => "ref",
            0 => "merge",
            _ => "append",
        };
        let d = if f == "ref" { 1 } else { d };
        self.emit(Ev::new("comb").i("t", t).i("u", u).s("f", f).i("d", d).i("m", m));
        let (a, b) = (self.trees[&t].clone(), self.trees[&u].clone());
        let r = Self::union(a, b, d);
        self.trees.insert(t, r);
        if f != "ref" {
            self.trees.remove(&u);
        }
        self.full(t);
        if f == "ref" && self.rng.chance(50) {
            self.full(u)
        }
    }
    fn union(mut a: Map, mut b: Map, right: i64) -> Map {
        if right == 1 {
            a.append(&mut b);
            a
        } else {
            b.append(&mut a);
            b
        }
    }
    fn empty(&mut self, t: i64) {
        let keys: Vec<i64> = self.trees[&t].keys().copied().collect();
        match if self.large { 6 * self.rng.below(2) } else { self.rng.below(6) } {
            6 => {
                // in two passes, the last of them leaving none
                let (lo, hi) = (keys.first().copied().unwrap_or(0), keys.last().copied().unwrap_or(0));
                let d = 2 * self.rng.below(2);
                let s = self.rng.range(2, 5);
                self.emit(Ev::new("remn").i("t", t).i("k", lo).i("p", s).i("n", (hi - lo) / s + 1).i("m", d));
                self.emit(Ev::new("remn").i("t", t).i("k", lo).i("p", 1).i("n", hi - lo + 1).i("m", d));
                self.trees.get_mut(&t).unwrap().clear();
            }
            0 => {
                let n = keys.len() as i64 + self.rng.below(3);
                let d = self.rng.below(2);
                self.emit(Ev::new("popn").i("t", t).i("d", d).i("n", n));
                self.trees.get_mut(&t).unwrap().clear();
            }
            1 => {
                let d = self.rng.below(2);
                for _ in 0..keys.len() {
                    self.pop(t, d)
                }
            }
            2 => {
                for _ in 0..keys.len() {
                    let d = self.rng.below(2);
                    self.pop(t, d)
                }
            }
            _ => {
                let mut ks = keys.clone();
                self.shuffle(&mut ks);
                for k in ks {
                    self.rem(t, k)
                }
            }
        }
        // it must now behave like a new tree
        for _ in 0..self.rng.range(2, 6) {
            match self.rng.below(12) {
                0 => {
                    let k = self.key();
                    self.get(t, k)
                }
                1 => self.full(t),
                2 => {
                    let b = self.bounds(t);
                    self.scan(t, b, 0);
                }
                3 => {
                    let b = self.bounds(t);
                    if let Some(c) = self.open("ref", t, b) {
                        self.walk(c)
                    }
                }
                4 => {
                    let d = self.rng.below(2);
                    self.pop(t, d)
                }
                5 => {
                    let k = self.key();
                    self.rem(t, k)
                }
                6 => self.len(t),
                7 => {
                    let b = self.bounds(t);
                    self.scanm(t, b)
                }
                8 => {
                    let u = self.new_tree();
                    self.emit(Ev::new("cmp").i("t", t).i("u", u));
                    self.emit(Ev::new("cmp").i("t", u).i("u", t));
                    self.drop_tree(u)
                }
                9 => {
                    let k = self.key();
                    let w = self.value();
                    self.emit(Ev::new("getm").i("t", t).i("k", k).i("w", w));
                }
                10 if self.info.dbg => self.emit(Ev::new("dbg").i("t", t)),
                _ => {
                    let u = self.clone_of(t);
                    let k = self.key();
                    self.ins(u, k);
                    self.drop_tree(u)
                }
            }
        }
        // and be fillable by every route
        match self.rng.below(8) {
            0 => self.entry(t),
            1 => self.ext(t),
            2 => self.comb(t),
            3 => {
                let u = self.second(t);
                // append the emptied tree to another
                self.emit(Ev::new("comb").i("t", u).i("u", t).s("f", "append").i("d", 0));
                self.trees.remove(&t);
                self.full(u);
            }
            4 => {
                let c = self.fresh_c();
                self.emit(Ev::new("oown").i("c", c).i("t", t));
                self.trees.remove(&t);
                self.curs.insert(c, Cursor { kind: "own", t: -1, left: VecDeque::new(), held: vec![] });
                self.walk(c)
            }
            _ => {
                let n = self.rng.range(1, 60);
                self.fill(t, n);
                self.full(t);
            }
        }
        if self.trees.is_empty() {
            self.start()
        }
    }
    /// So many clones that a counter of them might be too small; some are then written to.
    fn flock(&mut self, t: i64) {
        let small = self.trees[&t].len() < 60;
        if !self.info.shared && !small {
            return;
        }
        let n = match self.rng.below(if self.info.shared { 24 } else { 12 }) {
            0..=4 => self.rng.range(2, 40),
            12 => 65536 - self.rng.below(8),
            13..=18 => 256 - self.rng.below(10),
            _ => *self.rng.pick(&[64, 127, 128, 129, 255, 256, 257]),
        };
        self.next_c += 1;
        let f = self.next_c;
        self.emit(Ev::new("flock").i("f", f).i("t", t).i("n", n));
        let mut mine = vec![];
        let m = self.trees[&t].clone();
        for _ in 0..self.rng.range(2, 12) {
            if mine.len() as i64 == n {
                break;
            }
            let u = self.fresh();
            let d = self.rng.below(2);
            self.emit(Ev::new("ftake").i("f", f).i("u", u).i("d", d));
            self.trees.insert(u, m.clone());
            mine.push(u);
            match self.rng.below(5) {
                0 => {
                    let k = self.near(u);
                    self.rem(u, k)
                }
                1 => self.entry(u),
                2 => {
                    let b = self.bounds(u);
                    self.scanm(u, b)
                }
                3 => {
                    let (k, w) = (self.near(u), self.value());
                    self.emit(Ev::new("getm").i("t", u).i("k", k).i("w", w));
                    if self.trees[&u].contains_key(&k) {
                        self.store(u, k, w, 0)
                    }
                }
                _ => {
                    let k = self.near(u);
                    self.ins(u, k)
                }
            }
            if self.rng.chance(50) && (mine.len() as i64) < n {
                let i = self.rng.below(n - mine.len() as i64);
                let d = self.rng.below(2);
                self.emit(Ev::new("fscan").i("f", f).i("i", i).i("d", d));
            }
            if self.rng.chance(40) {
                self.full(t)
            }
            if self.rng.chance(40) {
                let u = mine.remove(self.rng.below(mine.len() as i64) as usize);
                self.full(u);
                self.drop_tree(u);
                break;
            }
        }
        if self.prof == "C14" {
            self.live()
        }
        self.emit(Ev::new("fdrop").i("f", f));
        self.full(t);
        for u in mine {
            if self.rng.chance(50) {
                self.full(u)
            }
            self.drop_tree(u)
        }
    }
    /// Many threads at the same tree at once.
    pub fn hammer(&mut self, t: i64) {
        let hm = self.rng.range(2, 8);
        if self.rng.chance(60) {
            let n = self.rng.range(8, (self.dom + 4).min(80).max(9));
            let k = self.key() - self.rng.below(4);
            let hp = self.rng.range(20, 400);
            self.emit(Ev::new("gets").i("t", t).i("k", k.max(0)).i("n", n).i("hm", hm).i("hp", hp));
        } else {
            let ks = (0..hm).map(|_| vec![self.near(t), self.rng.below(4)]).collect();
            let v = self.value();
            let hp = self.rng.range(5, 60);
            self.emit(Ev::new("hclone").i("t", t).p("ks", ks).i("v", v).i("hp", hp));
        }
    }
    fn scanm(&mut self, t: i64, b: [i64; 4]) {
        if self.info.vmax < 2000 {
            return;
        }
        let d = self.rng.below(2);
        let m = self.rng.below(3);
        let v = self.val;
        self.val += 7;
        self.emit(Ev::new("scanm").i("t", t).l("b", b.to_vec()).i("d", d).i("v", v).i("m", m));
        if !Self::bad(b) {
            for e in Self::within(&self.trees[&t], b) {
                self.store(t, e.0, v + e.0, 0)
            }
        }
    }
    fn own(&mut self, t: i64) {
        let t = if self.rng.chance(70) { self.clone_of(t) } else { t };
        if self.rng.chance(50) {
            let n = self.rng.below(30);
            self.block(t, n)
        }
        let c = self.fresh_c();
        self.emit(Ev::new("oown").i("c", c).i("t", t));
        let m = self.trees.remove(&t).unwrap();
        let left = Self::within(&m, [0; 4]);
        self.curs.insert(c, Cursor { kind: "own", t: -1, left, held: vec![] });
        self.hint(c);
        self.walk(c)
    }
    fn mrg(&mut self, t: i64) {
        let (t, mut u) = self.operands(t);
        let t = if self.rng.chance(60) { self.clone_of(t) } else { t };
        if self.rng.chance(50) {
            u = self.clone_of(u)
        }
        let d = self.rng.below(2);
        let c = self.fresh_c();
        self.emit(Ev::new("omrg").i("c", c).i("t", t).i("u", u).i("d", d));
        let (a, b) = (self.trees.remove(&t).unwrap(), self.trees.remove(&u).unwrap());
        let left = Self::within(&Self::union(a, b, d), [0; 4]);
        self.curs.insert(c, Cursor { kind: "merge", t: -1, left, held: vec![] });
        self.walk(c)
    }
    fn cmp(&mut self, t: i64) {
        let u = match self.rng.below(7) {
            0 => self.clone_of(t),
            1..=3 => {
                // the same entries by another route, possibly with one difference
                let mut m = self.trees[&t].clone();
                if self.rng.chance(60) && !m.is_empty() {
                    let k = self.present(t).unwrap();
                    match self.rng.below(5) {
                        0 => {
                            m.remove(&k);
                        }
                        1 | 2 => {
                            let v = self.value();
                            m.get_mut(&k).unwrap().0 = v
                        }
                        3 => {
                            let k = *m.keys().next_back().unwrap();
                            m.remove(&k);
                        }
                        _ => {
                            let (k, v) = (self.key(), self.value());
                            m.insert(k, (v, 0));
                        }
                    }
                }
                self.build_as(m)
            }
            4 => t,
            5 => {
                let (a, b) = self.pair();
                self.emit(Ev::new("cmp").i("t", a).i("u", b));
                b
            }
            _ => self.second(t),
        };
        if self.rng.chance(40) && u != t {
            // different layouts: blow up and shrink back
            let ks: Vec<i64> = (0..self.rng.below(20)).map(|_| self.key()).collect();
            let before = self.trees[&u].clone();
            for k in &ks {
                if !before.contains_key(k) {
                    self.ins(u, *k)
                }
            }
            for k in &ks {
                if !before.contains_key(k) && self.trees[&u].contains_key(k) {
                    self.rem(u, *k)
                }
            }
        }
        self.emit(Ev::new("cmp").i("t", t).i("u", u));
        self.emit(Ev::new("cmp").i("t", u).i("u", t));
    }
    fn fault(&mut self, t: i64) {
        let fuse = |g: &mut Gen, max: i64| {
            let most = if g.large && g.rng.chance(50) { 2 * g.dom } else { max };
            let n = g.rng.below(most);
            g.rng.below(n.max(1))
        };
        let mut e = match self.rng.below(22) {
            0..=4 => {
                let (k, v, g) = (self.near(t), self.value(), self.tag());
                Ev::new("ins").i("t", t).i("k", k).i("v", v).i("g", g).i("m", self.rng.below(2))
            }
            5..=7 => {
                let k = self.near(t);
                Ev::new("rem").i("t", t).i("k", k)
            }
            8 => Ev::new("pop").i("t", t).i("d", self.rng.below(2)),
            9 => {
                let k = self.near(t);
                Ev::new("get").i("t", t).i("k", k).i("m", self.rng.below(2))
            }
            10 => {
                let (k, w) = (self.near(t), self.value());
                Ev::new("getm").i("t", t).i("k", k).i("w", w)
            }
            11 | 12 => {
                let b = self.bounds(t);
                Ev::new(if self.rng.chance(50) { "scan" } else { "rsum" }).i("t", t).l("b", b.to_vec()).i("d", 0)
            }
            13 => {
                let b = self.bounds(t);
                match self.info.vmax > 2000 {
                    true => Ev::new("scanm").i("t", t).l("b", b.to_vec()).i("d", 0).i("v", self.val),
                    false => Ev::new("scan").i("t", t).l("b", b.to_vec()).i("d", 0),
                }
            }
            14 => {
                let u = self.fresh();
                Ev::new("clone").i("t", t).i("u", u)
            }
            15 | 16 => {
                let n = self.size();
                let m = self.random_map(n);
                let u = self.fresh();
                let o = *self.rng.pick(&["load", "fromseq", "frommap"]);
                Ev::new(o).i("t", u).p("s", Self::pairs(&m))
            }
            17 | 18 => {
                let mut s = vec![];
                for _ in 0..self.rng.range(1, 20) {
                    let (k, v, g) = (self.near(t), self.value(), self.tag());
                    s.push(vec![k, v * 64 + g]);
                }
                Ev::new("ext").i("t", t).p("s", s)
            }
            19 => {
                let u = self.second(t);
                Ev::new("cmp").i("t", t).i("u", u)
            }
            20 => {
                let u = self.second(t);
                let f = if self.rng.chance(50) { "merge" } else { "append" };
                Ev::new("comb").i("t", t).i("u", u).s("f", f).i("d", self.rng.below(2))
            }
            _ => {
                let (k, g) = (self.near(t), self.tag());
                Ev::new("eopen").i("t", t).i("k", k).i("g", g)
            }
        };
        let o = e.op().to_string();
        match self.rng.below(3) {
            0 if matches!(&o[..], "load" | "fromseq" | "ext") => {
                let n = e.pairs("s").len() as i64;
                e.seti("fi", self.rng.below(n + 1))
            }
            1 => e.seti("fl", fuse(self, 60)),
            _ => e.seti("fc", fuse(self, if matches!(&o[..], "comb" | "cmp" | "load" | "fromseq" | "ext") { 200 } else { 25 })),
        }
        if self.rng.chance(25) && o == "ins" {
            e.seti("fl", fuse(self, 20));
        }
        self.fault_pending = true;
        self.emit(e);
    }
    /// More calls on what a panic left of a tree.
    fn hurt_life(&mut self, t: i64) {
        for _ in 0..self.rng.range(1, 12) {
            let d = self.rng.below(2);
            let mut e = match self.rng.below(20) {
                0..=4 => {
                    let (k, v, g) = (self.key(), self.value(), self.tag());
                    Ev::new("hins").i("t", t).i("k", k).i("v", v).i("g", g).i("m", self.rng.below(2))
                }
                5..=8 => {
                    let k = self.key();
                    Ev::new("hrem").i("t", t).i("k", k)
                }
                9 | 10 => Ev::new("hpop").i("t", t).i("d", d),
                11 => {
                    let (k, v, g) = (self.key(), self.value(), self.tag());
                    Ev::new("hent").i("t", t).i("k", k).i("v", v).i("g", g)
                }
                12 => {
                    self.val += 600;
                    if self.val + 600 >= self.info.vmax {
                        continue;
                    }
                    Ev::new("hmut").i("t", t).i("d", d).i("v", self.val)
                }
                13 | 14 => {
                    let k = self.key();
                    Ev::new("hget").i("t", t).i("k", k).i("m", d)
                }
                15 => {
                    let (k, n) = (self.key(), self.rng.below(30));
                    Ev::new("hscan").i("t", t).l("b", vec![1, k, 2, k + n + 1]).i("d", d)
                }
                16 => {
                    let u = self.fresh();
                    self.hurt.insert(u);
                    Ev::new("hcopy").i("t", t).i("u", u)
                }
                17 => {
                    let n = *self.rng.pick(&[0, 1, 3, 1000]);
                    Ev::new("hown").i("t", t).i("d", d).i("n", n)
                }
                18 => match self.hurt.iter().copied().find(|u| *u != t) {
                    Some(u) => {
                        self.hurt.remove(&u);
                        Ev::new("hcomb").i("t", t).i("u", u).i("d", d).i("m", self.rng.below(2))
                    }
                    None => continue,
                },
                _ => Ev::new("hscan").i("t", t).i("d", d),
            };
            // ... and again user code may panic in it
            match self.rng.below(6) {
                0 => e.seti("fl", self.rng.below(12)),
                1 => e.seti("fc", self.rng.below(12)),
                _ => {}
            }
            self.emit(e)
        }
        let d = self.rng.below(2);
        self.emit(Ev::new("hscan").i("t", t).i("d", d));
    }
    /// Called with what an armed call turned into.
    fn after(&mut self, ev: &Ev) {
        let t = ev.int("t");
        match ev.op() {
            "fault" => {
                for u in ev.list("us") {
                    self.trees.remove(&u);
                }
                self.trees.remove(&t);
                self.hurt.insert(t);
                let d = self.rng.below(2);
                self.emit(Ev::new("hscan").i("t", t).i("d", d));
                for _ in 0..self.rng.below(3) {
                    let k = self.key();
                    self.emit(Ev::new("hget").i("t", t).i("k", k).i("m", 0));
                }
                if self.rng.chance(70) {
                    self.hurt_life(t)
                }
                if self.rng.chance(70) {
                    self.emit(Ev::new("hdrop").i("t", t));
                    self.hurt.remove(&t);
                }
                let ids: Vec<i64> = self.trees.keys().copied().collect();
                for u in ids {
                    self.full(u)
                }
                self.emit(Ev::new("hlive"));
            }
            "rfault" => {
                let ids: Vec<i64> = self.trees.keys().copied().collect();
                for u in ids {
                    self.full(u)
                }
                self.emit(Ev::new("hlive"));
            }
            // the fuse was longer than the call
            "ins" => self.store(t, ev.int("k"), ev.int("v"), ev.int("g")),
            "rem" => {
                self.trees.get_mut(&t).unwrap().remove(&ev.int("k"));
            }
            "pop" => {
                let m = self.trees.get_mut(&t).unwrap();
                let k = if ev.int("d") == 1 { m.keys().next_back().copied() } else { m.keys().next().copied() };
                k.map(|k| m.remove(&k));
            }
            "getm" => {
                if self.trees[&t].contains_key(&ev.int("k")) {
                    self.store(t, ev.int("k"), ev.int("w"), 0)
                }
            }
            "scanm" => {
                let b = ev.list("b");
                let b = [b[0], b[1], b[2], b[3]];
                if !Self::bad(b) {
                    for e in Self::within(&self.trees[&t], b) {
                        self.store(t, e.0, ev.int("v") + e.0, 0)
                    }
                }
            }
            "clone" => {
                let m = self.trees[&t].clone();
                self.trees.insert(ev.int("u"), m);
            }
            "load" | "fromseq" | "frommap" => {
                let m = ev.pairs("s").iter().map(|p| (p[0], (p[1] / 64, p[1] % 64))).collect();
                self.trees.insert(t, m);
            }
            "ext" => {
                for p in ev.pairs("s") {
                    self.store(t, p[0], p[1] / 64, p[1] % 64)
                }
            }
            "comb" => {
                let b = self.trees.remove(&ev.int("u")).unwrap();
                let a = self.trees.remove(&t).unwrap();
                self.trees.insert(t, Self::union(a, b, ev.int("d")));
            }
            "eopen" => {
                if self.trees[&t].contains_key(&ev.int("k")) {
                    self.emit(Ev::new("edrop"))
                } else {
                    // and a fault while inserting through the entry
                    let (k, g, v) = (ev.int("k"), ev.int("g"), self.value());
                    let n = self.rng.below(12);
                    let f = if self.rng.chance(50) { "fc" } else { "fl" };
                    self.emit(Ev::new("evac").i("v", v).i("t", t).i("ek", k).i("eg", g).i(f, n));
                    self.fault_pending = true;
                }
            }
            "evac" => {
                self.store(t, ev.int("ek"), ev.int("v"), ev.int("eg"));
                self.emit(Ev::new("edrop"))
            }
            _ => {}
        }
    }

    fn scene(&mut self) {
        let total: i64 = self.weights.iter().map(|w| w.1).sum();
        let mut n = self.rng.below(total);
        let mut name = "ins";
        for (s, w) in &self.weights {
            if n < *w {
                name = s;
                break;
            }
            n -= w
        }
        if self.rng.chance(3) {
            self.mood = self.rng.range(15, 85)
        }
        let t = self.tree();
        // grow or shrink, according to the mood
        let name = match name {
            "ins" | "rem" => {
                let len = self.trees[&t].len() as i64;
                let grow = if len > 2 * self.dom { 20 } else { self.mood };
                if self.rng.chance(grow) {
                    "ins"
                } else {
                    "rem"
                }
            }
            n => n,
        };
        match name {
            "ins" => {
                let k = if self.rng.chance(30) { self.near(t) } else { self.key() };
                self.ins(t, k)
            }
            "rem" => {
                let k = if self.rng.chance(85) { self.present(t).unwrap_or(0) } else { self.near(t) };
                self.rem(t, k)
            }
            "fill" => {
                let n = self.rng.range(4, 40);
                if (self.trees[&t].len() as i64) < 2 * self.dom {
                    self.fill(t, n)
                }
            }
            "block" => {
                let n = self.rng.range(2, 30);
                self.block(t, n)
            }
            "leafkill" => {
                let n = self.rng.range(3, 14);
                self.block(t, n);
                self.probe(t, 4);
            }
            "window" => {
                // slide: append at one end, remove at the other
                if self.trees[&t].len() > 4 {
                    let up = self.rng.chance(50);
                    for _ in 0..self.rng.range(5, 30) {
                        let m = &self.trees[&t];
                        let (lo, hi) = (*m.keys().next().unwrap_or(&0), *m.keys().next_back().unwrap_or(&0));
                        let k = if up { hi + 1 } else { lo - 1 };
                        if k < 0 || k >= self.info.kmax {
                            break;
                        }
                        self.ins(t, k);
                        if self.rng.chance(50) {
                            self.rem(t, if up { lo } else { hi })
                        } else {
                            self.pop(t, if up { 0 } else { 1 })
                        }
                    }
                }
            }
            "get" => {
                let k = self.near(t);
                self.get(t, k)
            }
            "getm" => {
                let (k, w) = (self.near(t), self.value());
                self.emit(Ev::new("getm").i("t", t).i("k", k).i("w", w));
                if self.trees[&t].contains_key(&k) {
                    self.store(t, k, w, 0)
                }
            }
            "idx" => {
                let k = self.near(t);
                if self.rng.chance(50) {
                    self.emit(Ev::new("idx").i("t", t).i("k", k));
                } else {
                    let w = self.value();
                    self.emit(Ev::new("idxm").i("t", t).i("k", k).i("w", w));
                    if self.trees[&t].contains_key(&k) {
                        self.store(t, k, w, 0)
                    }
                }
            }
            "sweep" => {
                let n = (self.dom + 4).min(self.info.kmax - self.base.saturating_sub(2));
                self.emit(Ev::new("gets").i("t", t).i("k", self.base.saturating_sub(2).max(0)).i("n", n));
            }
            "len" => self.len(t),
            "pop" => {
                let d = self.rng.below(2);
                self.pop(t, d);
                if self.rng.chance(self.mood) {
                    let k = self.key();
                    self.ins(t, k)
                }
            }
            "poprun" => {
                let d = self.rng.below(2);
                for _ in 0..self.rng.range(3, 40) {
                    let d = if self.rng.chance(10) { 1 - d } else { d };
                    self.pop(t, d)
                }
            }
            "popn" => {
                let (d, n) = (self.rng.below(2), self.rng.range(1, 20));
                self.emit(Ev::new("popn").i("t", t).i("d", d).i("n", n));
                let m = self.trees.get_mut(&t).unwrap();
                for _ in 0..n {
                    let k = if d == 1 { m.keys().next_back().copied() } else { m.keys().next().copied() };
                    k.map(|k| m.remove(&k));
                }
            }
            "probe" => self.probe(t, 2),
            "entry" => self.entry(t),
            "scan" => self.full(t),
            "scanall" => {
                let ids: Vec<i64> = self.trees.keys().copied().collect();
                for u in ids {
                    self.full(u);
                    if self.rng.chance(30) {
                        self.len(u)
                    }
                }
            }
            "range" | "rangescan" => {
                let b = self.bounds(t);
                let d = self.rng.below(2);
                self.scan(t, b, d)
            }
            "ranges" => {
                // all kinds of bounds at one pair of keys
                let b = self.bounds(t);
                for lk in 0..3 {
                    for hk in 0..3 {
                        let b = [lk, if lk == 0 { 0 } else { b[1] }, hk, if hk == 0 { 0 } else { b[3] }];
                        let d = self.rng.below(2);
                        self.scan(t, b, d)
                    }
                }
            }
            "cur" | "rcur" => {
                let b = if name == "cur" || self.rng.chance(20) { [0; 4] } else { self.bounds(t) };
                if let Some(c) = self.open("ref", t, b) {
                    self.walk(c)
                }
            }
            "scanm" => {
                let b = if self.rng.chance(30) { [0; 4] } else { self.bounds(t) };
                self.scanm(t, b)
            }
            "mcur" => {
                let b = if self.rng.chance(30) { [0; 4] } else { self.bounds(t) };
                if let Some(c) = self.open("mut", t, b) {
                    self.walk(c)
                }
            }
            "own" => self.own(t),
            "mrg" => self.mrg(t),
            "comb" => self.comb(t),
            "build" => {
                if self.trees.len() < 5 {
                    self.build()
                }
            }
            "rebuild" => {
                let m = self.trees[&t].clone();
                let u = self.build_as(m);
                self.probe(u, 2);
            }
            "ext" => self.ext(t),
            "clone" => {
                if self.clones && self.trees.len() < 6 {
                    let u = self.clone_of(t);
                    let v = if self.rng.chance(50) { u } else { t };
                    match self.rng.below(4) {
                        0 => {
                            let k = self.near(v);
                            self.rem(v, k)
                        }
                        1 => self.entry(v),
                        2 => {
                            let b = self.bounds(v);
                            self.scanm(v, b)
                        }
                        _ => {
                            let k = self.near(v);
                            self.ins(v, k)
                        }
                    }
                    self.full(t);
                    self.full(u);
                }
            }
            "drop" => {
                let floor = if self.prof == "C11" { 3 } else { 2 };
                if self.trees.len() > floor {
                    let ids: Vec<i64> = self.trees.keys().copied().collect();
                    let u = *self.rng.pick(&ids);
                    self.drop_tree(u)
                }
            }
            "dropall" => {
                let ids: Vec<i64> = self.trees.keys().copied().collect();
                for u in ids {
                    self.drop_tree(u)
                }
                self.live();
                self.start()
            }
            "cmp" => self.cmp(t),
            "dbg" => {
                if self.info.dbg {
                    let op = if self.trees[&t].len() < 80 && self.rng.chance(60) { "dbg" } else { "dbgs" };
                    self.emit(Ev::new(op).i("t", t))
                }
            }
            "live" => self.live(),
            "empty" => self.empty(t),
            "flock" => self.flock(t),
            "hammer" => self.hammer(t),
            "fault" => self.fault(t),
            other => panic!("unknown scene {}", other),
        }
        if self.trees.len() > 5 && !self.fault_pending {
            let u = *self.trees.keys().next_back().unwrap();
            self.drop_tree(u)
        }
    }

    /// The next call of the program; `last` is what the previous one turned into.
    pub fn next(&mut self, last: Option<&Ev>) -> Option<Ev> {
        if self.q.is_empty() && self.fault_pending {
            self.fault_pending = false;
            if let Some(e) = last {
                self.after(e)
            }
        }
        let mut tries = 0;
        while self.q.is_empty() {
            tries += 1;
            if self.left > 0 && tries < 1000 {
                self.scene()
            } else if !self.ended {
                self.ended = true;
                self.finish()
            } else {
                return None;
            }
        }
        self.q.pop_front()
    }
    /// Look at everything once more, drop everything, take stock.
    fn finish(&mut self) {
        let ids: Vec<i64> = self.trees.keys().copied().collect();
        for t in &ids {
            self.scan(*t, [0; 4], 0);
            self.scan(*t, [0; 4], 1);
            self.len(*t);
        }
        for t in ids {
            self.drop_tree(t)
        }
        let hs: Vec<i64> = self.hurt.iter().copied().collect();
        for t in hs {
            self.emit(Ev::new("hdrop").i("t", t))
        }
        if self.prof == "C18" {
            self.emit(Ev::new("hlive"))
        } else {
            self.live();
        }
    }
}

//! Executes calls against the real library and fills in the replies.
use crate::alloc::{self, in_lib};
use crate::ev::{Ev, Val};
use crate::kit::{self, Injected, Ty};
use palmtree::{Entry, Iter, IterMut, OwnedIter, PalmTree, TreeConfig};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;

pub type Tree<T, C> = PalmTree<<T as Ty>::K, <T as Ty>::V, C>;
type OccE<K, V, C> = Box<Entry<'static, K, V, C>>;

enum Cur<T: Ty, C: TreeConfig<T::K, T::V> + 'static> {
    Ref(Iter<'static, T::K, T::V, C>),
    Mut(IterMut<'static, T::K, T::V, C>, HashMap<i64, *mut T::V>),
    Own(OwnedIter<T::K, T::V, C>),
    Merge(Box<dyn Merging<T>>),
}
/// An iterator whose type the library keeps to itself, by every method it has.
trait Merging<T: Ty> {
    fn step(&mut self) -> Option<(T::K, T::V)>;
    fn skip_to(&mut self, n: usize) -> Option<(T::K, T::V)>;
    fn find_from(&mut self, k: i64) -> Option<(T::K, T::V)>;
    fn hint(&self) -> (usize, Option<usize>);
    fn all(self: Box<Self>, how: i64) -> Vec<(T::K, T::V)>;
    fn tally(self: Box<Self>) -> usize;
    fn end(self: Box<Self>) -> Option<(T::K, T::V)>;
}
impl<T: Ty, I: Iterator<Item = (T::K, T::V)>> Merging<T> for I {
    fn step(&mut self) -> Option<(T::K, T::V)> {
        self.next()
    }
    fn skip_to(&mut self, n: usize) -> Option<(T::K, T::V)> {
        self.nth(n)
    }
    fn find_from(&mut self, k: i64) -> Option<(T::K, T::V)> {
        self.find(|e| T::rk(&e.0).0 >= k)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.size_hint()
    }
    fn all(self: Box<Self>, how: i64) -> Vec<(T::K, T::V)> {
        gather(*self, how)
    }
    fn tally(self: Box<Self>) -> usize {
        self.count()
    }
    fn end(self: Box<Self>) -> Option<(T::K, T::V)> {
        self.last()
    }
}
const ENDLESS: usize = 1 << 22;
/// Everything left of an iterator, got by one of the methods that consume it.
fn gather<I: Iterator>(it: I, how: i64) -> Vec<I::Item> {
    match how {
        0 => it.collect(),
        1 => it.fold(vec![], |mut s, e| {
            assert!(s.len() < ENDLESS);
            s.push(e);
            s
        }),
        2 => {
            let mut s = vec![];
            it.for_each(|e| {
                assert!(s.len() < ENDLESS);
                s.push(e)
            });
            s
        }
        _ => {
            let mut s = vec![];
            s.extend(it);
            s
        }
    }
}
fn gather_back<I: DoubleEndedIterator>(it: I, how: i64) -> Vec<I::Item> {
    match how {
        0 => it.rev().collect(),
        _ => it.rfold(vec![], |mut s, e| {
            assert!(s.len() < ENDLESS);
            s.push(e);
            s
        }),
    }
}
enum Ent<T: Ty, C: TreeConfig<T::K, T::V> + 'static> {
    Handle(OccE<T::K, T::V, C>),
    Ref(*mut T::V),
}

#[derive(Clone, Copy, Debug)]
pub struct Info {
    pub tags: bool,
    pub ledger: bool,
    pub shared: bool,
    pub dbg: bool,
    pub copy: bool,
    pub partial: bool,
    pub kmax: i64,
    pub vmax: i64,
}

pub trait Exec {
    /// Is there a tree (or what a panic left of one) of this name?
    fn holds(&self, hurt: bool, t: i64) -> bool;
    fn exec(&mut self, ev: &mut Ev);
    fn reset(&mut self);
    fn info(&self) -> Info;
}

/// Lent to threads that read it and are gone when the call returns.
struct Lent<X>(*const X);
unsafe impl<X> Sync for Lent<X> {}

pub struct Mach<T: Ty, C: TreeConfig<T::K, T::V> + 'static> {
    ent: Option<Ent<T, C>>,
    curs: BTreeMap<i64, Cur<T, C>>,
    pub trees: BTreeMap<i64, Box<Tree<T, C>>>,
    hurt: BTreeMap<i64, Box<Tree<T, C>>>,
    /// Many clones of one tree.
    flocks: BTreeMap<i64, std::collections::VecDeque<Tree<T, C>>>,
    /// Trees read here that belong to somebody else.
    pub borrowed: BTreeMap<i64, *const Tree<T, C>>,
    shared: bool,
    base: i64,
    /// An iterator handed to the library panics at this item.
    iter_fuse: i64,
}

/// Yields items, optionally panicking in user code instead of yielding the n-th.
struct Fused<I> {
    it: I,
    fuse: i64,
    /// What it says of its length (right, vague or wrong), and whether it goes on after its end.
    hint: i64,
    left: usize,
}
impl<X> Fused<std::vec::IntoIter<X>> {
    fn new(v: Vec<X>, fuse: i64, hint: i64) -> Self {
        Fused { left: v.len(), it: v.into_iter(), fuse, hint }
    }
}
impl<I: Iterator> Iterator for Fused<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.fuse == 0 {
            alloc::out_lib(|| std::panic::panic_any(Injected));
        }
        self.fuse -= 1;
        self.left = self.left.saturating_sub(1);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint {
            1 => (self.left, Some(self.left)),
            2 => (self.left / 2, Some(2 * self.left + 3)),
            3 => (self.left + 9, None),
            4 => (0, Some(0)),
            5 => (usize::MAX, None),
            _ => (0, None),
        }
    }
}

impl<T: Ty, C: TreeConfig<T::K, T::V> + 'static> Mach<T, C> {
    pub fn new(shared: bool) -> Self {
        Mach {
            ent: None,
            curs: BTreeMap::new(),
            trees: BTreeMap::new(),
            hurt: BTreeMap::new(),
            flocks: BTreeMap::new(),
            borrowed: BTreeMap::new(),
            shared,
            base: alloc::LIVE.load(SeqCst),
            iter_fuse: -1,
        }
    }
    fn tr(&mut self, id: i64) -> &'static mut Tree<T, C> {
        let t: &mut Tree<T, C> = self.trees.get_mut(&id).expect("no such tree");
        // Borrow rules are kept by the program (see PalmMap: Readable, Writable).
        unsafe { &mut *(t as *mut _) }
    }
    /// What a panic left of a tree.
    fn hu(&mut self, id: i64) -> &'static mut Tree<T, C> {
        let t: &mut Tree<T, C> = self.hurt.get_mut(&id).expect("hurt tree");
        unsafe { &mut *(t as *mut _) }
    }
    /// The tree, to be read only.
    fn rd(&self, id: i64) -> &'static Tree<T, C> {
        let t: *const Tree<T, C> = match self.trees.get(&id) {
            Some(t) => &**t,
            None => *self.borrowed.get(&id).expect("no such tree"),
        };
        unsafe { &*t }
    }
    fn take(&mut self, id: i64) -> Tree<T, C> {
        *self.trees.remove(&id).expect("no such tree")
    }
    fn put(&mut self, id: i64, t: Tree<T, C>) {
        self.trees.insert(id, Box::new(t));
    }
    fn pair(k: &T::K, v: &T::V) -> Vec<i64> {
        let (k, g) = T::rk(k);
        vec![k, T::rv(v) * 64 + g]
    }
    fn items(&self, ev: &Ev) -> Vec<(T::K, T::V)> {
        ev.pairs("s").iter().map(|p| (T::k(p[0], p[1] % 64), T::v(p[1] / 64))).collect()
    }
    fn bounds(ev: &Ev) -> (Bound<T::K>, Bound<T::K>) {
        let b = ev.list("b");
        let f = |kind, k| match kind {
            0 => Bound::Unbounded,
            1 => Bound::Included(T::k(k, 0)),
            _ => Bound::Excluded(T::k(k, 0)),
        };
        (f(b[0], b[1]), f(b[2], b[3]))
    }
    fn open_ref(&mut self, ev: &Ev) -> Iter<'static, T::K, T::V, C> {
        let t = self.rd(ev.int("t"));
        match ev.int("m") {
            1 if ev.list("b")[..] == [0, 0, 0, 0] => in_lib(|| t.iter()),
            2 if ev.list("b")[..] == [0, 0, 0, 0] => in_lib(|| t.into_iter()),
            _ => {
                let b = Self::bounds(ev);
                match (ev.int("m"), b) {
                    (3, (Bound::Unbounded, Bound::Unbounded)) => in_lib(|| t.range(..)),
                    (3, (Bound::Included(l), Bound::Unbounded)) => in_lib(|| t.range(l..)),
                    (3, (Bound::Unbounded, Bound::Excluded(h))) => in_lib(|| t.range(..h)),
                    (3, (Bound::Unbounded, Bound::Included(h))) => in_lib(|| t.range(..=h)),
                    (3, (Bound::Included(l), Bound::Excluded(h))) => in_lib(|| t.range(l..h)),
                    (3, (Bound::Included(l), Bound::Included(h))) => in_lib(|| t.range(l..=h)),
                    (_, b) => in_lib(|| t.range(b)),
                }
            }
        }
    }
    fn open_mut(&mut self, ev: &Ev) -> IterMut<'static, T::K, T::V, C> {
        let t = self.tr(ev.int("t"));
        match ev.int("m") {
            1 if ev.list("b")[..] == [0, 0, 0, 0] => in_lib(|| t.iter_mut()),
            2 if ev.list("b")[..] == [0, 0, 0, 0] => in_lib(|| t.into_iter()),
            _ => {
                let b = Self::bounds(ev);
                match (ev.int("m"), b) {
                    (3, (Bound::Unbounded, Bound::Unbounded)) => in_lib(|| t.range_mut(..)),
                    (3, (Bound::Included(l), Bound::Unbounded)) => in_lib(|| t.range_mut(l..)),
                    (3, (Bound::Unbounded, Bound::Excluded(h))) => in_lib(|| t.range_mut(..h)),
                    (3, (Bound::Unbounded, Bound::Included(h))) => in_lib(|| t.range_mut(..=h)),
                    (3, (Bound::Included(l), Bound::Excluded(h))) => in_lib(|| t.range_mut(l..h)),
                    (3, (Bound::Included(l), Bound::Included(h))) => in_lib(|| t.range_mut(l..=h)),
                    (_, b) => in_lib(|| t.range_mut(b)),
                }
            }
        }
    }
    fn cap(&self, id: i64) -> usize {
        match self.trees.contains_key(&id) || self.borrowed.contains_key(&id) {
            true => self.rd(id).len().min(1 << 22) + 4096,
            false => 4096,
        }
    }

    fn run(&mut self, op: &str, ev: &mut Ev) {
        let t = ev.int("t");
        let k = ev.int("k");
        let d = ev.int("d");
        match op {
            // ------------------------------------------------ construction
            "new" => {
                let tree = if ev.int("m") == 1 { in_lib(Tree::<T, C>::default) } else { in_lib(Tree::<T, C>::new) };
                self.put(t, tree)
            }
            "load" => {
                let it = Fused::new(self.items(ev), self.iter_fuse, ev.int("sh"));
                let tree = in_lib(|| Tree::<T, C>::load(it));
                self.put(t, tree)
            }
            "loadn" => {
                let (p, n, v) = (ev.int("p"), ev.int("n"), ev.int("v"));
                let tree = in_lib(|| Tree::<T, C>::load((0..n).map(|i| alloc::out_lib(|| (T::k(k + i * p, 0), T::v(v + i))))));
                self.put(t, tree)
            }
            "frommap" => {
                let m: BTreeMap<T::K, T::V> = self.items(ev).into_iter().collect();
                let tree = in_lib(|| Tree::<T, C>::from(m));
                self.put(t, tree)
            }
            "fromseq" => {
                let it = Fused::new(self.items(ev), self.iter_fuse, ev.int("sh"));
                let tree = in_lib(|| it.collect::<Tree<T, C>>());
                self.put(t, tree)
            }
            "ext" => {
                let s = self.items(ev);
                let fuse = self.iter_fuse;
                let tr = self.tr(t);
                if ev.int("m") == 1 && T::COPY {
                    in_lib(|| T::ext_ref(tr, &s))
                } else {
                    let it = Fused::new(s, fuse, ev.int("sh"));
                    in_lib(|| tr.extend(it))
                }
            }
            "clone" => {
                let u = ev.int("u");
                let tr = self.rd(t);
                let tree = in_lib(|| tr.clone());
                self.put(u, tree)
            }
            "drop" => {
                let tree = self.trees.remove(&t).expect("no such tree");
                in_lib(|| drop(*tree))
            }
            // ------------------------------------------------ many clones
            "flock" => {
                let tr = self.rd(t);
                let mut v = std::collections::VecDeque::new();
                for _ in 0..ev.int("n") {
                    v.push_back(in_lib(|| tr.clone()));
                }
                self.flocks.insert(ev.int("f"), v);
            }
            "fscan" => {
                ev.set("s", Val::P(vec![]));
                let f = &self.flocks[&ev.int("f")];
                let tr = &f[ev.int("i") as usize % f.len()];
                let mut s = vec![];
                let mut it = in_lib(|| tr.iter());
                while s.len() < 100_000 {
                    match if d == 1 { in_lib(|| it.next_back()) } else { in_lib(|| it.next()) } {
                        Some((k, v)) => s.push(Self::pair(k, v)),
                        None => break,
                    }
                }
                ev.set("s", Val::P(s))
            }
            "ftake" => {
                let f = self.flocks.get_mut(&ev.int("f")).expect("flock");
                let tr = if d == 1 { f.pop_back() } else { f.pop_front() }.expect("flock");
                self.put(ev.int("u"), tr);
            }
            "fdrop" => {
                let f = self.flocks.remove(&ev.int("f")).expect("flock");
                in_lib(|| drop(f))
            }
            // ------------------------------------------------ the same by many threads at once
            "hclone" => {
                ev.set("ss", Val::P(vec![]));
                let tr = Lent(self.rd(t) as *const Tree<T, C>);
                let (tr, v, passes) = (&tr, ev.int("v"), ev.int("hp"));
                let ops = ev.pairs("ks");
                let start = std::sync::atomic::AtomicUsize::new(0);
                let (start, n) = (&start, ops.len());
                let all: Vec<Vec<i64>> = std::thread::scope(|sc| {
                    let hs: Vec<_> = ops
                        .iter()
                        .map(|op| {
                            sc.spawn(move || {
                                let tr = unsafe { &*tr.0 };
                                let mut seen: Option<Vec<i64>> = None;
                                start.fetch_add(1, SeqCst);
                                while start.load(SeqCst) < n {
                                    std::hint::spin_loop()
                                }
                                for _ in 0..passes {
                                    let mut u = in_lib(|| tr.clone());
                                    match op[1] {
                                        0 => {
                                            let (key, val) = (T::k(op[0], 0), T::v(v));
                                            in_lib(|| u.insert(key, val));
                                        }
                                        1 => {
                                            let key = T::k(op[0], 0);
                                            in_lib(|| u.remove(&key));
                                        }
                                        _ => {
                                            let key = T::k(op[0], 0);
                                            if let Some(p) = in_lib(|| u.get_mut(&key)) {
                                                *p = T::v(v)
                                            }
                                        }
                                    }
                                    let mut s = vec![];
                                    if op[1] % 2 == 0 {
                                        for (k, v) in in_lib(|| u.iter()) {
                                            s.extend(Self::pair(k, v));
                                            if s.len() > 100_000 {
                                                break;
                                            }
                                        }
                                        in_lib(|| drop(u));
                                    } else {
                                        let mut it = in_lib(|| u.into_iter());
                                        while let Some((k, v)) = in_lib(|| it.next()) {
                                            s.extend(Self::pair(&k, &v));
                                            if s.len() > 100_000 {
                                                break;
                                            }
                                        }
                                        in_lib(|| drop(it));
                                    }
                                    crate::tick();
                                    match &seen {
                                        None => seen = Some(s),
                                        Some(o) if *o != s => return vec![-7, -7],
                                        _ => {}
                                    }
                                }
                                seen.unwrap_or_default()
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
                });
                ev.set("ss", Val::P(all))
            }
            // ------------------------------------------------ point operations
            "ins" => {
                ev.seti("r", -1);
                let (key, val) = (T::k(k, ev.int("g")), T::v(ev.int("v")));
                let tr = self.tr(t);
                let r = if ev.int("m") == 1 { in_lib(|| tr.insert_recursive(key, val)) } else { in_lib(|| tr.insert(key, val)) };
                if let Some(v) = r {
                    ev.seti("r", T::rv(&v))
                }
            }
            "get" => {
                ev.seti("r", -1);
                let key = T::k(k, 1);
                let tr = self.rd(t);
                let r = if ev.int("m") == 1 { in_lib(|| tr.get_linear(&key)) } else { in_lib(|| tr.get(&key)) };
                if let Some(v) = r {
                    ev.seti("r", T::rv(v))
                }
            }
            "gets" => {
                let n = ev.int("n").min(T::KMAX - k);
                let tr = self.rd(t);
                if ev.int("hm") > 1 {
                    let r = Self::gets_together(tr, k, n, ev.int("hm") as usize, ev.int("hp"));
                    ev.set("r", Val::L(r));
                    return;
                }
                let r = (0..n)
                    .map(|i| {
                        let key = T::k(k + i, 1);
                        in_lib(|| tr.get(&key)).map_or(-1, T::rv)
                    })
                    .collect();
                ev.set("r", Val::L(r))
            }
            "idx" => {
                ev.seti("r", -1);
                let key = T::k(k, 1);
                let tr = self.rd(t);
                let v = in_lib(|| &tr[&key]);
                ev.seti("r", T::rv(v))
            }
            "getm" => {
                ev.seti("r", -1);
                let key = T::k(k, 1);
                let w = T::v(ev.int("w"));
                let tr = self.tr(t);
                if let Some(v) = in_lib(|| tr.get_mut(&key)) {
                    ev.seti("r", T::rv(v));
                    *v = w;
                }
            }
            "idxm" => {
                ev.seti("r", -1);
                let key = T::k(k, 1);
                let w = T::v(ev.int("w"));
                let tr = self.tr(t);
                let v = in_lib(|| &mut tr[&key]);
                ev.seti("r", T::rv(v));
                *v = w;
            }
            "rem" => {
                ev.set("r", Val::L(vec![]));
                let key = T::k(k, 1);
                let tr = self.tr(t);
                if let Some((k, v)) = in_lib(|| tr.remove(&key)) {
                    ev.set("r", Val::L(Self::pair(&k, &v)))
                }
            }
            "pop" => {
                ev.set("r", Val::L(vec![]));
                let tr = self.tr(t);
                let r = if d == 1 { in_lib(|| tr.remove_highest()) } else { in_lib(|| tr.remove_lowest()) };
                if let Some((k, v)) = r {
                    ev.set("r", Val::L(Self::pair(&k, &v)))
                }
            }
            "len" => {
                let tr = self.rd(t);
                let (n, e) = in_lib(|| (tr.len(), tr.is_empty()));
                ev.seti("n", n.min(1 << 30) as i64);
                ev.seti("e", e as i64);
            }
            // ------------------------------------------------ bulk steps
            "insn" => {
                let (p, n, v) = (ev.int("p"), ev.int("n"), ev.int("v"));
                let tr = self.tr(t);
                let mut r = 0;
                let down = ev.int("m") & 2 != 0;
                let rec = ev.int("m") & 1 != 0;
                for j in 0..n {
                    let i = if down { n - 1 - j } else { j };
                    let (key, val) = (T::k(k + i * p, 0), T::v(v + i));
                    let old = if rec { in_lib(|| tr.insert_recursive(key, val)) } else { in_lib(|| tr.insert(key, val)) };
                    r += old.is_some() as i64;
                    crate::tick();
                }
                ev.seti("r", r)
            }
            "remn" => {
                let (p, n) = (ev.int("p"), ev.int("n"));
                let tr = self.tr(t);
                let mut r = 0;
                let down = ev.int("m") & 2 != 0;
                for j in 0..n {
                    let i = if down { n - 1 - j } else { j };
                    let key = T::k(k + i * p, 1);
                    if let Some((rk, _)) = in_lib(|| tr.remove(&key)) {
                        // a removal of another key does not count as this one
                        r += if T::rk(&rk).0 == k + i * p { 1 } else { 1000 };
                    }
                    crate::tick();
                }
                ev.seti("r", r)
            }
            "popn" => {
                let n = ev.int("n");
                let tr = self.tr(t);
                let mut s = vec![];
                for _ in 0..n {
                    let r = if d == 1 { in_lib(|| tr.remove_highest()) } else { in_lib(|| tr.remove_lowest()) };
                    match r {
                        Some((k, v)) => s.push(Self::pair(&k, &v)),
                        None => break,
                    }
                    crate::tick();
                }
                ev.set("r", Val::P(s))
            }
            // ------------------------------------------------ whole iteration
            "scan" => {
                ev.set("s", Val::P(vec![]));
                let cap = self.cap(t);
                let mut it = self.open_ref(ev);
                let mut s = vec![];
                while s.len() < cap {
                    match if d == 1 { in_lib(|| it.next_back()) } else { in_lib(|| it.next()) } {
                        Some((k, v)) => s.push(Self::pair(k, v)),
                        None => break,
                    }
                    crate::tick();
                }
                ev.set("s", Val::P(s))
            }
            "rsum" => {
                ev.seti("n", -1);
                ev.seti("f", -1);
                ev.seti("l", -1);
                let cap = self.cap(t);
                let mut it = self.open_ref(ev);
                let (mut n, mut lo, mut hi, mut prev) = (0, -1, -1, i64::MIN);
                loop {
                    let i = if d == 1 { in_lib(|| it.next_back()) } else { in_lib(|| it.next()) };
                    let Some((k, _)) = i else { break };
                    let k = T::rk(k).0;
                    let key = if d == 1 { -k } else { k };
                    if n > cap || key <= prev {
                        n = usize::MAX >> 40;
                        break;
                    }
                    prev = key;
                    if n == 0 {
                        lo = k
                    }
                    hi = k;
                    n += 1;
                    crate::tick();
                }
                if d == 1 {
                    std::mem::swap(&mut lo, &mut hi)
                }
                ev.seti("n", n as i64);
                ev.seti("f", lo);
                ev.seti("l", hi);
            }
            "osum" => {
                // consume the tree, from the front, the back, or both in turn
                ev.seti("n", -1);
                ev.seti("f", -1);
                ev.seti("l", -1);
                let cap = self.cap(t);
                let tree = self.take(t);
                let mut it = in_lib(|| tree.into_iter());
                let (mut n, mut lo, mut hi) = (0, i64::MIN, i64::MAX);
                let (mut first, mut last) = (-1, -1);
                let mut ok = true;
                loop {
                    let back = d == 1 || d == 2 && n % 3 == 1;
                    ok &= it.len() + n == cap - 4096 || cap > 1 << 22;
                    let i = if back { in_lib(|| it.next_back()) } else { in_lib(|| it.next()) };
                    let Some((k, _)) = i else { break };
                    let k = T::rk(&k).0;
                    ok &= k > lo && k < hi;
                    if back {
                        hi = k;
                        last = last.max(k);
                        first = if first < 0 { k } else { first.min(k) };
                    } else {
                        lo = k;
                        last = last.max(k);
                        first = if first < 0 { k } else { first.min(k) };
                    }
                    n += 1;
                    if !ok || n > cap {
                        break;
                    }
                    crate::tick();
                }
                in_lib(|| drop(it));
                ev.seti("n", if ok { n as i64 } else { -5 });
                ev.seti("f", first);
                ev.seti("l", last);
            }
            "scanm" => {
                ev.set("s", Val::P(vec![]));
                let cap = self.cap(t);
                let v0 = ev.int("v");
                let mut it = self.open_mut(ev);
                let mut s = vec![];
                let mut held = vec![];
                while s.len() < cap {
                    match if d == 1 { in_lib(|| it.next_back()) } else { in_lib(|| it.next()) } {
                        Some((k, v)) => {
                            s.push(Self::pair(k, v));
                            held.push((T::rk(k).0, v));
                        }
                        None => break,
                    }
                    crate::tick();
                }
                // all references are held together, then written
                for (k, v) in held {
                    *v = T::v(v0 + k);
                }
                ev.set("s", Val::P(s))
            }
            // ------------------------------------------------ cursors
            "oref" => {
                let it = self.open_ref(ev);
                self.curs.insert(ev.int("c"), Cur::Ref(it));
            }
            "omut" => {
                let it = self.open_mut(ev);
                self.curs.insert(ev.int("c"), Cur::Mut(it, HashMap::new()));
            }
            "oown" => {
                let tree = self.take(t);
                let it = in_lib(|| tree.into_iter());
                self.curs.insert(ev.int("c"), Cur::Own(it));
            }
            "omrg" => {
                let (a, b) = (self.take(t), self.take(ev.int("u")));
                let it: Box<dyn Merging<T>> = if d == 1 {
                    let i = in_lib(|| Tree::<T, C>::merge_right_iter(a, b));
                    Box::new(i)
                } else {
                    let i = in_lib(|| Tree::<T, C>::merge_left_iter(a, b));
                    Box::new(i)
                };
                self.curs.insert(ev.int("c"), Cur::Merge(it));
            }
            "step" => {
                ev.set("r", Val::L(vec![]));
                let r = Self::step(self.curs.get_mut(&ev.int("c")).expect("cursor"), d == 1);
                ev.set("r", Val::L(r))
            }
            "cdrain" => {
                ev.set("s", Val::P(vec![]));
                let cap = ev.int("cap").max(64) as usize;
                let c = self.curs.get_mut(&ev.int("c")).expect("cursor");
                let mut s = vec![];
                while s.len() < cap {
                    let r = Self::step(c, d == 1);
                    if r.is_empty() {
                        break;
                    }
                    s.push(r);
                    crate::tick();
                }
                ev.set("s", Val::P(s))
            }
            "cnth" => {
                ev.set("r", Val::L(vec![]));
                let n = ev.int("n") as usize;
                let r = match self.curs.get_mut(&ev.int("c")).expect("cursor") {
                    Cur::Ref(it) => in_lib(|| if d == 1 { it.nth_back(n) } else { it.nth(n) }).map_or(vec![], |(k, v)| Self::pair(k, v)),
                    Cur::Mut(it, held) => in_lib(|| if d == 1 { it.nth_back(n) } else { it.nth(n) }).map_or(vec![], |(k, v)| {
                        let p = Self::pair(k, v);
                        held.insert(p[0], v);
                        p
                    }),
                    Cur::Own(it) => in_lib(|| if d == 1 { it.nth_back(n) } else { it.nth(n) }).map_or(vec![], |(k, v)| Self::pair(&k, &v)),
                    Cur::Merge(it) => in_lib(|| it.skip_to(n)).map_or(vec![], |(k, v)| Self::pair(&k, &v)),
                };
                ev.set("r", Val::L(r))
            }
            "cfind" => {
                ev.set("r", Val::L(vec![]));
                let at = |x: &T::K| if d == 1 { T::rk(x).0 <= k } else { T::rk(x).0 >= k };
                let r = match self.curs.get_mut(&ev.int("c")).expect("cursor") {
                    Cur::Ref(it) => {
                        in_lib(|| if d == 1 { it.rfind(|e| at(e.0)) } else { it.find(|e| at(e.0)) }).map_or(vec![], |(k, v)| Self::pair(k, v))
                    }
                    Cur::Mut(it, held) => in_lib(|| if d == 1 { it.rfind(|e| at(e.0)) } else { it.find(|e| at(e.0)) }).map_or(vec![], |(k, v)| {
                        let p = Self::pair(k, v);
                        held.insert(p[0], v);
                        p
                    }),
                    Cur::Own(it) => {
                        in_lib(|| if d == 1 { it.rfind(|e| at(&e.0)) } else { it.find(|e| at(&e.0)) }).map_or(vec![], |(k, v)| Self::pair(&k, &v))
                    }
                    Cur::Merge(it) => in_lib(|| it.find_from(k)).map_or(vec![], |(k, v)| Self::pair(&k, &v)),
                };
                ev.set("r", Val::L(r))
            }
            "ccol" => {
                ev.set("s", Val::P(vec![]));
                let m = ev.int("m");
                let s = match self.curs.remove(&ev.int("c")).expect("cursor") {
                    Cur::Ref(it) => in_lib(|| if d == 1 { gather_back(it, m) } else { gather(it, m) }).into_iter().map(|(k, v)| Self::pair(k, v)).collect(),
                    Cur::Mut(it, _) => {
                        in_lib(|| if d == 1 { gather_back(it, m) } else { gather(it, m) }).into_iter().map(|(k, v)| Self::pair(k, v)).collect()
                    }
                    Cur::Own(it) => {
                        let s = in_lib(|| if d == 1 { gather_back(it, m) } else { gather(it, m) });
                        let r = s.iter().map(|(k, v)| Self::pair(k, v)).collect();
                        in_lib(|| drop(s));
                        r
                    }
                    Cur::Merge(it) => {
                        let s = in_lib(|| it.all(m));
                        let r = s.iter().map(|(k, v)| Self::pair(k, v)).collect();
                        in_lib(|| drop(s));
                        r
                    }
                };
                ev.set("s", Val::P(s))
            }
            "ccnt" => {
                let n = match self.curs.remove(&ev.int("c")).expect("cursor") {
                    Cur::Ref(it) => in_lib(|| it.count()),
                    Cur::Mut(it, _) => in_lib(|| it.count()),
                    Cur::Own(it) => in_lib(|| it.count()),
                    Cur::Merge(it) => in_lib(|| it.tally()),
                };
                ev.seti("n", n.min(1 << 30) as i64)
            }
            "clast" => {
                ev.set("r", Val::L(vec![]));
                let r = match self.curs.remove(&ev.int("c")).expect("cursor") {
                    Cur::Ref(it) => in_lib(|| it.last()).map_or(vec![], |(k, v)| Self::pair(k, v)),
                    Cur::Mut(it, _) => in_lib(|| it.last()).map_or(vec![], |(k, v)| Self::pair(k, v)),
                    Cur::Own(it) => in_lib(|| it.last()).map_or(vec![], |(k, v)| Self::pair(&k, &v)),
                    Cur::Merge(it) => in_lib(|| it.end()).map_or(vec![], |(k, v)| Self::pair(&k, &v)),
                };
                ev.set("r", Val::L(r))
            }
            "cwr" => {
                ev.seti("r", -1);
                let w = T::v(ev.int("w"));
                match self.curs.get_mut(&ev.int("c")).expect("cursor") {
                    Cur::Mut(_, held) => match held.get(&k) {
                        Some(p) => {
                            let v = unsafe { &mut **p };
                            ev.seti("r", T::rv(v));
                            *v = w;
                        }
                        None => ev.seti("r", -9),
                    },
                    _ => panic!("not a mutable cursor"),
                }
            }
            "ccl" => {
                let n = match self.curs.get(&ev.int("c")).expect("cursor") {
                    Cur::Ref(it) => Cur::Ref(in_lib(|| it.clone())),
                    _ => panic!("not a ref cursor"),
                };
                self.curs.insert(d, n);
            }
            "chint" => {
                let (l, h) = match self.curs.get(&ev.int("c")).expect("cursor") {
                    Cur::Ref(it) => in_lib(|| it.size_hint()),
                    Cur::Mut(it, _) => in_lib(|| it.size_hint()),
                    Cur::Own(it) => in_lib(|| (it.len(), it.size_hint().1)),
                    Cur::Merge(it) => in_lib(|| it.hint()),
                };
                ev.seti("l", l.min(1 << 30) as i64);
                ev.seti("h", h.map_or(-1, |h| h.min(1 << 30) as i64));
            }
            "cend" => {
                let c = self.curs.remove(&ev.int("c")).expect("cursor");
                in_lib(|| drop(c))
            }
            // ------------------------------------------------ combination and comparison
            "comb" => {
                let u = ev.int("u");
                match (ev.str("f"), d) {
                    ("merge", 0) => {
                        let (a, b) = (self.take(t), self.take(u));
                        let r = in_lib(|| Tree::<T, C>::merge_left(a, b));
                        self.put(t, r)
                    }
                    ("merge", _) => {
                        let (a, b) = (self.take(t), self.take(u));
                        let r = if ev.int("m") == 1 { in_lib(|| a + b) } else { in_lib(|| Tree::<T, C>::merge_right(a, b)) };
                        self.put(t, r)
                    }
                    ("append", _) => {
                        let b = self.take(u);
                        let tr = self.tr(t);
                        if d == 0 {
                            in_lib(|| tr.append_left(b))
                        } else if ev.int("m") == 1 {
                            in_lib(|| *tr += b)
                        } else {
                            in_lib(|| tr.append_right(b))
                        }
                    }
                    _ => {
                        let m = ev.int("m");
                        let a = self.take(t);
                        let b = self.rd(u);
                        let r = in_lib(|| T::add_ref(a, b, m & 1 != 0, m & 2 != 0));
                        self.put(t, r)
                    }
                }
            }
            "cmp" => {
                let a = self.rd(t);
                let b = self.rd(ev.int("u"));
                let eq = in_lib(|| a == b);
                let ne = in_lib(|| a != b);
                let mut ord = in_lib(|| T::order(a, b));
                let (lt, le, gt, ge) = in_lib(|| (a < b, a <= b, a > b, a >= b));
                if (lt, le, gt, ge) != (ord == -1, ord == -1 || ord == 0, ord == 1, ord == 1 || ord == 0) {
                    ord = 7
                }
                let h = |x: &Tree<T, C>| {
                    let mut h = DefaultHasher::new();
                    in_lib(|| x.hash(&mut h));
                    h.finish()
                };
                ev.seti("eq", if eq == ne { 7 } else { eq as i64 });
                ev.seti("ord", ord);
                ev.seti("h", (h(a) == h(b)) as i64);
            }
            "dbg" => {
                let tr = self.rd(t);
                ev.seti("m", ev.int("m"));
                let s = if ev.int("m") == 1 { in_lib(|| format!("{:#?}", tr)) } else { in_lib(|| format!("{:?}", tr)) };
                ev.set("s", Val::S(s))
            }
            // the same, taken apart into its pairs
            "dbgs" => {
                ev.set("s", Val::P(vec![]));
                let tr = self.rd(t);
                let pretty = ev.int("m") == 1;
                let s = if pretty { in_lib(|| format!("{:#?}", tr)) } else { in_lib(|| format!("{:?}", tr)) };
                ev.set("s", Val::P(undebug(&s, pretty).unwrap_or(vec![vec![-7, -7]])))
            }
            // ------------------------------------------------ entries
            "eopen" => {
                ev.seti("occ", 7);
                let key = T::k(k, ev.int("g"));
                let tr = self.tr(t);
                let e = in_lib(|| tr.entry(key));
                ev.seti("occ", matches!(e, Entry::Occupied(_)) as i64);
                self.ent = Some(Ent::Handle(Box::new(e)));
            }
            "ekey" | "eget" | "ewrite" | "evac" | "emut" | "erem" | "ekeyi" | "edrop" => self.entry(op, ev),
            // ------------------------------------------------ ownership
            "live" | "hlive" => {
                ev.seti("v", kit::VALS.load(SeqCst));
                ev.seti("k", kit::KEYS.load(SeqCst));
                ev.seti("bad", kit::BAD.load(SeqCst));
                ev.seti("mem", alloc::LIVE.load(SeqCst) - self.base);
            }
            "lmem" => ev.seti("mem", alloc::LIVE.load(SeqCst) - self.base),
            // ------------------------------------------------ interrupted trees
            "hscan" => {
                ev.set("s", Val::P(vec![]));
                let tr = self.hu(t);
                let mut it = if ev.has("b") {
                    let b = Self::bounds(ev);
                    in_lib(|| tr.range(b))
                } else {
                    in_lib(|| tr.iter())
                };
                let mut s = vec![];
                while s.len() < 100_000 {
                    match if d == 1 { in_lib(|| it.next_back()) } else { in_lib(|| it.next()) } {
                        Some((k, v)) => s.push(Self::pair(k, v)),
                        None => break,
                    }
                    crate::tick();
                }
                ev.set("s", Val::P(s))
            }
            "hget" => {
                ev.seti("r", -1);
                let key = T::k(k, 1);
                let tr = self.hu(t);
                if let Some(v) = in_lib(|| if ev.int("m") == 1 { tr.get_linear(&key) } else { tr.get(&key) }) {
                    ev.seti("r", T::rv(v))
                }
            }
            "hins" => {
                ev.seti("r", -1);
                let (key, val) = (T::k(k, ev.int("g")), T::v(ev.int("v")));
                let tr = self.hu(t);
                let old = in_lib(|| if ev.int("m") == 1 { tr.insert_recursive(key, val) } else { tr.insert(key, val) });
                if let Some(v) = old {
                    ev.seti("r", T::rv(&v))
                }
            }
            "hrem" => {
                ev.set("r", Val::L(vec![]));
                let key = T::k(k, 1);
                let tr = self.hu(t);
                if let Some((k, v)) = in_lib(|| tr.remove(&key)) {
                    ev.set("r", Val::L(Self::pair(&k, &v)))
                }
            }
            "hpop" => {
                ev.set("r", Val::L(vec![]));
                let tr = self.hu(t);
                if let Some((k, v)) = in_lib(|| if d == 1 { tr.remove_highest() } else { tr.remove_lowest() }) {
                    ev.set("r", Val::L(Self::pair(&k, &v)))
                }
            }
            // the entry is taken out if there is one, put in if there is none
            "hent" => {
                ev.set("r", Val::L(vec![]));
                let (key, val) = (T::k(k, ev.int("g")), T::v(ev.int("v")));
                let tr = self.hu(t);
                match in_lib(|| tr.entry(key)) {
                    Entry::Occupied(o) => {
                        let (k, v) = in_lib(|| o.remove_entry());
                        ev.set("r", Val::L(Self::pair(&k, &v)))
                    }
                    Entry::Vacant(e) => {
                        in_lib(|| e.insert(val));
                    }
                }
            }
            // every value that can be reached is replaced
            "hmut" => {
                ev.set("s", Val::P(vec![]));
                let v0 = ev.int("v");
                let tr = self.hu(t);
                let mut s = vec![];
                let mut it = in_lib(|| tr.iter_mut());
                while s.len() < 100_000 {
                    match if d == 1 { in_lib(|| it.next_back()) } else { in_lib(|| it.next()) } {
                        Some((k, v)) => {
                            let k = {
                                let p = Self::pair(k, v);
                                let k = p[0];
                                s.push(p);
                                k
                            };
                            *v = T::v(v0 + k)
                        }
                        None => break,
                    }
                    crate::tick();
                }
                ev.set("s", Val::P(s))
            }
            // taken apart by the consuming iterator, in part (n entries at most)
            "hown" => {
                ev.set("s", Val::P(vec![]));
                let n = ev.int("n");
                let tree = *self.hurt.remove(&t).expect("hurt tree");
                let mut s = vec![];
                let mut it = in_lib(|| tree.into_iter());
                while (s.len() as i64) < n {
                    match if d == 1 { in_lib(|| it.next_back()) } else { in_lib(|| it.next()) } {
                        Some((k, v)) => s.push(Self::pair(&k, &v)),
                        None => break,
                    }
                    crate::tick();
                }
                in_lib(|| drop(it));
                ev.set("s", Val::P(s))
            }
            "hcopy" => {
                let tr = self.hu(t);
                let u = in_lib(|| tr.clone());
                self.hurt.insert(ev.int("u"), Box::new(u));
            }
            // combined with another tree (whole or not), which is used up; what results is no better
            "hcomb" => {
                let u = ev.int("u");
                let b = match self.hurt.remove(&u) {
                    Some(b) => *b,
                    None => self.take(u),
                };
                if let Some(a) = self.trees.remove(&t) {
                    self.hurt.insert(t, a);
                }
                if ev.int("m") == 1 {
                    let a = *self.hurt.remove(&t).expect("hurt tree");
                    let r = in_lib(|| if d == 1 { Tree::<T, C>::merge_right(a, b) } else { Tree::<T, C>::merge_left(a, b) });
                    self.hurt.insert(t, Box::new(r));
                } else {
                    let a = self.hu(t);
                    in_lib(|| if d == 1 { a.append_right(b) } else { a.append_left(b) })
                }
            }
            "hdrop" => {
                if let Some(tree) = self.hurt.remove(&t) {
                    in_lib(|| drop(*tree))
                }
            }
            "arm" => {}
            other => panic!("unknown op {}", other),
        }
    }

    /// Many threads look up the same keys in one tree, over and over: what they all got, or -7.
    fn gets_together(tr: &Tree<T, C>, k: i64, n: i64, threads: usize, passes: i64) -> Vec<i64> {
        let tr = Lent(tr as *const Tree<T, C>);
        let tr = &tr;
        let start = std::sync::atomic::AtomicUsize::new(0);
        let start = &start;
        let all: Vec<Vec<i64>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads as i64)
                .map(|me| {
                    sc.spawn(move || {
                        let tr = unsafe { &*tr.0 };
                        let keys: Vec<T::K> = (0..n).map(|i| T::k(k + i, 1)).collect();
                        let mut r = vec![-9; n as usize];
                        start.fetch_add(1, SeqCst);
                        while start.load(SeqCst) < threads {
                            std::hint::spin_loop()
                        }
                        for pass in 0..passes {
                            for j in 0..n {
                                // each in an order of its own
                                let i = if me % 2 == 0 { (j * (2 * me + 1) + pass + me) % n } else { n - 1 - (j + pass * me) % n };
                                let got = match pass % 4 {
                                    3 => in_lib(|| tr.get_linear(&keys[i as usize])),
                                    _ => in_lib(|| tr.get(&keys[i as usize])),
                                }
                                .map_or(-1, T::rv);
                                let was = &mut r[i as usize];
                                *was = if *was == -9 || *was == got { got } else { -7 };
                            }
                            crate::tick();
                        }
                        r
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
        });
        (0..n as usize)
            .map(|i| all.iter().map(|r| r[i]).filter(|x| *x != -9).reduce(|a, b| if a == b { a } else { -7 }).unwrap_or(-9))
            .collect()
    }

    fn step(c: &mut Cur<T, C>, back: bool) -> Vec<i64> {
        match c {
            Cur::Ref(it) => {
                let r = if back { in_lib(|| it.next_back()) } else { in_lib(|| it.next()) };
                r.map_or(vec![], |(k, v)| Self::pair(k, v))
            }
            Cur::Mut(it, held) => {
                let r = if back { in_lib(|| it.next_back()) } else { in_lib(|| it.next()) };
                r.map_or(vec![], |(k, v)| {
                    let p = Self::pair(k, v);
                    held.insert(p[0], v);
                    p
                })
            }
            Cur::Own(it) => {
                let r = if back { in_lib(|| it.next_back()) } else { in_lib(|| it.next()) };
                r.map_or(vec![], |(k, v)| Self::pair(&k, &v))
            }
            Cur::Merge(it) => in_lib(|| it.step()).map_or(vec![], |(k, v)| Self::pair(&k, &v)),
        }
    }

    fn entry(&mut self, op: &str, ev: &mut Ev) {
        let bad = "entry handle in the wrong state";
        match op {
            "ekey" => {
                let Some(Ent::Handle(e)) = &self.ent else { panic!("{}", bad) };
                let (k, g) = T::rk(match &**e {
                    Entry::Occupied(o) => o.key(),
                    Entry::Vacant(v) => v.key(),
                });
                ev.seti("k", k);
                ev.seti("g", g);
            }
            "eget" => {
                ev.seti("r", -9);
                let Some(Ent::Handle(e)) = &self.ent else { panic!("{}", bad) };
                if let Entry::Occupied(o) = &**e {
                    let v = in_lib(|| o.get());
                    ev.seti("r", T::rv(v))
                }
            }
            "ewrite" => {
                ev.seti("r", -9);
                let w = T::v(ev.int("w"));
                match &mut self.ent {
                    Some(Ent::Handle(e)) => {
                        if let Entry::Occupied(o) = &mut **e {
                            if ev.int("m") == 1 {
                                let old = in_lib(|| o.insert(w));
                                ev.seti("r", T::rv(&old))
                            } else {
                                let v = in_lib(|| o.get_mut());
                                ev.seti("r", T::rv(v));
                                *v = w;
                            }
                        }
                    }
                    Some(Ent::Ref(p)) => {
                        let v = unsafe { &mut **p };
                        ev.seti("r", T::rv(v));
                        *v = w;
                    }
                    None => panic!("{}", bad),
                }
            }
            "evac" => {
                let w = T::v(ev.int("v"));
                let Some(Ent::Handle(e)) = self.ent.take() else { panic!("{}", bad) };
                if let Entry::Vacant(v) = *e {
                    let p = in_lib(|| v.insert(w));
                    self.ent = Some(Ent::Ref(p))
                } else {
                    panic!("{}", bad)
                }
            }
            "emut" => {
                let Some(Ent::Handle(e)) = self.ent.take() else { panic!("{}", bad) };
                if let Entry::Occupied(o) = *e {
                    let p = in_lib(|| o.into_mut());
                    self.ent = Some(Ent::Ref(p))
                } else {
                    panic!("{}", bad)
                }
            }
            "erem" => {
                ev.set("r", Val::L(vec![]));
                let Some(Ent::Handle(e)) = self.ent.take() else { panic!("{}", bad) };
                if let Entry::Occupied(o) = *e {
                    if ev.int("m") == 1 {
                        // remove() gives the value only; the key is taken from key()
                        let (k, g) = T::rk(o.key());
                        let v = in_lib(|| o.remove());
                        ev.set("r", Val::L(vec![k, T::rv(&v) * 64 + g]))
                    } else {
                        let (k, v) = in_lib(|| o.remove_entry());
                        ev.set("r", Val::L(Self::pair(&k, &v)))
                    }
                } else {
                    panic!("{}", bad)
                }
            }
            "ekeyi" => {
                ev.seti("k", -9);
                ev.seti("g", 0);
                let Some(Ent::Handle(e)) = self.ent.take() else { panic!("{}", bad) };
                if let Entry::Vacant(v) = *e {
                    let key = in_lib(|| v.into_key());
                    let (k, g) = T::rk(&key);
                    ev.seti("k", k);
                    ev.seti("g", g);
                }
            }
            _ => {
                let e = self.ent.take();
                in_lib(|| drop(e))
            }
        }
    }

    /// An injected panic went off inside a call: say what it may have touched.
    fn faulted(&mut self, op: &str, ev: &mut Ev) {
        let t = ev.int("t");
        let mut us = vec![];
        let mut s = vec![];
        let mut writes = true;
        match op {
            "ins" => s.push(vec![ev.int("k"), ev.int("v") * 64 + ev.int("g")]),
            "ext" => s = ev.pairs("s"),
            "comb" => us.push(ev.int("u")),
            "rem" | "pop" | "omut" | "scanm" | "getm" | "idxm" | "oown" | "eopen" | "erem" => {}
            "evac" => {
                s.push(vec![ev.int("ek"), ev.int("v") * 64 + ev.int("eg")]);
            }
            _ => writes = false,
        }
        self.ent = None;
        let mut out = if writes { Ev::new("fault").i("t", t).l("us", us.clone()).p("s", s) } else { Ev::new("rfault") };
        out.set("of", Val::S(op.into()));
        *ev = out;
        if writes {
            for u in us {
                self.trees.remove(&u);
            }
            if let Some(tree) = self.trees.remove(&t) {
                self.hurt.insert(t, tree);
            }
        }
    }
}

impl<T: Ty, C: TreeConfig<T::K, T::V> + 'static> Exec for Mach<T, C> {
    fn exec(&mut self, ev: &mut Ev) {
        let op = ev.op().to_string();
        if ev.has("fc") || ev.has("fl") || ev.has("fi") {
            let g = |n: &str| if ev.has(n) { ev.int(n) } else { -1 };
            kit::arm(g("fc"), g("fl"));
            self.iter_fuse = g("fi");
        }
        // of an interrupted tree nothing may be left (it was consumed in a call that panicked)
        if matches!(&op[..], "hscan" | "hget" | "hdrop" | "hins" | "hrem" | "hpop" | "hent" | "hmut" | "hown" | "hcopy") && !self.hurt.contains_key(&ev.int("t"))
            || op == "hcomb" && ["t", "u"].iter().any(|n| !self.holds(true, ev.int(n)) && !self.holds(false, ev.int(n)))
        {
            *ev = Ev::new("none");
            ev.seti("x", 0);
            return;
        }
        let r = catch_unwind(AssertUnwindSafe(|| self.run(&op, ev)));
        kit::arm(-1, -1);
        self.iter_fuse = -1;
        match r {
            Ok(()) => ev.seti("x", 0),
            Err(p) if p.is::<Injected>() && !op.starts_with('h') => self.faulted(&op, ev),
            Err(_) => ev.seti("x", 1),
        }
    }
    fn holds(&self, hurt: bool, t: i64) -> bool {
        if hurt {
            self.hurt.contains_key(&t)
        } else {
            self.trees.contains_key(&t)
        }
    }
    fn reset(&mut self) {
        let _ = catch_unwind(AssertUnwindSafe(|| self.ent = None));
        let _ = catch_unwind(AssertUnwindSafe(|| self.curs.clear()));
        let _ = catch_unwind(AssertUnwindSafe(|| self.trees.clear()));
        let _ = catch_unwind(AssertUnwindSafe(|| self.flocks.clear()));
        let _ = catch_unwind(AssertUnwindSafe(|| self.hurt.clear()));
        kit::ledger_reset();
        self.base = alloc::LIVE.load(SeqCst);
    }
    fn info(&self) -> Info {
        Info { tags: T::TAGS, ledger: T::LEDGER, shared: self.shared, dbg: T::DBG, copy: T::COPY, partial: T::PARTIAL, kmax: T::KMAX, vmax: T::VMAX }
    }
}

/// The pairs a map's debug output lists, if it is exactly the output such a list has.
fn undebug(s: &str, pretty: bool) -> Option<Vec<Vec<i64>>> {
    let inner = s.strip_prefix('{')?.strip_suffix('}')?;
    let mut pairs = vec![];
    for item in inner.split(',') {
        if item.trim().is_empty() {
            continue;
        }
        let (k, v) = item.split_once(':')?;
        pairs.push(vec![k.trim().parse().ok()?, v.trim().parse().ok()?]);
    }
    let items: Vec<String> = pairs.iter().map(|p: &Vec<i64>| format!("{}: {}", p[0], p[1])).collect();
    let again = match (pretty, items.is_empty()) {
        (_, true) => "{}".to_string(),
        (false, _) => format!("{{{}}}", items.join(", ")),
        (true, _) => format!("{{\n    {},\n}}", items.join(",\n    ")),
    };
    (again == s).then_some(pairs)
}

//! Programs run by several threads: clones of thread-safe trees used, sent, consumed and dropped
//! concurrently, and one tree read by all. A call is recorded under the number it draws when it
//! has returned; the trees it names are owned by (or lent to) its thread at that moment, so the
//! numbers order the calls on each tree, and calls on different trees do not interact in the
//! specification.
use crate::ev::Ev;
use crate::gen::{Gen, Map, Rng};
use crate::kit::{self, Ty};
use crate::mach::{Exec, Mach, Tree};
use palmtree::TreeConfig;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Condvar, Mutex};

static SEQ: AtomicU64 = AtomicU64::new(0);

/// The machinery moves trees; whether the library says they may be moved is the compiler's matter.
struct Moved<X>(X);
unsafe impl<X> Send for Moved<X> {}
unsafe impl<X> Sync for Moved<X> {}

type Boxed<T, C> = Box<Tree<T, C>>;

/// Threads that go off together.
struct Start {
    here: AtomicUsize,
    n: usize,
}
impl Start {
    fn wait(&self) {
        self.here.fetch_add(1, SeqCst);
        while self.here.load(SeqCst) < self.n {
            std::hint::spin_loop()
        }
    }
}

pub trait Threaded {
    fn random(&self, rng: &mut Rng, ops: i64, threads: usize, log: &mut dyn FnMut(&Ev));
    fn schedule(&self, prog: &[Ev], log: &mut dyn FnMut(&Ev));
}
pub struct Crew<T: Ty, C: TreeConfig<T::K, T::V> + 'static>(pub PhantomData<(T, C)>);
unsafe impl<T: Ty, C: TreeConfig<T::K, T::V> + 'static> Sync for Crew<T, C> {}

/// What a worker starts from, and what it leaves.
struct Load<T: Ty, C: TreeConfig<T::K, T::V> + 'static> {
    own: Vec<(i64, Boxed<T, C>, Map)>,
    lent: Option<(i64, *const Tree<T, C>, Map)>,
    gen: Gen,
}
type Mail<T, C> = Vec<Mutex<Vec<Moved<(i64, Boxed<T, C>, Map)>>>>;

fn worker<T: Ty, C: TreeConfig<T::K, T::V> + 'static>(
    me: usize,
    load: Load<T, C>,
    quota: i64,
    start: &Start,
    mail: &Mail<T, C>,
) -> (Vec<(u64, Ev)>, Vec<(i64, Boxed<T, C>, Map)>, bool) {
    let Load { own, lent, mut gen } = load;
    let mut m = Mach::<T, C>::new(true);
    for (t, b, mirror) in own {
        m.trees.insert(t, b);
        gen.adopt(t, mirror)
    }
    if let Some((t, p, mirror)) = lent {
        m.borrowed.insert(t, p);
        gen.lend(t, mirror)
    }
    let mut log = vec![];
    let mut ok = true;
    start.wait();
    'all: while (log.len() as i64) < quota {
        if gen.rng.chance(25) {
            gen.peek()
        } else {
            gen.any_scene()
        }
        while let Some(mut e) = gen.pending() {
            let free = matches!(e.op(), "idx" | "idxm" | "scan" | "rsum" | "scanm" | "oref" | "omut" | "load");
            m.exec(&mut e);
            crate::tick();
            let stop = e.int("x") == 1 && !free;
            log.push((SEQ.fetch_add(1, SeqCst), e.i("th", me as i64 + 1)));
            if stop {
                ok = false;
                break 'all;
            }
        }
        // between scenes every tree is free to go elsewhere
        let ids = gen.ids();
        if ids.len() > 1 && gen.rng.chance(20) {
            let t = *gen.rng.pick(&ids);
            let to = gen.rng.below(mail.len() as i64) as usize;
            let parcel = (t, m.trees.remove(&t).unwrap(), gen.give(t));
            mail[to].lock().unwrap().push(Moved(parcel));
        }
        while let Some(Moved((t, b, mirror))) = mail[me].lock().unwrap().pop() {
            m.trees.insert(t, b);
            gen.adopt(t, mirror)
        }
    }
    let mut back = vec![];
    if ok {
        for t in gen.ids() {
            back.push((t, m.trees.remove(&t).unwrap(), gen.give(t)))
        }
    }
    m.borrowed.clear();
    std::mem::forget(std::mem::take(&mut m.trees));
    (log, back, ok)
}

impl<T: Ty, C: TreeConfig<T::K, T::V> + 'static> Threaded for Crew<T, C> {
    fn random(&self, rng: &mut Rng, ops: i64, threads: usize, log: &mut dyn FnMut(&Ev)) {
        let mut m = Mach::<T, C>::new(true);
        m.reset();
        let mut gen = Gen::new("C12", rng.next(), m.info(), 0, 0);
        let mut first = 1000;
        let mut done = 0;
        // run what the generator has in mind on this thread
        fn drain<T: Ty, C: TreeConfig<T::K, T::V> + 'static>(gen: &mut Gen, m: &mut Mach<T, C>, log: &mut dyn FnMut(&Ev)) -> bool {
            while let Some(mut e) = gen.pending() {
                let free = matches!(e.op(), "idx" | "idxm" | "scan" | "rsum" | "scanm" | "oref" | "omut" | "load");
                m.exec(&mut e);
                crate::tick();
                log(&e);
                if e.int("x") == 1 && !free {
                    return false;
                }
            }
            true
        }
        while done < ops {
            for _ in 0..rng.range(0, 3) {
                gen.any_scene()
            }
            if gen.ids().is_empty() {
                gen.any_scene()
            }
            if !drain(&mut gen, &mut m, log) {
                return;
            }
            let ids = gen.ids();
            if ids.is_empty() {
                continue;
            }
            // everybody gets a clone of one tree, and the tree itself is lent to everybody, or given to one
            let root = *rng.pick(&ids);
            gen.clone_all(root, threads as i64 - rng.below(2));
            if rng.chance(40) {
                gen.hammer(root)
            }
            if !drain(&mut gen, &mut m, log) {
                return;
            }
            let lend = rng.chance(50);
            let mut own: Vec<Vec<(i64, Boxed<T, C>, Map)>> = (0..threads).map(|_| vec![]).collect();
            let mut turn = 0;
            for t in gen.ids() {
                if lend && t == root {
                    continue;
                }
                own[turn % threads].push((t, m.trees.remove(&t).unwrap(), gen.give(t)));
                turn += 1;
            }
            let start = Start { here: AtomicUsize::new(0), n: threads };
            let mail: Mail<T, C> = (0..threads).map(|_| Mutex::new(vec![])).collect();
            let quota = rng.range(10, 60);
            let mut results = vec![];
            std::thread::scope(|s| {
                let mut hs = vec![];
                for (i, own) in own.into_iter().enumerate() {
                    let g = gen.fork(first);
                    first += 1000;
                    let lent = if lend { Some((root, &*m.trees[&root] as *const _, gen.mirror(root))) } else { None };
                    let load = Moved(Load { own, lent, gen: g });
                    let (start, mail) = (&start, &mail);
                    hs.push(s.spawn(move || {
                        let load = load;
                        let Moved(load) = load;
                        Moved(worker::<T, C>(i, load, quota, start, mail))
                    }));
                }
                for h in hs {
                    results.push(h.join().unwrap().0)
                }
            });
            let mut all: Vec<(u64, Ev)> = vec![];
            let mut ok = true;
            for (l, back, fine) in results {
                all.extend(l);
                ok &= fine;
                for (t, b, mirror) in back {
                    m.trees.insert(t, b);
                    gen.adopt(t, mirror)
                }
            }
            for b in mail {
                for Moved((t, b, mirror)) in b.into_inner().unwrap() {
                    m.trees.insert(t, b);
                    gen.adopt(t, mirror)
                }
            }
            all.sort_by_key(|e| e.0);
            for (_, e) in &all {
                log(e);
                done += 1
            }
            if !ok {
                std::mem::forget(m);
                return;
            }
            // not too many copies
            for t in gen.ids() {
                if gen.ids().len() > 4 {
                    gen.drop_one(t)
                }
            }
            gen.take_stock();
            if !drain(&mut gen, &mut m, log) {
                return;
            }
        }
        gen.wind_up();
        drain(&mut gen, &mut m, log);
        m.reset();
    }

    /// A schedule: each call names its thread (th); `gate` n: the call is held at the n-th clone of a
    /// key or value it makes, if it makes that many, until "go" is said to its thread.
    fn schedule(&self, prog: &[Ev], log: &mut dyn FnMut(&Ev)) {
        let mut main = Mach::<T, C>::new(true);
        main.reset();
        let store: Arc<Mutex<Moved<BTreeMap<i64, Boxed<T, C>>>>> = Arc::new(Mutex::new(Moved(BTreeMap::new())));
        enum Report {
            Done(Ev),
            Held,
        }
        let (rtx, rrx) = mpsc::channel::<Report>();
        let mut crew: BTreeMap<i64, (mpsc::Sender<Ev>, Arc<Gate>)> = BTreeMap::new();
        let mut joins = vec![];
        let mut held: BTreeMap<i64, bool> = BTreeMap::new();
        let mut dead = false;
        for e in prog {
            if dead {
                break;
            }
            let th = e.int("th");
            if !crew.contains_key(&th) {
                let (tx, rx) = mpsc::channel::<Ev>();
                let gate = Arc::new(Gate { open: Mutex::new(false), cv: Condvar::new(), hit: AtomicBool::new(false) });
                let (g, rtx, store) = (gate.clone(), rtx.clone(), store.clone());
                joins.push(std::thread::spawn(move || {
                    let mut m = Mach::<T, C>::new(true);
                    for mut e in rx {
                        {
                            let s = &mut store.lock().unwrap().0;
                            for n in ["t", "u"] {
                                if !e.has(n) {
                                    continue;
                                }
                                let t = e.int(n);
                                // rd: the trees that are only read here, by others too perhaps
                                if e.int("rd") & (if n == "t" { 1 } else { 2 }) != 0 {
                                    if let Some(b) = s.get(&t) {
                                        m.borrowed.insert(t, &**b as *const _);
                                    }
                                } else if let Some(b) = s.remove(&t) {
                                    m.trees.insert(t, b);
                                }
                            }
                        }
                        let at = if e.has("gate") { e.int("gate") } else { -1 };
                        let at_cmp = if e.has("gatec") { e.int("gatec") } else { -1 };
                        if at >= 0 || at_cmp >= 0 {
                            let (g2, r2) = (g.clone(), rtx.clone());
                            kit::set_gate(Some(Box::new(move |kind, n| {
                                if n == if kind == 0 { at } else { at_cmp } {
                                    g2.hit.store(true, SeqCst);
                                    let _ = r2.send(Report::Held);
                                    let mut o = g2.open.lock().unwrap();
                                    while !*o {
                                        o = g2.cv.wait(o).unwrap()
                                    }
                                    *o = false;
                                }
                            })));
                        }
                        m.exec(&mut e);
                        kit::set_gate(None);
                        m.borrowed.clear();
                        crate::tick();
                        let s = &mut store.lock().unwrap().0;
                        for (t, b) in std::mem::take(&mut m.trees) {
                            s.insert(t, b);
                        }
                        let _ = rtx.send(Report::Done(e));
                    }
                    std::mem::forget(m);
                }));
                crew.insert(th, (tx, gate));
            }
            let (tx, gate) = &crew[&th];
            if e.op() == "go" {
                if !held.remove(&th).unwrap_or(false) {
                    continue; // it had nothing to be held at
                }
                *gate.open.lock().unwrap() = true;
                gate.cv.notify_all();
            } else {
                let _ = tx.send(e.clone());
            }
            match rrx.recv().unwrap() {
                Report::Held => {
                    held.insert(th, true);
                }
                Report::Done(e) => {
                    let free = matches!(e.op(), "idx" | "idxm" | "scan" | "rsum" | "scanm" | "oref" | "omut" | "load");
                    dead = e.int("x") == 1 && !free;
                    log(&e)
                }
            }
        }
        // let everybody finish
        for th in held.keys() {
            let gate = &crew[th].1;
            *gate.open.lock().unwrap() = true;
            gate.cv.notify_all();
            if let Ok(Report::Done(e)) = rrx.recv() {
                log(&e)
            }
        }
        crew.clear();
        for j in joins {
            let _ = j.join();
        }
        let rest = std::mem::take(&mut store.lock().unwrap().0);
        for (t, b) in rest {
            main.trees.insert(t, b);
        }
        if !dead {
            let ids: Vec<i64> = main.trees.keys().copied().collect();
            for t in ids {
                for mut e in [Ev::new("scan").i("t", t).l("b", vec![0; 4]).i("d", 0).i("m", 0), Ev::new("drop").i("t", t)] {
                    main.exec(&mut e);
                    log(&e);
                }
            }
            let mut e = Ev::new("live");
            main.exec(&mut e);
            log(&e);
        }
        main.reset();
    }
}

struct Gate {
    open: Mutex<bool>,
    cv: Condvar,
    hit: AtomicBool,
}

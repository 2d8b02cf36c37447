//! palmdrive: runs programs of calls against the real palmtree crate and records what came back.
mod alloc;
mod big;
mod ev;
mod gen;
mod kit;
mod kits;
mod mach;
mod threads;

use ev::Ev;
use std::fs::{File, OpenOptions};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

pub const DEBUG: bool = cfg!(debug_assertions);

static TICKS: AtomicU64 = AtomicU64::new(0);
/// Progress: the watchdog calls a call hung when there is none for long.
pub fn tick() {
    TICKS.fetch_add(1, Relaxed);
}
extern "C" {
    fn clock() -> i64;
    fn _exit(code: i32) -> !;
}
fn cpu() -> f64 {
    unsafe { clock() as f64 / 1e6 }
}

pub struct Out {
    f: File,
    cur: File,
}
impl Out {
    fn open(path: &str) -> Out {
        let f = OpenOptions::new().create(true).truncate(false).append(true).open(path).unwrap();
        let cur = OpenOptions::new().create(true).truncate(true).write(true).open(format!("{}.cur", path)).unwrap();
        Out { f, cur }
    }
    /// What is about to be called, in case it never returns.
    fn intend(&mut self, e: &Ev) {
        let mut s = e.json();
        if s.len() > 200 {
            s.truncate(200)
        }
        let _ = self.cur.write_all_at(format!("{:<256}\n", s).as_bytes(), 0);
    }
    fn line(&mut self, e: &Ev) {
        let mut s = e.json();
        s.push('\n');
        self.f.write_all(s.as_bytes()).unwrap();
    }
}

fn watchdog(path: String, limit: f64) {
    std::thread::spawn(move || {
        let mut seen = TICKS.load(Relaxed);
        let mut at = cpu();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let t = TICKS.load(Relaxed);
            if t != seen {
                seen = t;
                at = cpu();
            } else if cpu() - at > limit {
                let mut f = OpenOptions::new().append(true).open(&path).unwrap();
                let _ = f.write_all(b"{\"o\":\"hang\",\"x\":1}\n");
                unsafe { _exit(3) }
            }
        }
    });
}

fn begin(kit: &str, info: &mach::Info, prof: &str, seed: u64) -> Ev {
    Ev::new("begin")
        .i("dbg", DEBUG as i64)
        .i("shared", info.shared as i64)
        .i("part", info.partial as i64)
        .s("kit", kit)
        .s("prof", prof)
        .s("seed", &seed.to_string())
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

/// Calls that may panic, and the program goes on.
fn free(e: &Ev) -> bool {
    matches!(e.op(), "idx" | "idxm" | "scan" | "rsum" | "scanm" | "oref" | "omut" | "load")
        || e.op().starts_with('h') && e.op() != "hclone"
}

fn main() {
    if std::env::var_os("PALM_SHOW_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    let out_path = arg(&args, "--out").unwrap_or_else(|| "/dev/stdout".into());
    let limit: f64 = arg(&args, "--hang").map_or(20.0, |s| s.parse().unwrap());
    match args.get(1).map(|s| &s[..]) {
        Some("kits") => {
            for (n, _) in kits::all() {
                println!("{}", n)
            }
        }
        // Programs made up here: --prof P --seed S --kits a,b,c --events N (--ops per program)
        Some("gen") => {
            let prof = arg(&args, "--prof").unwrap();
            let seed: u64 = arg(&args, "--seed").unwrap().parse().unwrap();
            let events: i64 = arg(&args, "--events").unwrap().parse().unwrap();
            let ops: i64 = arg(&args, "--ops").map_or(300, |s| s.parse().unwrap());
            let large: i64 = arg(&args, "--large").map_or(0, |s| s.parse().unwrap());
            let kits: Vec<String> = arg(&args, "--kits").unwrap().split(',').map(|s| s.to_string()).collect();
            let mut out = Out::open(&out_path);
            watchdog(out_path.clone(), limit);
            let mut rng = gen::Rng(seed);
            let mut done = 0;
            let mut n = 0usize;
            let off = rng.below(1000) as usize;
            while done < events && kit::ledger_used() < 0.9 {
                let name = &kits[(n + off) % kits.len()];
                n += 1;
                let mut m = kits::make(name);
                m.reset();
                let pseed = rng.next();
                let info = m.info();
                out.line(&begin(name, &info, &prof, pseed));
                let len = ops / 2 + rng.below(ops);
                let mut g = gen::Gen::new(&prof, pseed, info, len, large);
                let mut last: Option<Ev> = None;
                while let Some(mut e) = g.next(last.as_ref()) {
                    out.intend(&e);
                    let free = free(&e);
                    m.exec(&mut e);
                    tick();
                    out.line(&e);
                    done += 1;
                    let stop = e.int("x") == 1 && !free;
                    last = Some(e);
                    if stop {
                        break;
                    }
                }
                m.reset();
            }
            // the end marker tells a complete trace from one cut short by the death of this process
            out.line(&Ev::new("end"));
        }
        // Large trees: --seed S --kits a,b --programs N --size M
        Some("big") => {
            let seed: u64 = arg(&args, "--seed").unwrap().parse().unwrap();
            let count: usize = arg(&args, "--programs").unwrap().parse().unwrap();
            let size: i64 = arg(&args, "--size").unwrap().parse().unwrap();
            let style: Option<i64> = arg(&args, "--style").map(|s| s.parse().unwrap());
            let kits: Vec<String> = arg(&args, "--kits").unwrap().split(',').map(|s| s.to_string()).collect();
            let mut out = Out::open(&out_path);
            watchdog(out_path.clone(), limit);
            let mut rng = gen::Rng(seed);
            let off = rng.below(1000) as usize;
            for n in 0..count {
                let name = &kits[(n + off) % kits.len()];
                let mut m = kits::make(name);
                m.reset();
                let info = m.info();
                out.line(&begin(name, &info, "C16", rng.0));
                let size = rng.range(size * 3 / 4, size * 5 / 4);
                for mut e in big::program(&mut rng, size, info.kmax, info.tags, style) {
                    out.intend(&e);
                    let free = free(&e);
                    m.exec(&mut e);
                    tick();
                    out.line(&e);
                    if e.int("x") == 1 && !free {
                        break;
                    }
                }
                m.reset();
            }
            out.line(&Ev::new("end"));
        }
        // Programs of several threads: --seed S --kits a,b --events N --threads T --ops per program
        Some("threads") => {
            let seed: u64 = arg(&args, "--seed").unwrap().parse().unwrap();
            let events: i64 = arg(&args, "--events").unwrap().parse().unwrap();
            let ops: i64 = arg(&args, "--ops").map_or(300, |s| s.parse().unwrap());
            let threads: usize = arg(&args, "--threads").map_or(4, |s| s.parse().unwrap());
            let kits: Vec<String> = arg(&args, "--kits").unwrap().split(',').map(|s| s.to_string()).collect();
            let mut out = Out::open(&out_path);
            watchdog(out_path.clone(), limit);
            let mut rng = gen::Rng(seed);
            let mut done = 0;
            let mut n = rng.below(1000) as usize;
            while done < events && kit::ledger_used() < 0.9 {
                let name = &kits[n % kits.len()];
                n += 1;
                let info = kits::make(name).info();
                out.line(&begin(name, &info, "C12", rng.0));
                let th = 2 + rng.below(threads as i64 - 1) as usize;
                kits::crew(name).random(&mut rng, ops, th, &mut |e| {
                    out.line(e);
                    done += 1
                });
            }
            out.line(&Ev::new("end"));
        }
        // Schedules: programs whose calls name threads and are held and released. --in F [--kit K]
        Some("sched") => {
            let f = BufReader::new(File::open(arg(&args, "--in").unwrap()).unwrap());
            let mut out = Out::open(&out_path);
            let over = arg(&args, "--kit");
            watchdog(out_path.clone(), limit);
            let mut progs: Vec<Vec<Ev>> = vec![];
            for line in f.lines() {
                let line = line.unwrap();
                if line.trim().is_empty() {
                    continue;
                }
                let e = Ev::parse(&line);
                if e.op() == "begin" {
                    progs.push(vec![])
                }
                if !matches!(e.op(), "end" | "crash" | "hang") {
                    progs.last_mut().expect("begin").push(e)
                }
            }
            for p in progs {
                let kit = over.clone().unwrap_or_else(|| p[0].str("kit").to_string());
                let info = kits::make(&kit).info();
                out.line(&begin(&kit, &info, p[0].str("prof"), 0));
                kits::crew(&kit).schedule(&p[1..], &mut |e| out.line(e));
            }
            out.line(&Ev::new("end"));
        }
        // Programs given as calls, one per line, each starting with a begin line naming a kit.
        Some("replay") => {
            let f = BufReader::new(File::open(arg(&args, "--in").unwrap()).unwrap());
            let mut out = Out::open(&out_path);
            let over = arg(&args, "--kit");
            watchdog(out_path.clone(), limit);
            let mut m: Option<Box<dyn mach::Exec>> = None;
            let mut dead = false;
            for line in f.lines() {
                let line = line.unwrap();
                if line.trim().is_empty() {
                    continue;
                }
                let mut e = Ev::parse(&line);
                if e.op() == "begin" {
                    if let Some(mut old) = m.take() {
                        old.reset()
                    }
                    let kit = over.clone().unwrap_or_else(|| e.str("kit").to_string());
                    let mut n = kits::make(&kit);
                    n.reset();
                    let seed = e.str("seed").parse().unwrap_or(0);
                    out.line(&begin(&kit, &n.info(), e.str("prof"), seed));
                    m = Some(n);
                    dead = false;
                    continue;
                }
                if dead || matches!(e.op(), "end" | "crash" | "hang") {
                    continue;
                }
                // a call that is only made if the tree it names (after a panic: what is left of it) is there
                if e.has("if") {
                    let hurt = e.int("if") == 1;
                    let t = e.int("t");
                    e.del("if");
                    if !m.as_ref().expect("begin").holds(hurt, t) {
                        continue;
                    }
                }
                out.intend(&e);
                let free = free(&e);
                m.as_mut().expect("begin").exec(&mut e);
                tick();
                out.line(&e);
                dead = e.int("x") == 1 && !free;
            }
            if let Some(mut m) = m {
                m.reset()
            }
            out.line(&Ev::new("end"));
        }
        _ => {
            eprintln!("usage: palmdrive kits | gen ... | replay ...");
            std::process::exit(2)
        }
    }
}

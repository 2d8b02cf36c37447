//! Programs on large trees, made of bulk steps.
use crate::ev::Ev;
use crate::gen::Rng;

pub fn program(rng: &mut Rng, n: i64, kmax: i64, tags: bool, style: Option<i64>) -> Vec<Ev> {
    let mut q: Vec<Ev> = vec![];
    let p = if n * 3 < kmax { rng.range(1, 3) } else { 1 };
    let n = n.min(kmax / p - 2);
    let span = n * p;
    let mut val = 1;
    let style = style.unwrap_or(rng.below(6));
    match style {
        0 | 9 => q.push(Ev::new("loadn").i("t", 0).i("k", 0).i("p", p).i("n", n).i("v", 0)),
        1 | 2 | 3 => {
            q.push(Ev::new("new").i("t", 0));
            // ascending or descending, now and then by the recursive algorithm
            let m = if style == 1 { 0 } else { 2 } + (rng.chance(20) as i64);
            q.push(Ev::new("insn").i("t", 0).i("k", 0).i("p", p).i("n", n).i("v", 0).i("m", m));
        }
        _ => {
            // several passes, each with a stride: an order that is neither
            q.push(Ev::new("new").i("t", 0));
            let passes = rng.range(3, 7);
            let mut order: Vec<i64> = (0..passes).collect();
            for i in (1..order.len()).rev() {
                let j = rng.below(i as i64 + 1) as usize;
                order.swap(i, j)
            }
            for o in order {
                let m = if rng.chance(50) { 2 } else { 0 };
                q.push(Ev::new("insn").i("t", 0).i("k", o * p).i("p", p * passes).i("n", n / passes).i("v", val).i("m", m));
                val += n / passes;
            }
        }
    }
    let full = vec![0, 0, 0, 0];
    q.push(Ev::new("len").i("t", 0));
    q.push(Ev::new("rsum").i("t", 0).l("b", full.clone()).i("d", 0));
    q.push(Ev::new("rsum").i("t", 0).l("b", full.clone()).i("d", 1));
    let key = |rng: &mut Rng| match rng.below(8) {
        0 => rng.below(50),
        1 => span - rng.below(50),
        _ => rng.below(span + 2),
    }
    .max(0);
    let mut point = |q: &mut Vec<Ev>, rng: &mut Rng| {
        for _ in 0..6 {
            let k = key(rng);
            q.push(Ev::new("gets").i("t", 0).i("k", k).i("n", 6));
            let a = key(rng);
            let w = rng.below(60);
            let (lk, hk) = (rng.range(1, 2), rng.range(1, 2));
            q.push(Ev::new("scan").i("t", 0).l("b", vec![lk, a, hk, a + w + 1]).i("d", rng.below(2)));
        }
        let k = key(rng);
        val += 1;
        let g = if tags { 5 } else { 0 };
        q.push(Ev::new("ins").i("t", 0).i("k", k).i("v", val).i("g", g).i("m", rng.below(2)));
        let k = key(rng);
        q.push(Ev::new("rem").i("t", 0).i("k", k));
        q.push(Ev::new("pop").i("t", 0).i("d", rng.below(2)));
        let k = key(rng);
        q.push(Ev::new("getm").i("t", 0).i("k", k).i("w", 9));
    };
    if style == 9 {
        // loaded, looked at, consumed: what can be afforded on the largest trees
        for _ in 0..4 {
            let k = key(rng);
            q.push(Ev::new("gets").i("t", 0).i("k", k).i("n", 40));
        }
        let a = key(rng);
        q.push(Ev::new("rsum").i("t", 0).l("b", vec![1, a, 0, 0]).i("d", rng.below(2)));
        q.push(Ev::new("osum").i("t", 0).i("d", rng.below(3)));
        q.push(Ev::new("lmem"));
        return q;
    }
    point(&mut q, rng);
    for _ in 0..rng.range(2, 4) {
        match rng.below(6) {
            0 | 1 => {
                // a contiguous part goes
                let a = rng.below(span);
                let len = rng.range(1, (span - a).max(1));
                q.push(Ev::new("remn").i("t", 0).i("k", a).i("p", 1).i("n", len).i("m", 2 * rng.below(2)));
            }
            2 => {
                // every s-th stays
                let s = rng.range(2, 9);
                q.push(Ev::new("remn").i("t", 0).i("k", rng.below(9)).i("p", s).i("n", span / s).i("m", 2 * rng.below(2)));
            }
            3 => q.push(Ev::new("popn").i("t", 0).i("d", rng.below(2)).i("n", rng.range(100, 1500))),
            4 => {
                // the upper or lower part goes
                let a = rng.range(span / 4, span);
                if rng.chance(50) {
                    q.push(Ev::new("remn").i("t", 0).i("k", a).i("p", 1).i("n", span - a + 1).i("m", 2 * rng.below(2)))
                } else {
                    q.push(Ev::new("remn").i("t", 0).i("k", 0).i("p", 1).i("n", a).i("m", 2 * rng.below(2)))
                }
            }
            _ => {
                let a = rng.below(span);
                let len = rng.range(1, (span - a).clamp(1, 100_000));
                q.push(Ev::new("insn").i("t", 0).i("k", a).i("p", 1).i("n", len).i("v", 3).i("m", rng.below(4)));
            }
        }
        point(&mut q, rng);
        q.push(Ev::new("rsum").i("t", 0).l("b", vec![rng.below(3), key(rng), 0, 0]).i("d", rng.below(2)));
        q.push(Ev::new("rsum").i("t", 0).l("b", vec![0, 0, rng.below(3), key(rng)]).i("d", rng.below(2)));
        q.push(Ev::new("len").i("t", 0));
    }
    q.push(Ev::new("rsum").i("t", 0).l("b", full).i("d", 0));
    q.push(Ev::new("osum").i("t", 0).i("d", rng.below(3)));
    q.push(Ev::new("lmem"));
    q
}

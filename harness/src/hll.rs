//! HyperLogLogs: insertions, merges, clears over several sketches.
use crate::util::*;
use crate::{ev, obj};
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::SipHasherBuilder;
use std::hash::{BuildHasher, Hash};

fn obs<T: Hash, B: BuildHasher>(h: &HyperLogLog<T, B>, m: f64) -> Option<Raw> {
    must("query", || {
        let v = h.len();
        let fin = v.is_finite();
        let (f, e) = if fin && v > 0.0 {
            let mut e = v.log2().floor() as i32;
            let mut f = v / 2f64.powi(e);
            if f >= 2.0 {
                f /= 2.0;
                e += 1;
            }
            if f < 1.0 {
                f *= 2.0;
                e -= 1;
            }
            (nano(f), e)
        } else {
            (0, -9999)
        };
        obj! {"bits": bits(v), "f": f, "e": e, "rat": fixed(v / m, 1e8), "fin": fin, "empty": h.is_empty()}
    })
}

/// The number of registers behind an error argument, from the estimate for a single item.
fn probe<T: Hash, B: BuildHasher>(err: f64, hb: B, x: &T) -> Option<(f64, f64)> {
    let one = must("probe", || {
        let mut h = HyperLogLog::<T, B>::with_hasher(err, hb);
        h.insert(x);
        h.len()
    })?;
    let p = (1..=22).find(|p| {
        let m = (1u64 << p) as f64;
        (m * (m / (m - 1.0)).ln() - one).abs() < 2e-8
    });
    Some((one, p.map_or(0.0, |p| (1u64 << p) as f64)))
}

fn drive<T: Hash, B: BuildHasher + Clone + PartialEq + std::fmt::Debug>(r: &mut Rng, run: usize, errs: &[f64], hbs: &[B], keys: &[T], ws: &[u64], nsk: usize, nops: usize, batch: usize) {
    let mut ones = Vec::new();
    let mut ms = Vec::new();
    for e in errs {
        match probe(*e, hbs[0].clone(), &keys[0]) {
            Some((one, m)) => {
                ones.push(nano(one));
                ms.push(m);
            }
            None => return,
        }
    }
    ev! {"ev": "run", "run": run, "ones": ones, "keys": ws.iter().map(|w| W(*w)).collect::<Vec<_>>()};
    let mut sk: Vec<HyperLogLog<T, B>> = Vec::new();
    let mut kind = Vec::new();
    for i in 0..nsk {
        let e = if i < 3 { 0 } else { r.below(errs.len()) };
        let s = if i < 3 { 0 } else { r.below(hbs.len()) };
        let h = match must("construct", || HyperLogLog::with_hasher(errs[e], hbs[s].clone())) {
            Some(h) => h,
            None => return,
        };
        match obs(&h, ms[e]) {
            Some(o) => ev! {"ev": "new", "err": e + 1, "salt": s + 1, "o": o},
            None => return,
        }
        sk.push(h);
        kind.push((e, s));
    }
    for _ in 0..nops {
        let id = r.below(nsk);
        let m = ms[kind[id].0];
        match r.below(20) {
            0 => {
                if must("clear", || sk[id].clear()).is_none() {
                    return;
                }
                match obs(&sk[id], m) {
                    Some(o) => ev! {"ev": "clr", "id": id + 1, "o": o},
                    None => return,
                }
            }
            1..=5 if nsk > 1 => {
                let mut b = r.below(nsk);
                if b == id {
                    b = (b + 1) % nsk;
                }
                let (x, y) = if id < b {
                    let (l, h) = sk.split_at_mut(b);
                    (&mut l[id], &h[0])
                } else {
                    let (l, h) = sk.split_at_mut(id);
                    (&mut h[0], &l[b])
                };
                let ok = guard(|| x.merge(y)).is_ok();
                match obs(&sk[id], m) {
                    Some(o) => ev! {"ev": "mrg", "id": id + 1, "b": b + 1, "ok": ok, "o": o},
                    None => return,
                }
                match obs(&sk[b], ms[kind[b].0]) {
                    Some(o) => ev! {"ev": "ask", "id": b + 1, "o": o},
                    None => return,
                }
            }
            6 => match obs(&sk[id], m) {
                Some(o) => ev! {"ev": "ask", "id": id + 1, "o": o},
                None => return,
            },
            _ => {
                let xs: Vec<usize> = (0..if batch > 1 { r.range(1, batch) } else { 1 }).map(|_| r.below(keys.len())).collect();
                if must("insert", || xs.iter().for_each(|x| sk[id].insert(&keys[*x]))).is_none() {
                    return;
                }
                match obs(&sk[id], m) {
                    Some(o) => ev! {"ev": "ins", "id": id + 1, "xs": xs.iter().map(|x| x + 1).collect::<Vec<_>>(), "o": o},
                    None => return,
                }
            }
        }
    }
}

/// An error argument for which the constructors choose 2^p registers.
fn err_for(p: usize) -> f64 {
    (1.04 / ((p as f64 - 0.5) / 2.0).exp2()).min(0.999)
}

pub fn record(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 8, run as u64);
    let class = r.below(10);
    let (p, n, nops, batch) = match class {
        0..=2 => (r.range(1, 3), r.range(3, 9), 80, 1),
        3 | 4 => (r.range(1, 4), r.range(8, 40), 60, 4),
        5 => (r.range(4, 6), r.range(60, 200), 40, 30),
        6 => (r.range(5, 8), r.range(300, 900), 16, 300),
        7 if r.chance(1, 4) => (r.range(17, 20), r.range(3, 30), 20, 2),
        7 => (r.range(9, 16), r.range(3, 30), 40, 2),
        8 => (*r.pick(&[1usize, 4, 7, 8, 11, 12, 13, 16]), r.range(3, 60), 40, 5),
        _ => (r.range(1, 7), 5, 80, 1),
    };
    let errs = [err_for(p), err_for(if p < 16 { p + 1 } else { p - 1 })];
    let m = 1u64 << p;
    let few = r.range(1, 4) as u64;
    let style = r.below(4);
    let mut ws: Vec<u64> = Vec::new();
    while ws.len() < n {
        let reg = match style {
            0 => r.u64() % few,
            1 => m - 1 - r.u64() % few.min(m),
            _ => r.u64(),
        } % m;
        let top = match r.below(5) {
            0 => r.word(),
            1 => (1u64 << r.below(64)).wrapping_sub(1) | if r.chance(1, 2) { 1u64 << 63 } else { 0 },
            2 => u64::MAX,
            _ => r.u64(),
        };
        let w = (top << p) | reg;
        if !ws.contains(&w) || ws.len() > 500 || r.chance(1, 50) {
            ws.push(w);
        }
    }
    let nsk = if batch > 30 { 2 } else { r.range(2, 5) };
    if class != 9 && r.chance(2, 3) || class == 9 {
        let keys: Vec<Key> = ws.iter().map(|w| Key { a: *w, b: *w }).collect();
        let hbs = [picks(r.u64())[0], picks(r.u64())[0]];
        drive(&mut r, run, &errs, &hbs, &keys, &ws, nsk, nops, batch);
    } else {
        let (k0, k1) = (r.u64(), r.u64());
        let keys: Vec<String> = (0..n).map(|i| format!("{}%{}", r.below(1000), i)).collect();
        let ws: Vec<u64> = keys.iter().map(|k| sip(k0, k1, k)).collect();
        let hbs = [SipHasherBuilder::from_seed(k0, k1)];
        drive(&mut r, run, &errs, &hbs, &keys, &ws, nsk, nops, batch);
    }
}

/// Many items at once: one of the same rank for every register of a chunk, or a single one.
pub fn record_many(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 41, run as u64);
    let p = r.range(9, 18);
    let (err, hb) = (err_for(p), picks(r.u64())[0]);
    let (one, m) = match probe(err, hb, &Key { a: 0, b: 0 }) {
        Some(x) => x,
        None => return,
    };
    let chunks = 1usize << r.range(0, 5);
    let chunk = (1usize << p) / chunks;
    ev! {"ev": "runmany", "run": run, "ones": vec![nano(one)], "chunk": chunk};
    let mut sk: Vec<HyperLogLog<Key, Pick>> = Vec::new();
    let n = r.range(1, 3);
    for _ in 0..n {
        let h = match must("construct", || HyperLogLog::with_hasher(err, hb)) {
            Some(h) => h,
            None => return,
        };
        match obs(&h, m) {
            Some(o) => ev! {"ev": "new", "err": 1, "salt": 1, "o": o},
            None => return,
        }
        sk.push(h);
    }
    // item for register j of rank k
    let salt = r.u64();
    let item = |j: usize, k: usize| {
        let top = ((1u64 << (k - 1)) - 1) | if k < 64 { one_word(3, salt, (j * 64 + k) as u64) << k } else { 0 };
        let a = top << p | j as u64;
        Key { a, b: a }
    };
    let high = if r.chance(1, 3) { 65 - p } else { r.range(2, 8) };
    for _ in 0..if p > 14 { 14 } else { 24 } + chunks {
        let id = r.below(n);
        match r.below(14) {
            0 => {
                if must("clear", || sk[id].clear()).is_none() {
                    return;
                }
                match obs(&sk[id], m) {
                    Some(o) => ev! {"ev": "clr", "id": id + 1, "o": o},
                    None => return,
                }
            }
            1 | 2 if n > 1 => {
                let b = (id + 1) % n;
                let other = sk[b].clone();
                let ok = guard(|| sk[id].merge(&other)).is_ok();
                match obs(&sk[id], m) {
                    Some(o) => ev! {"ev": "mrg", "id": id + 1, "b": b + 1, "ok": ok, "o": o},
                    None => return,
                }
            }
            _ => {
                let mut xs: Vec<Vec<usize>> = Vec::new();
                let some = if r.chance(1, 3) { chunks } else { r.range(0, 2.min(chunks)) };
                let first = r.below(chunks);
                let k = r.range(1, high);
                for c in 0..some {
                    xs.push(vec![0, (first + c) % chunks, if r.chance(1, 4) { r.range(1, high) } else { k }]);
                }
                for _ in 0..r.range(usize::from(xs.is_empty()), 3) {
                    let j = match r.below(3) {
                        0 => r.below(chunks) * chunk,
                        1 => (r.below(chunks) + 1) * chunk - 1,
                        _ => r.below(chunk * chunks),
                    };
                    xs.push(vec![1, j, r.range(1, 65 - p)]);
                }
                let done = must("insert", || {
                    for x in &xs {
                        if x[0] == 1 {
                            sk[id].insert(&item(x[1], x[2]));
                        } else {
                            (x[1] * chunk..(x[1] + 1) * chunk).for_each(|j| sk[id].insert(&item(j, x[2])));
                        }
                    }
                });
                if done.is_none() {
                    return;
                }
                match obs(&sk[id], m) {
                    Some(o) => ev! {"ev": "ins", "id": id + 1, "xs": xs, "o": o},
                    None => return,
                }
            }
        }
    }
}

/// Header: p.  Operations on two sketches: 0 clear, 1 insert an item, 2 merge another one (or a copy of itself).
pub fn replay(run: usize, head: &[i64], ws: &[(u64, u64)], ops: &[Vec<i64>]) {
    let err = err_for(head[0] as usize);
    let keys: Vec<Key> = ws.iter().map(|w| Key { a: w.0, b: w.0 }).collect();
    let hb = picks(0)[0];
    let (one, m) = match probe(err, hb, &keys[0]) {
        Some(x) => x,
        None => return,
    };
    ev! {"ev": "run", "run": run, "ones": vec![nano(one)], "keys": ws.iter().map(|w| W(w.0)).collect::<Vec<_>>()};
    let mut sk: Vec<HyperLogLog<Key, Pick>> = Vec::new();
    for _ in 0..2 {
        let h = match must("construct", || HyperLogLog::with_hasher(err, hb)) {
            Some(h) => h,
            None => return,
        };
        match obs(&h, m) {
            Some(o) => ev! {"ev": "new", "err": 1, "salt": 1, "o": o},
            None => return,
        }
        sk.push(h);
    }
    for op in ops {
        let (id, b) = (op[1] as usize - 1, (op[2] as usize).saturating_sub(1));
        let ok = guard(|| match op[0] {
            0 => sk[id].clear(),
            1 => sk[id].insert(&keys[b]),
            _ => {
                let other = sk[b].clone();
                sk[id].merge(&other)
            }
        })
        .is_ok();
        let o = match obs(&sk[id], m) {
            Some(o) => o,
            None => return,
        };
        match op[0] {
            2 => ev! {"ev": "mrg", "id": id + 1, "b": b + 1, "ok": ok, "o": o},
            _ if !ok => {
                ev! {"ev": "panic", "op": "replay", "msg": "panic"};
                return;
            }
            0 => ev! {"ev": "clr", "id": id + 1, "o": o},
            _ => ev! {"ev": "ins", "id": id + 1, "xs": vec![b + 1], "o": o},
        }
    }
}

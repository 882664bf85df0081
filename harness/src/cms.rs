//! Count-min sketches under the three strategies, side by side.
use crate::bloom::{gen_words, words};
use crate::util::*;
use crate::{ev, obj};
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::SipHasherBuilder;
use std::cell::RefCell;
use std::hash::{BuildHasher, Hash};

thread_local! {
    static TOLD: RefCell<(i64, usize, usize, Vec<i64>)> = RefCell::new((0, 0, 0, Vec::new()));
}
/// A strategy of our own, which tells what it is given.
struct Tell;
impl CountStrategy for Tell {
    fn get_estimate(items: i64, rows: usize, cols: usize, iter: ItemValueIter<'_>) -> i64 {
        let twice = iter.clone();
        let v: Vec<i64> = iter.collect();
        let last = twice.last().unwrap_or(0);
        TOLD.with(|t| *t.borrow_mut() = (items, rows, cols, v));
        last
    }
}

struct Three<T, B> {
    a: CountMinSketch<CountMinStrategy, T, B>,
    b: CountMinSketch<CountMeanStrategy, T, B>,
    c: CountMinSketch<CountMedianBiasStrategy, T, B>,
    d: CountMinSketch<Tell, T, B>,
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Int,
    Scaled(i64, u32),
    Wide,
}

fn small(v: i64) -> i64 {
    if v.abs() < 2_000_000_000 {
        v
    } else {
        2_000_000_001
    }
}
fn unscale(v: i64, k: u32) -> i64 {
    if v % (1i64 << k) == 0 {
        small(v >> k)
    } else {
        2_000_000_002
    }
}

/// What a strategy is given for item x: the net total, the size, the item's counters, the last counter.
fn told<T: Hash, B: BuildHasher>(s: &Three<T, B>, keys: &[T], x: usize, mode: Mode) -> Option<Raw> {
    let last = must("query", || s.d.count(&keys[x]))?;
    let (items, rows, cols, v) = TOLD.with(|t| t.borrow().clone());
    let x = x + 1;
    Some(match mode {
        Mode::Wide => obj! {"x": x, "total": W(items as u64), "rows": rows, "cols": cols, "v": v.iter().map(|n| W(*n as u64)).collect::<Vec<_>>(), "last": W(last as u64)},
        Mode::Int => obj! {"x": x, "total": small(items), "rows": rows, "cols": cols, "v": v.iter().map(|n| small(*n)).collect::<Vec<_>>(), "last": small(last)},
        Mode::Scaled(_, k) => obj! {"x": x, "total": unscale(items, k), "rows": rows, "cols": cols, "v": v.iter().map(|n| unscale(*n, k)).collect::<Vec<_>>(), "last": unscale(last, k)},
    })
}

fn obs<T: Hash, B: BuildHasher>(s: &Three<T, B>, keys: &[T], mode: Mode) -> Option<Raw> {
    let (rows, cols) = (s.a.rows(), s.a.cols());
    if s.b.rows() != rows || s.c.rows() != rows || s.b.cols() != cols || s.c.cols() != cols {
        ev! {"ev": "panic", "op": "shape"};
        return None;
    }
    let bias = |x: &T| if cols > 1 { s.c.count(x) } else { 0 };
    must("query", || match mode {
        Mode::Wide => obj! {"rows": rows, "cols": cols, "min": keys.iter().map(|x| W(s.a.count(x) as u64)).collect::<Vec<_>>(),
            "mean": keys.iter().map(|x| W(s.b.count(x) as u64)).collect::<Vec<_>>(),
            "bias": keys.iter().map(|x| W(bias(x) as u64)).collect::<Vec<_>>()},
        Mode::Int => obj! {"rows": rows, "cols": cols,
            "min": keys.iter().map(|x| small(s.a.count(x))).collect::<Vec<_>>(),
            "mean": keys.iter().map(|x| small(s.b.count(x))).collect::<Vec<_>>(),
            "bias": keys.iter().map(|x| small(bias(x))).collect::<Vec<_>>()},
        Mode::Scaled(_, k) => obj! {"rows": rows, "cols": cols,
            "min": keys.iter().map(|x| unscale(s.a.count(x), k)).collect::<Vec<_>>(),
            "mean": keys.iter().map(|x| unscale(s.b.count(x), k)).collect::<Vec<_>>(),
            "bias": keys.iter().map(|x| unscale(s.c.count(x), k)).collect::<Vec<_>>()},
    })
}

fn drive<T: Hash, B: BuildHasher + Clone>(r: &mut Rng, run: usize, keys: &[T], ws: &[(u64, u64)], rows: usize, cols: usize, err: Option<(f64, f64)>, hb: [B; 2], mode: Mode, nops: usize) {
    ev! {"ev": "run", "run": run};
    let s = must("construct", || match err {
        None => Three {
            a: CountMinSketch::with_hashers(rows, cols, hb.clone()),
            b: CountMinSketch::with_hashers(rows, cols, hb.clone()),
            c: CountMinSketch::with_hashers(rows, cols, hb.clone()),
            d: CountMinSketch::with_hashers(rows, cols, hb.clone()),
        },
        Some((e, d)) => Three {
            a: CountMinSketch::from_error_with_hashers(e, d, hb.clone()),
            b: CountMinSketch::from_error_with_hashers(e, d, hb.clone()),
            c: CountMinSketch::from_error_with_hashers(e, d, hb.clone()),
            d: CountMinSketch::from_error_with_hashers(e, d, hb.clone()),
        },
    });
    let mut s = match s {
        Some(s) => s,
        None => return,
    };
    let (rows, cols) = (s.a.rows(), s.a.cols());
    let name = match mode {
        Mode::Int => "int",
        Mode::Scaled(..) => "scaled",
        Mode::Wide => "wide",
    };
    match obs(&s, keys, mode) {
        Some(o) => ev! {"ev": "new", "mode": name, "keys": words(ws), "o": o},
        None => return,
    }
    let tell = |r: &mut Rng, s: &Three<T, B>| {
        let x = r.below(keys.len());
        told(s, keys, x, mode).map(|t| ev! {"ev": "row", "t": t}).is_some()
    };
    if !tell(r, &s) {
        return;
    }
    let _ = (rows, cols);
    let mut net = vec![0i64; keys.len()];
    let sign = r.below(3); // never negative nets; signed; signed
    let hot = r.range(1, keys.len());
    for _ in 0..nops {
        let x = if r.chance(1, 3) { r.below(keys.len()) } else { r.below(hot) };
        if r.chance(1, 25) {
            if must("clear", || {
                s.a.clear();
                s.b.clear();
                s.c.clear();
                s.d.clear()
            })
            .is_none()
            {
                return;
            }
            net.iter_mut().for_each(|n| *n = 0);
            match obs(&s, keys, mode) {
                Some(o) => ev! {"ev": "clr", "o": o},
                None => return,
            }
            if !tell(r, &s) {
                return;
            }
            continue;
        }
        // logged amount, real amount
        let (v, real): (i64, i64) = match mode {
            Mode::Int => {
                let m = *r.pick(&[0i64, 1, 1, 2, 3, 7, 100, 4001, 1_000_000]);
                let v = if sign > 0 && r.chance(1, 3) { -m } else { m };
                (v, v)
            }
            Mode::Scaled(u, k) => {
                let m = r.below(30) as i64;
                let v = if sign > 0 && r.chance(1, 3) { -m } else { m };
                (v, v * u * (1i64 << k))
            }
            Mode::Wide => {
                let m = (r.word() >> r.range(8, 20)) as i64;
                let v = if sign > 0 && r.chance(1, 3) { -m } else { m };
                (v, v)
            }
        };
        let mut remove = r.chance(1, 3);
        if sign == 0 && remove && net[x] < v {
            remove = false;
        }
        let fits = mode != Mode::Int || net.iter().map(|n| n.abs()).sum::<i64>() + v.abs() < 60_000_000;
        let (v, real) = if fits { (v, real) } else { (1, 1) };
        let ok = must("update", || {
            if remove {
                s.a.remove(&keys[x], real);
                s.b.remove(&keys[x], real);
                s.c.remove(&keys[x], real);
                s.d.remove(&keys[x], real);
            } else {
                s.a.insert(&keys[x], real);
                s.b.insert(&keys[x], real);
                s.c.insert(&keys[x], real);
                s.d.insert(&keys[x], real);
            }
        });
        if ok.is_none() {
            return;
        }
        net[x] += if remove { -v } else { v };
        let o = match obs(&s, keys, mode) {
            Some(o) => o,
            None => return,
        };
        let name = if remove { "rem" } else { "ins" };
        if mode == Mode::Wide {
            ev! {"ev": name, "x": x + 1, "v": W(v as u64), "o": o}
        } else {
            ev! {"ev": name, "x": x + 1, "v": v, "o": o}
        }
        if r.chance(1, 2) && !tell(r, &s) {
            return;
        }
    }
}

pub fn record(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 7, run as u64);
    let salt = r.u64();
    let deep = run % 24 == 7; // many rows
    let mut n = if deep { r.range(1, 4) } else { r.range(2, 14) };
    let (mut rows, mut cols) = match r.below(5) {
        0 => (r.range(1, 4), r.range(1, 4)),
        1 | 2 => (r.range(1, 8), r.range(2, 12)),
        3 => (r.range(3, 24), r.range(2, 40)),
        _ => (r.range(1, 6), *r.pick(&[64, 255, 256, 1000, 65536, 65537, 1 << 20, 3_000_000])),
    };
    if deep {
        rows = *r.pick(&[33, 65, 129, 200, 257, 300, 520, 1030]);
        if rows > 400 {
            n = 1 + n % 2;
        }
        cols = r.range(2, 300);
    }
    let mut err = None;
    if !deep && r.chance(1, 6) {
        let e = *r.pick(&[0.9, 0.5, 0.1, 0.05]);
        let d = *r.pick(&[0.5, 0.1, 0.05, 0.001]);
        err = Some((e, d));
        rows = (1.0f64 / d).ln().ceil() as usize;
        cols = (1.0f64.exp() / e).ceil() as usize;
    }
    let mode = match r.below(5) {
        2 | 3 if deep => Mode::Wide,
        0 | 1 => Mode::Int,
        2 | 3 => {
            if cols < 2 {
                cols = 2;
                err = None;
            }
            cols = cols.min(1000);
            rows = rows.min(12);
            if err.is_some() && (cols > 1000 || rows > 12) {
                err = None;
            }
            // sums of up to 100 amounts of up to 30 units in up to 12 rows stay below 2^62
            let u = (rows * (cols - 1)) as i64;
            let room = (u * 36_000).leading_zeros() - 2;
            Mode::Scaled(u, r.range(0, room as usize) as u32)
        }
        _ => Mode::Wide,
    };
    let nops = if rows > 400 { 6 } else if deep { 15 } else { 60 };
    if r.chance(3, 4) {
        let ws = gen_words(&mut r, n);
        let keys: Vec<Key> = ws.iter().map(|(a, b)| Key { a: *a, b: *b }).collect();
        drive(&mut r, run, &keys, &ws, rows, cols, err, picks(salt), mode, nops);
    } else {
        let s: Vec<u64> = (0..4).map(|_| r.u64()).collect();
        let keys: Vec<String> = (0..n).map(|i| format!("{}@{}", r.below(100), i)).collect();
        let ws: Vec<(u64, u64)> = keys.iter().map(|k| (sip(s[0], s[1], k), sip(s[2], s[3], k))).collect();
        let hb = [SipHasherBuilder::from_seed(s[0], s[1]), SipHasherBuilder::from_seed(s[2], s[3])];
        drive(&mut r, run, &keys, &ws, rows, cols, err, hb, mode, nops);
    }
}

/// Header: rows, columns.  Operations: item (0 clears) and amount, taken in by insertion or by removal in turn.
pub fn replay(run: usize, head: &[i64], ws: &[(u64, u64)], ops: &[Vec<i64>]) {
    ev! {"ev": "run", "run": run};
    let (rows, cols) = (head[0] as usize, head[1] as usize);
    let keys: Vec<Key> = ws.iter().map(|w| Key { a: w.0, b: w.1 }).collect();
    let hb = picks(0);
    let s = must("construct", || Three {
        a: CountMinSketch::with_hashers(rows, cols, hb),
        b: CountMinSketch::with_hashers(rows, cols, hb),
        c: CountMinSketch::with_hashers(rows, cols, hb),
        d: CountMinSketch::with_hashers(rows, cols, hb),
    });
    let mut s: Three<Key, Pick> = match s {
        Some(s) => s,
        None => return,
    };
    match obs(&s, &keys, Mode::Int) {
        Some(o) => ev! {"ev": "new", "mode": "int", "keys": words(ws), "o": o},
        None => return,
    }
    for (i, op) in ops.iter().enumerate() {
        let remove = i % 2 == 1;
        let v = if remove { -op[1] } else { op[1] };
        let done = must("update", || {
            if op[0] == 0 {
                s.a.clear();
                s.b.clear();
                s.c.clear();
                s.d.clear();
                return;
            }
            let x = &keys[op[0] as usize - 1];
            if remove {
                s.a.remove(x, v);
                s.b.remove(x, v);
                s.c.remove(x, v);
                s.d.remove(x, v);
            } else {
                s.a.insert(x, v);
                s.b.insert(x, v);
                s.c.insert(x, v);
                s.d.insert(x, v);
            }
        });
        let o = match done.and_then(|_| obs(&s, &keys, Mode::Int)) {
            Some(o) => o,
            None => return,
        };
        if op[0] == 0 {
            ev! {"ev": "clr", "o": o};
        } else {
            ev! {"ev": if remove { "rem" } else { "ins" }, "x": op[0], "v": v, "o": o};
        }
        if i % 8 == 0 {
            match told(&s, &keys, i / 8 % keys.len(), Mode::Int) {
                Some(t) => ev! {"ev": "row", "t": t},
                None => return,
            }
        }
    }
}

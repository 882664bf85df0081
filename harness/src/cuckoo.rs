//! Cuckoo filters and scalable cuckoo filters.
use crate::bloom::{gen_words, rep};
use crate::util::*;
use crate::{ev, obj};
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::verif_hooks::set_entropy;
use probabilistic_collections::SipHasherBuilder;
use std::hash::{BuildHasher, Hash};

/// The hash values a fingerprint class is made of, for one item and fingerprint width.
pub struct Hashes<'a> {
    pub h0: u64,
    pub h1: u64,
    pub re0: &'a dyn Fn(u64) -> u64,
    pub re1: &'a dyn Fn(u64) -> u64,
}
pub fn key_json(h: &Hashes, fb: usize) -> Raw {
    let sh = 64 - fb.clamp(1, 64);
    let mut chain = vec![h.h0];
    while chain.last().unwrap() << sh >> sh == 0 && chain.len() < 500 {
        let x = (h.re0)(chain.last().unwrap().wrapping_add(1));
        chain.push(x);
    }
    let hf = (h.re1)(chain.last().unwrap() << sh >> sh);
    obj! {"chain": chain.into_iter().map(W).collect::<Vec<_>>(), "h1": W(h.h1), "hf": W(hf)}
}

fn obs<T: Hash, B: BuildHasher>(f: &CuckooFilter<T, B>, keys: &[T]) -> Option<Raw> {
    must("query", || {
        obj! {"len": f.len(), "extra": f.extra_items_len(), "nf": f.is_nearly_full(), "empty": f.is_empty(), "cap": f.capacity(),
        "bl": f.bucket_len(), "e": f.entries_per_index(), "fb": f.fingerprint_bit_count(), "fpp": nano(f.estimated_fpp()),
        "rep": rep(keys, |x| f.contains(x))}
    })
}

/// Operations: positive = insert that key, negative = remove it, 0 = clear.
fn run_ops<T: Hash, B: BuildHasher>(run: usize, keys: &[T], hs: &[Hashes], kicks: u64, mk: &dyn Fn() -> CuckooFilter<T, B>, ops: &mut dyn FnMut(usize) -> Option<i64>)
where
    CuckooFilter<T, B>: Wire,
{
    ev! {"ev": "run", "run": run};
    let mut f = match must("construct", mk) {
        Some(f) => f,
        None => return,
    };
    if kicks > 0 {
        f = with_kicks(f, kicks);
    }
    let fb = match must("query", || f.fingerprint_bit_count()) {
        Some(x) => x,
        None => return,
    };
    let ks: Vec<Raw> = hs.iter().map(|h| key_json(h, fb)).collect();
    match obs(&f, keys) {
        Some(o) => ev! {"ev": "new", "keys": ks, "o": o},
        None => return,
    }
    let mut len = 0;
    while let Some(op) = ops(len) {
        let x = op.unsigned_abs() as usize;
        f = match must("round trip", || swapped(f)) {
            Some(f) => f,
            None => return,
        };
        let ok = must("update", || match op {
            0 => f.clear(),
            o if o > 0 => f.insert(&keys[x - 1]),
            _ => f.remove(&keys[x - 1]),
        });
        if ok.is_none() {
            return;
        }
        let o = match obs(&f, keys) {
            Some(o) => o,
            None => return,
        };
        len = f.len() + f.extra_items_len();
        match op {
            0 => ev! {"ev": "clr", "o": o},
            p if p > 0 => ev! {"ev": "ins", "x": x, "o": o},
            _ => ev! {"ev": "rem", "x": x, "o": o},
        }
    }
}

/// Random operations around a fill level: grows to the target, then churns.
pub fn churn(r: &mut Rng, n: usize, nops: usize) -> impl FnMut(usize) -> Option<i64> {
    let mut left = nops;
    let mut r = Rng::new(r.u64(), 0, 0);
    let style = r.below(4);
    let clear = *r.pick(&[20usize, 60, 1_000_000, 1_000_000]);
    let mut phase = true;
    let hot = r.range(1, n);
    move |_| {
        if left == 0 {
            return None;
        }
        left -= 1;
        if r.chance(1, clear) {
            return Some(0);
        }
        if r.chance(1, 25) {
            phase = !phase;
        }
        let del = match style {
            0 => 1,
            1 => 4,
            2 => {
                if phase {
                    1
                } else {
                    7
                }
            }
            _ => 2,
        };
        let x = if r.chance(2, 3) { r.range(1, n) } else { r.range(1, hot) } as i64;
        Some(if r.chance(del, 10) { -x } else { x })
    }
}

/// Without a number of operations: all items at first.
fn filled(r: &mut Rng, n: usize, nops: usize) -> impl FnMut(usize) -> Option<i64> {
    let mut first = if nops == 0 { n as i64 } else { 0 };
    let mut rest = churn(r, n, if nops == 0 { n } else { nops });
    move |k| {
        if first > 0 {
            first -= 1;
            return Some(first + 1);
        }
        rest(k)
    }
}

#[derive(Clone, Copy, Debug)]
enum Shape {
    Items(usize),
    Par(usize, usize, usize),
    Entries(usize, f64, usize),
    Bits(usize, f64, usize),
}
fn mk<T, B: BuildHasher>(s: Shape, hb: [B; 2]) -> CuckooFilter<T, B> {
    match s {
        Shape::Items(n) => CuckooFilter::with_hashers(n, hb),
        Shape::Par(n, fb, e) => CuckooFilter::from_parameters_with_hashers(n, fb, e, hb),
        Shape::Entries(n, p, e) => CuckooFilter::from_entries_per_index_with_hashers(n, p, e, hb),
        Shape::Bits(n, p, fb) => CuckooFilter::from_fingerprint_bit_count_with_hashers(n, p, fb, hb),
    }
}

pub fn record(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 3, run as u64);
    set_entropy(r.u64());
    let (shape, n, nops) = match r.below(12) {
        0..=4 => {
            // tiny: the placement is tracked
            let e = r.range(1, 2);
            let bl = *r.pick(&[1usize, 2, 2, 4]);
            (Shape::Par(bl * e, *r.pick(&[1, 2, 3, 4, 8, 63, 64]), e), r.range(3, 8), 60)
        }
        5..=7 => {
            let e = r.range(1, 5);
            let bl = *r.pick(&[1usize, 2, 4, 8]);
            let cap = bl * e;
            (Shape::Par(cap, *r.pick(&[2, 4, 7, 8, 9, 13, 16, 31, 32, 33, 62, 63, 64]), e), cap + r.range(1, 10), 120)
        }
        8 if r.chance(1, 2) => {
            // buckets of many entries
            let e = *r.pick(&[9usize, 12, 17, 20, 33, 64]);
            let bl = if e < 30 { *r.pick(&[1usize, 2, 4]) } else { 1 };
            (Shape::Par(bl * e, *r.pick(&[7, 12, 16, 33, 64]), e), bl * e + r.range(1, 6), 0)
        }
        8 => (Shape::Items(r.range(1, 60)), r.range(20, 90), 150),
        9 => (Shape::Entries(r.range(1, 60), *r.pick(&[0.5, 0.1, 0.01, 1e-6, 1e-18]), r.range(1, 8)), r.range(20, 80), 150),
        10 if r.chance(1, 2) => {
            // many buckets (512 of them would read as the displacement limit of the serialized form)
            let e = r.range(1, 4);
            let bl = *r.pick(&[64usize, 128, 256, 1024, 4096, 65536]);
            (Shape::Par(bl * e, *r.pick(&[8, 13, 16, 17, 32, 64]), e), r.range(20, 60), 100)
        }
        10 => (Shape::Bits(r.range(1, 60), *r.pick(&[0.3, 0.1, 0.05]), r.range(6, 9)), r.range(20, 80), 150),
        _ => {
            let e = r.range(1, 4);
            let bl = *r.pick(&[16usize, 32]);
            (Shape::Par(bl * e, *r.pick(&[5, 8, 12, 17]), e), bl * e + 20, 400)
        }
    };
    let kicks = if r.chance(1, 2) { r.range(1, 6) as u64 } else { 0 };
    if r.chance(3, 4) {
        let mut ws = if r.chance(1, 2) { (0..n).map(|_| (r.u64(), r.u64())).collect() } else { gen_words(&mut r, n) };
        let low = r.chance(1, 3);
        for w in ws.iter_mut() {
            // short fingerprints and few buckets: equivalent items, all-zero fingerprints
            if low && r.chance(1, 2) {
                w.0 &= 0x7;
            }
            if low && r.chance(1, 3) {
                w.1 &= 0x3;
            }
        }
        let salt = r.u64();
        let keys: Vec<Key> = ws.iter().map(|w| Key { a: w.0, b: w.1 }).collect();
        let (re0, re1) = (|x| one_word(0, salt, x), |x| one_word(1, salt, x));
        let hs: Vec<Hashes> = ws.iter().map(|w| Hashes { h0: w.0, h1: w.1, re0: &re0, re1: &re1 }).collect();
        run_ops(run, &keys, &hs, kicks, &|| mk(shape, picks(salt)), &mut filled(&mut r, n, nops));
    } else {
        let k = [r.u64(), r.u64(), r.u64(), r.u64()];
        let keys: Vec<String> = (0..n).map(|i| format!("{}.{}", r.below(100), i)).collect();
        let (re0, re1) = (|x: u64| sip(k[0], k[1], &x), |x: u64| sip(k[2], k[3], &x));
        let hs: Vec<Hashes> = keys.iter().map(|s| Hashes { h0: sip(k[0], k[1], s), h1: sip(k[2], k[3], s), re0: &re0, re1: &re1 }).collect();
        let hb = [SipHasherBuilder::from_seed(k[0], k[1]), SipHasherBuilder::from_seed(k[2], k[3])];
        run_ops(run, &keys, &hs, kicks, &|| mk(shape, hb), &mut filled(&mut r, n, nops));
    }
}

/// Header: items, fingerprint bits, entries, salt, entropy; the keys' two hash values; operations as above.
pub fn replay(run: usize, header: &[i64], ws: &[(u64, u64)], ops: &[Vec<i64>]) {
    set_entropy(header[4] as u64);
    let salt = header[3] as u64;
    let keys: Vec<Key> = ws.iter().map(|w| Key { a: w.0, b: w.1 }).collect();
    let (re0, re1) = (|x| one_word(0, salt, x), |x| one_word(1, salt, x));
    let hs: Vec<Hashes> = ws.iter().map(|w| Hashes { h0: w.0, h1: w.1, re0: &re0, re1: &re1 }).collect();
    let shape = Shape::Par(header[0] as usize, header[1] as usize, header[2] as usize);
    let mut it = ops.iter();
    run_ops(run, &keys, &hs, 0, &|| mk(shape, picks(salt)), &mut |_| it.next().map(|o| o[0]));
}

// ---------------------------------------------------------------- scalable
fn sobs<T: Hash, B: BuildHasher + Clone + Copy>(f: &mut ScalableCuckooFilter<T, B>, keys: &[T]) -> Option<Raw> {
    must("query", || {
        let rep: Vec<usize> = (0..keys.len()).filter(|i| f.contains(&keys[*i])).map(|i| i + 1).collect();
        obj! {"len": f.len(), "empty": f.is_empty(), "cap": f.capacity(), "e": f.entries_per_index(), "fc": f.filter_count(),
        "fpp": nano(f.estimated_fpp()), "rep": rep}
    })
}
fn run_scalable<T: Hash, B: BuildHasher + Clone + Copy>(
    r: &mut Rng, run: usize, keys: &[T], hs: &[Hashes], hb: [B; 2], items: usize, fpp: f64, e: usize, g: (usize, usize), tight: f64,
) where
    ScalableCuckooFilter<T, B>: Wire,
{
    ev! {"ev": "run", "run": run};
    let growth = g.0 as f64 / g.1 as f64;
    let mut tab = Vec::new();
    let mut n = items;
    let ok = must("construct", || {
        for i in 0..13 {
            let f = CuckooFilter::<T, B>::from_entries_per_index_with_hashers(n, fpp * tight.powi(i), e, hb);
            let (bl, fb, cap) = (f.bucket_len(), f.fingerprint_bit_count(), f.capacity());
            tab.push(obj! {"items": n, "bl": bl, "fb": fb, "keys": hs.iter().map(|h| key_json(h, fb)).collect::<Vec<_>>()});
            n = (cap * g.0 + g.1 - 1) / g.1;
            if n > 20_000 {
                break;
            }
        }
    });
    if ok.is_none() {
        return;
    }
    let stages = tab.len();
    let f = must("construct", || {
        if e == 4 && r.chance(1, 2) {
            ScalableCuckooFilter::<T, B>::with_hashers(items, fpp, growth, tight, hb)
        } else {
            ScalableCuckooFilter::<T, B>::from_entries_per_index_with_hashers(items, fpp, e, growth, tight, hb)
        }
    });
    let mut f = match f {
        Some(f) => f,
        None => return,
    };
    match sobs(&mut f, keys) {
        Some(o) => ev! {"ev": "new", "items": items, "e": e, "gp": g.0, "gq": g.1, "tab": tab, "o": o},
        None => return,
    }
    let mut ops = churn(r, keys.len(), 130);
    while let Some(op) = ops(0) {
        let x = op.unsigned_abs() as usize;
        f = match must("round trip", || swapped(f)) {
            Some(f) => f,
            None => return,
        };
        let ok = must("update", || match op {
            0 => f.clear(),
            o if o > 0 => f.insert(&keys[x - 1]),
            _ => f.remove(&keys[x - 1]),
        });
        if ok.is_none() {
            return;
        }
        let o = match sobs(&mut f, keys) {
            Some(o) => o,
            None => return,
        };
        match op {
            0 => ev! {"ev": "clr", "o": o},
            p if p > 0 => ev! {"ev": "ins", "x": x, "o": o},
            _ => ev! {"ev": "rem", "x": x, "o": o},
        }
        if f.filter_count() + 1 >= stages {
            return;
        }
    }
}
pub fn record_scalable(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 4, run as u64);
    set_entropy(r.u64());
    let e = *r.pick(&[1usize, 1, 2, 3, 4, 4]);
    let (items, g) = match r.below(4) {
        0 => (r.range(1, 4), *r.pick(&[(1usize, 1usize), (2, 1), (3, 2)])),
        1 => (r.range(1, 12), *r.pick(&[(2, 1), (1, 1), (3, 1)])),
        2 => (r.range(4, 20), *r.pick(&[(1, 1), (3, 2), (5, 4)])),
        _ => (r.range(1, 3), *r.pick(&[(2, 1), (1, 2), (3, 1)])),
    };
    let fpp = *r.pick(&[0.5, 0.3, 0.1, 0.01, 1e-4]);
    let tight = *r.pick(&[0.5, 0.9, 0.1, 1.0]);
    let n = r.range(6, 50);
    if r.chance(3, 4) {
        let ws = if r.chance(1, 2) { (0..n).map(|_| (r.u64(), r.u64())).collect() } else { gen_words(&mut r, n) };
        let salt = r.u64();
        let keys: Vec<Key> = ws.iter().map(|w| Key { a: w.0, b: w.1 }).collect();
        let (re0, re1) = (|x| one_word(0, salt, x), |x| one_word(1, salt, x));
        let hs: Vec<Hashes> = ws.iter().map(|w| Hashes { h0: w.0, h1: w.1, re0: &re0, re1: &re1 }).collect();
        run_scalable(&mut r, run, &keys, &hs, picks(salt), items, fpp, e, g, tight);
    } else {
        let k = [r.u64(), r.u64(), r.u64(), r.u64()];
        let keys: Vec<String> = (0..n).map(|i| format!("{}.{}", r.below(100), i)).collect();
        let (re0, re1) = (|x: u64| sip(k[0], k[1], &x), |x: u64| sip(k[2], k[3], &x));
        let hs: Vec<Hashes> = keys.iter().map(|s| Hashes { h0: sip(k[0], k[1], s), h1: sip(k[2], k[3], s), re0: &re0, re1: &re1 }).collect();
        let hb = [SipHasherBuilder::from_seed(k[0], k[1]), SipHasherBuilder::from_seed(k[2], k[3])];
        run_scalable(&mut r, run, &keys, &hs, hb, items, fpp, e, g, tight);
    }
}

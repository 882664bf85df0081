//! Plain, partitioned and scalable Bloom filters.
use crate::util::*;
use crate::{ev, obj};
use probabilistic_collections::bloom::*;
use probabilistic_collections::SipHasherBuilder;
use std::hash::{BuildHasher, Hash};

pub trait Filter<T> {
    fn ins(&mut self, x: &T);
    fn has(&self, x: &T) -> bool;
    fn clr(&mut self);
    fn o(&self) -> (usize, usize, usize, bool, usize, usize, f64); // len ones zeros empty k w fpp
    fn same(&self, _o: &Self) -> Option<bool> {
        None
    }
}
impl<T: Hash + PartialEq, B: BuildHasher + PartialEq> Filter<T> for BloomFilter<T, B> {
    fn ins(&mut self, x: &T) {
        self.insert(x)
    }
    fn has(&self, x: &T) -> bool {
        self.contains(x)
    }
    fn clr(&mut self) {
        self.clear()
    }
    fn o(&self) -> (usize, usize, usize, bool, usize, usize, f64) {
        (self.len(), self.count_ones(), self.count_zeros(), self.is_empty(), self.hasher_count(), 0, self.estimated_fpp())
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
}
impl<T: Hash, B: BuildHasher> Filter<T> for PartitionedBloomFilter<T, B> {
    fn ins(&mut self, x: &T) {
        self.insert(x)
    }
    fn has(&self, x: &T) -> bool {
        self.contains(x)
    }
    fn clr(&mut self) {
        self.clear()
    }
    fn o(&self) -> (usize, usize, usize, bool, usize, usize, f64) {
        (
            self.len(),
            self.count_ones(),
            self.count_zeros(),
            self.is_empty(),
            self.hasher_count(),
            self.bit_count(),
            self.estimated_fpp(),
        )
    }
}

pub fn rep<T>(keys: &[T], f: impl Fn(&T) -> bool) -> Vec<usize> {
    (0..keys.len()).filter(|i| f(&keys[*i])).map(|i| i + 1).collect()
}
pub fn words(ws: &[(u64, u64)]) -> Vec<(W, W)> {
    ws.iter().map(|(a, b)| (W(*a), W(*b))).collect()
}
/// Random base hashes: extremes, shared second hashes, residues that collide on purpose.
pub fn gen_words(r: &mut Rng, n: usize) -> Vec<(u64, u64)> {
    let mut v: Vec<(u64, u64)> = Vec::new();
    let style = r.below(4);
    while v.len() < n {
        let w = match style {
            0 => (r.below(40) as u64, r.below(6) as u64),
            1 => (r.word(), r.word()),
            2 => (r.u64(), r.u64()),
            _ => {
                if !v.is_empty() && r.chance(1, 3) {
                    let p = *r.pick(&v);
                    if r.chance(1, 2) {
                        (p.0, r.word())
                    } else {
                        (r.word(), p.1)
                    }
                } else {
                    (r.word(), r.u64())
                }
            }
        };
        if !v.contains(&w) {
            v.push(w)
        }
    }
    v
}

/// Items whose first `c` probes (or all from the next one on, up to the second wrap) are those of `x` modulo `w`.
fn twins(r: &mut Rng, w: u64, k: usize) -> Vec<(u64, u64)> {
    let x = (r.below(1 << 20) as u64, r.below(1 << 20) as u64);
    // the cubic term stays small for a few thousand probes
    let d = |c: u64| ((1u128 << 64) / (2 * c as u128 + 1) * 2) as u64 / w * w;
    let wrap = ((1u128 << 64) % w as u128) as u64;
    let (c1, c2) = (r.range(1, k) as u64, r.range(k / 2 + 1, k) as u64);
    let mut v = vec![x, (x.0, x.1 + d(c1)), (x.0 + wrap, x.1 + d(c2)), (x.0, x.1 + d(k as u64 - 1))];
    if r.chance(1, 2) {
        v.push((x.0, x.1 + d(r.range(1, k) as u64)));
    }
    v
}

fn obs<T, F: Filter<T>>(f: &F, keys: &[T]) -> Option<Raw> {
    must("query", || {
        let (len, ones, zeros, empty, k, w, fpp) = f.o();
        obj! {"len": len, "ones": ones, "zeros": zeros, "empty": empty, "k": k, "w": w,
        "fpp": nano(fpp), "rep": rep(keys, |x| f.has(x))}
    })
}

fn drive<T, F: Filter<T>>(r: &mut Rng, run: usize, kind: &str, hk: &str, keys: &[T], ws: &[(u64, u64)], ninst: usize, mk: &dyn Fn(usize) -> (F, usize), nops: usize) {
    ev! {"ev": "run", "run": run, "kind": kind, "hk": hk, "keys": words(ws)};
    let mut fs: Vec<F> = Vec::new();
    for id in 0..ninst {
        let (f, hb) = match must("construct", || mk(id)) {
            Some(f) => f,
            None => return,
        };
        let o = match obs(&f, keys) {
            Some(o) => o,
            None => return,
        };
        ev! {"ev": "new", "id": id, "hb": hb, "o": o};
        fs.push(f);
    }
    for _ in 0..nops {
        let id = r.below(ninst);
        let what = r.below(24);
        if what == 0 {
            if must("clear", || fs[id].clr()).is_none() {
                return;
            }
            let o = match obs(&fs[id], keys) {
                Some(o) => o,
                None => return,
            };
            ev! {"ev": "clr", "id": id, "o": o};
        } else if what <= 3 && ninst > 1 {
            let b = r.below(ninst);
            match must("eq", || fs[id].same(&fs[b])) {
                None => return,
                Some(None) => {}
                Some(Some(e)) => ev! {"ev": "eq", "id": id, "b": b, "r": e},
            }
        } else {
            let x = r.below(keys.len());
            if must("insert", || fs[id].ins(&keys[x])).is_none() {
                return;
            }
            let o = match obs(&fs[id], keys) {
                Some(o) => o,
                None => return,
            };
            ev! {"ev": "ins", "id": id, "x": x + 1, "o": o};
        }
    }
}

fn bulk<F: Filter<u64>>(r: &mut Rng, run: usize, kind: &str, mk: &dyn Fn() -> F, n: usize) {
    let base = r.u64() >> 8;
    let mut f = match must("construct", mk) {
        Some(f) => f,
        None => return,
    };
    let stride = 1 + r.below(3) as u64;
    for i in 0..n as u64 {
        if must("insert", || f.ins(&(base + i * stride))).is_none() {
            return;
        }
    }
    let r1 = must("query", || {
        let miss = (0..n as u64).filter(|i| !f.has(&(base + i * stride))).count();
        (miss, f.o())
    });
    let (miss, (len, ones, zeros, _, k, _, _)) = match r1 {
        Some(x) => x,
        None => return,
    };
    for i in 0..n as u64 {
        if must("insert", || f.ins(&(base + (n as u64 - 1 - i) * stride))).is_none() {
            return;
        }
    }
    let ones2 = must("query", || f.o().1).unwrap_or(0);
    let after = must("clear", || {
        f.clr();
        ((0..n as u64).filter(|i| f.has(&(base + i * stride))).count(), f.o().1)
    });
    if let Some((a, o)) = after {
        ev! {"ev": "bulk", "run": run, "kind": kind, "n": n, "miss": miss, "len": len, "ones": ones, "zeros": zeros,
        "k": k, "ones2": ones2, "after": a, "ones3": o};
    }
}

pub fn items_for(bits: usize, k: usize) -> usize {
    ((bits as f64 * 2f64.ln() / (k as f64 - 0.5).max(0.4)).round() as usize).max(1)
}

#[derive(Clone, Copy, Debug)]
enum Shape {
    ItemCount(usize, usize),
    Fpp(usize, f64),
    New(usize, f64),
    PartBits(usize, f64),
    PartItems(usize, f64),
}
fn mk_bloom<T, B: BuildHasher>(s: Shape, hb: [B; 2]) -> BloomFilter<T, B> {
    match s {
        Shape::ItemCount(b, n) => BloomFilter::from_item_count_with_hashers(b, n, hb),
        Shape::Fpp(b, p) => BloomFilter::from_fpp_with_hashers(b, p, hb),
        Shape::New(n, p) => BloomFilter::with_hashers(n, p, hb),
        _ => unreachable!(),
    }
}
fn mk_part<T, B: BuildHasher>(s: Shape, hb: [B; 2]) -> PartitionedBloomFilter<T, B> {
    match s {
        Shape::PartBits(w, p) => PartitionedBloomFilter::from_bit_count_with_hashers(w, p, hb),
        Shape::PartItems(n, p) => PartitionedBloomFilter::from_item_count_with_hashers(n, p, hb),
        _ => unreachable!(),
    }
}

pub fn record(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 1, run as u64);
    let class = r.below(20);
    let bl = r.chance(3, 5);
    let p = *r.pick(&[0.5, 0.3, 0.1, 0.05, 0.01, 0.001]);
    let (shape, n, nops) = match (class, bl) {
        (0..=7, true) => {
            let b = r.range(1, 24);
            let k = r.range(1, 6);
            (Shape::ItemCount(b, items_for(b, k)), r.range(4, 14), 40)
        }
        (0..=7, false) => (Shape::PartBits(r.range(1, 12), 0.5f64.powi(r.range(1, 6) as i32)), r.range(4, 14), 40),
        (8..=12, true) => {
            let b = r.range(20, 400);
            (if r.chance(1, 2) { Shape::Fpp(b, p) } else { Shape::New(r.range(1, 40), p) }, r.range(8, 24), 40)
        }
        (8..=12, false) => {
            (if r.chance(1, 2) { Shape::PartBits(r.range(8, 100), p) } else { Shape::PartItems(r.range(1, 40), p) }, r.range(8, 24), 40)
        }
        (13..=15, true) => {
            let b = *r.pick(&[255usize, 256, 257, 511, 4095, 4096, 32768, 65535, 65536, 65537, 131072, 1 << 20, (1 << 22) + 1]);
            let k = r.range(1, 9);
            (Shape::ItemCount(b, items_for(b, k)), r.range(8, 16), 24)
        }
        (13..=15, false) => (
            Shape::PartBits(*r.pick(&[63usize, 64, 65, 255, 256, 257, 4096, 65535, 65536, 65537, 300_000]), 0.5f64.powi(r.range(1, 12) as i32)),
            r.range(8, 16),
            24,
        ),
        (16..=17, true) => {
            let b = if r.chance(1, 6) { r.range(1400, 6000) } else { r.range(400, 1400) };
            (Shape::ItemCount(b, r.range(1, 3)), 4, 10)
        }
        (16..=17, false) => {
            let (w, k) = if r.chance(1, 2) { (r.range(2, 6), r.range(200, 900)) } else { (r.range(1, 300), r.range(20, 200)) };
            (Shape::PartBits(w, 0.5f64.powi(k as i32)), if w < 7 { 9 } else { 4 }, 10)
        }
        (_, true) => {
            // bulk
            let n = r.range(2000, 12000);
            let s = if r.chance(1, 2) { Shape::New(n, p) } else { Shape::ItemCount(n * r.range(2, 20), n) };
            let (k0, k1) = (r.u64(), r.u64());
            let hb = [SipHasherBuilder::from_seed(k0, k1), SipHasherBuilder::from_seed(k1, k0)];
            bulk(&mut r, run, "bloom", &|| mk_bloom::<u64, _>(s, hb), n);
            return;
        }
        (_, false) => {
            let n = r.range(2000, 12000);
            let s = if r.chance(1, 2) { Shape::PartItems(n, p) } else { Shape::PartBits(n * r.range(1, 3), p) };
            let (k0, k1) = (r.u64(), r.u64());
            let hb = [SipHasherBuilder::from_seed(k0, k1), SipHasherBuilder::from_seed(k1, k0)];
            bulk(&mut r, run, "part", &|| mk_part::<u64, _>(s, hb), n);
            return;
        }
    };
    // further instances are equal, or differ in the number of probes or in one hash builder
    let ninst = if bl && r.chance(1, 2) { 2 + r.below(2) } else { 1 };
    let other = match shape {
        Shape::ItemCount(b, n) => Shape::ItemCount(b, (n / 2).max(1)),
        s => s,
    };
    let vary = [0, 0, r.below(4)];
    let shape_of = |id: usize| if vary[id] == 1 { other } else { shape };
    if r.chance(3, 4) {
        let modulus = match shape {
            Shape::ItemCount(b, _) => b,
            Shape::PartBits(w, _) => w,
            _ => 1,
        };
        let ws = if (class == 16 || class == 17) && r.chance(2, 3) && modulus > 2 && !modulus.is_power_of_two() {
            let k = must("probes", || if bl { mk_bloom::<u64, _>(shape, picks(0)).hasher_count() } else { mk_part::<u64, _>(shape, picks(0)).hasher_count() });
            twins(&mut r, modulus as u64, k.unwrap_or(2).max(2))
        } else {
            gen_words(&mut r, n)
        };
        let keys: Vec<Key> = ws.iter().map(|w| Key { a: w.0, b: w.1 }).collect();
        let hb = |id: usize| {
            let mut p = picks(0);
            if vary[id] >= 2 {
                p[vary[id] - 2].salt = 5;
            }
            p
        };
        if bl {
            drive(&mut r, run, "bloom", "pick", &keys, &ws, ninst, &|id| (mk_bloom::<Key, _>(shape_of(id), hb(id)), vary[id] / 2 * vary[id]), nops);
        } else {
            drive(&mut r, run, "part", "pick", &keys, &ws, 1, &|_| (mk_part::<Key, _>(shape, hb(0)), 0), nops);
        }
    } else {
        let k = [r.u64(), r.u64(), r.u64(), r.u64()];
        let keys: Vec<String> = (0..n).map(|i| format!("{}-{}", i, r.below(1000))).collect();
        let ws: Vec<(u64, u64)> = keys.iter().map(|s| (sip(k[0], k[1], s), sip(k[2], k[3], s))).collect();
        let hb = [SipHasherBuilder::from_seed(k[0], k[1]), SipHasherBuilder::from_seed(k[2], k[3])];
        if bl {
            drive(&mut r, run, "bloom", "sip", &keys, &ws, ninst, &|id| (mk_bloom::<String, _>(shape_of(id), hb), 0), nops);
        } else {
            drive(&mut r, run, "part", "sip", &keys, &ws, 1, &|_| (mk_part::<String, _>(shape, hb), 0), nops);
        }
    }
}

// ---------------------------------------------------------------- scalable
/// Exhaustive walk over operation scripts produced from the specification's state graph.
pub fn replay(run: usize, header: &[i64], keys: &[(u64, u64)], ops: &[Vec<i64>]) {
    // header: kind(0 bloom, 1 part) bits k
    let ks: Vec<Key> = keys.iter().map(|w| Key { a: w.0, b: w.1 }).collect();
    let hb = picks(0);
    let b = header[1] as usize;
    let k = header[2] as usize;
    fn go<F: Filter<Key>>(run: usize, kind: &str, ks: &[Key], ws: &[(u64, u64)], mk: &dyn Fn() -> F, ops: &[Vec<i64>]) {
        ev! {"ev": "run", "run": run, "kind": kind, "hk": "pick", "keys": words(ws)};
        let mut f = match must("construct", mk) {
            Some(f) => f,
            None => return,
        };
        match obs(&f, ks) {
            Some(o) => ev! {"ev": "new", "id": 0, "hb": 0, "o": o},
            None => return,
        }
        for op in ops {
            if op[0] == 0 {
                if must("clear", || f.clr()).is_none() {
                    return;
                }
            } else if must("insert", || f.ins(&ks[op[0] as usize - 1])).is_none() {
                return;
            }
            let o = match obs(&f, ks) {
                Some(o) => o,
                None => return,
            };
            if op[0] == 0 {
                ev! {"ev": "clr", "id": 0, "o": o};
            } else {
                ev! {"ev": "ins", "id": 0, "x": op[0], "o": o};
            }
        }
    }
    if header[0] == 0 {
        go(run, "bloom", &ks, keys, &|| BloomFilter::<Key, _>::from_item_count_with_hashers(b, items_for(b, k), hb), ops)
    } else {
        go(run, "part", &ks, keys, &|| PartitionedBloomFilter::<Key, _>::from_bit_count_with_hashers(b, 0.5f64.powi(k as i32), hb), ops)
    }
}

/// Probe counts that the plain filter uses for each stage's size and probability.
fn stage_probes(b0: usize, grow: (usize, usize), fpp: f64, tight: f64) -> Option<Vec<usize>> {
    let mut ks = Vec::new();
    let mut bits = b0;
    must("construct", || {
        for i in 0..20 {
            let f = BloomFilter::<Key, _>::from_fpp_with_hashers(bits, fpp * tight.powi(i), picks(0));
            ks.push(f.hasher_count());
            bits = (bits * grow.0 + grow.1 - 1) / grow.1;
            if bits > 8_300_000 {
                break;
            }
        }
    })?;
    Some(ks)
}
/// Header: bits of the first stage, growth ratio, probes of the first and the later stages.
pub fn replay_scalable(run: usize, h: &[i64], ws: &[(u64, u64)], ops: &[Vec<i64>]) {
    let (b0, grow) = (h[0] as usize, (h[1] as usize, h[2] as usize));
    let (fpp, tight) = (0.5f64.powi(h[3] as i32), if h[3] == h[4] { 1.0 } else { 0.5 });
    let keys: Vec<Key> = ws.iter().map(|w| Key { a: w.0, b: w.1 }).collect();
    if let Some(ks) = stage_probes(b0, grow, fpp, tight) {
        let mut r = Rng::new(0, 2, run as u64);
        let mk = || ScalableBloomFilter::with_hashers(b0, fpp, grow.0 as f64 / grow.1 as f64, tight, picks(0));
        drive_scalable(&mut r, run, &keys, ws, b0, grow, &ks, fpp, &mk, Some(ops));
    }
}
pub fn record_scalable(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 2, run as u64);
    if r.chance(1, 12) {
        scalable_bulk(&mut r, run);
        return;
    }
    let n = r.range(6, 40);
    let (b0, grow) = match r.below(10) {
        0..=5 => (r.range(4, 40), *r.pick(&[(1usize, 1usize), (3, 2), (2, 1), (5, 4), (3, 1), (9, 8)])),
        6..=7 => (r.range(40, 130), *r.pick(&[(1, 1), (3, 2), (2, 1), (4, 1)])),
        8 => (r.range(1, 6), *r.pick(&[(2, 1), (3, 1), (1, 1)])),
        _ => (*r.pick(&[64usize, 63, 65, 128]), *r.pick(&[(1, 1), (5, 4)])),
    };
    // a second stage of millions of bits, right behind a tiny one
    let (b0, grow) = if r.chance(1, 14) {
        let b = r.range(2, 12);
        (b, (r.range(4_300_000, 8_200_000) * 64 / b + 1, 64))
    } else {
        (b0, grow)
    };
    let fpp = *r.pick(&[0.5, 0.3, 0.1, 0.01, 0.001]);
    let tight: f64 = *r.pick(&[0.5, 0.9, 0.1, 0.25, 1.0, 0.75]);
    let sipmode = r.chance(1, 3);
    let growth = grow.0 as f64 / grow.1 as f64;
    let ks = match stage_probes(b0, grow, fpp, tight) {
        Some(k) => k,
        None => return,
    };
    if sipmode {
        let k = [r.u64(), r.u64(), r.u64(), r.u64()];
        let keys: Vec<String> = (0..n).map(|i| format!("{}/{}", i, r.below(1000))).collect();
        let ws: Vec<(u64, u64)> = keys.iter().map(|s| (sip(k[0], k[1], s), sip(k[2], k[3], s))).collect();
        let hb = [SipHasherBuilder::from_seed(k[0], k[1]), SipHasherBuilder::from_seed(k[2], k[3])];
        drive_scalable(&mut r, run, &keys, &ws, b0, grow, &ks, fpp, &|| ScalableBloomFilter::with_hashers(b0, fpp, growth, tight, hb), None);
    } else {
        let ws = if r.chance(1, 2) { (0..n).map(|_| (r.u64(), r.u64())).collect() } else { gen_words(&mut r, n) };
        let keys: Vec<Key> = ws.iter().map(|w| Key { a: w.0, b: w.1 }).collect();
        drive_scalable(&mut r, run, &keys, &ws, b0, grow, &ks, fpp, &|| ScalableBloomFilter::with_hashers(b0, fpp, growth, tight, picks(0)), None);
    }
}

fn sobs<T: Hash, B: BuildHasher + Clone + Copy>(f: &ScalableBloomFilter<T, B>, keys: &[T]) -> Option<Raw> {
    must("query", || {
        obj! {"len": f.len(), "ones": f.count_ones(), "zeros": f.count_zeros(), "empty": f.is_empty(), "fc": f.filter_count(),
        "fpp": micro(f.estimated_fpp()), "rep": rep(keys, |x| f.contains(x))}
    })
}
#[allow(clippy::too_many_arguments)]
fn drive_scalable<T: Hash, B: BuildHasher + Clone + Copy>(
    r: &mut Rng,
    run: usize,
    keys: &[T],
    ws: &[(u64, u64)],
    b0: usize,
    grow: (usize, usize),
    ks: &[usize],
    fpp: f64,
    mk: &dyn Fn() -> ScalableBloomFilter<T, B>,
    script: Option<&[Vec<i64>]>,
) {
    ev! {"ev": "run", "run": run, "keys": words(ws)};
    let mut f = match must("construct", mk) {
        Some(f) => f,
        None => return,
    };
    let o = match sobs(&f, keys) {
        Some(o) => o,
        None => return,
    };
    ev! {"ev": "new", "b0": b0, "gp": grow.0, "gq": grow.1, "ks": ks.to_vec(), "p0": micro(fpp), "o": o};
    let nops = script.map_or(45, |s| s.len());
    let clear_den = *r.pick(&[15usize, 30, 1000]);
    for at in 0..nops {
        let op = script.map(|s| s[at][0] as usize);
        if op.map_or_else(|| r.chance(1, clear_den), |o| o == 0) {
            if must("clear", || f.clear()).is_none() {
                return;
            }
            match sobs(&f, keys) {
                Some(o) => ev! {"ev": "clr", "o": o},
                None => return,
            }
        } else {
            let x = op.map_or_else(|| r.below(keys.len()), |o| o - 1);
            if must("insert", || f.insert(&keys[x])).is_none() {
                return;
            }
            match sobs(&f, keys) {
                Some(o) => {
                    let stages = f.filter_count();
                    ev! {"ev": "ins", "x": x + 1, "o": o};
                    if stages + 1 >= ks.len() && grow.0 < 1000 {
                        return;
                    }
                }
                None => return,
            }
        }
    }
}
fn scalable_bulk(r: &mut Rng, run: usize) {
    let (k0, k1) = (r.u64(), r.u64());
    let b0 = r.range(8, 300);
    let fpp = *r.pick(&[0.3, 0.1, 0.01]);
    let growth = *r.pick(&[1.5, 2.0, 1.25]);
    let tight = *r.pick(&[0.5, 0.9, 0.8]);
    let n = r.range(500, 4000) as u64;
    let base = r.u64() >> 8;
    let f = must("construct", || {
        ScalableBloomFilter::<u64, _>::with_hashers(b0, fpp, growth, tight, [SipHasherBuilder::from_seed(k0, k1), SipHasherBuilder::from_seed(k1, k0)])
    });
    let mut f = match f {
        Some(f) => f,
        None => return,
    };
    let mut lag = 0usize;
    let mut bad = 0usize; // growth by more than one stage, or shrinking counters
    for i in 0..n {
        let (fc, ones) = (f.filter_count(), f.count_ones());
        let known = f.contains(&(base + i));
        if must("insert", || f.insert(&(base + i))).is_none() {
            return;
        }
        if !f.contains(&(base + i)) {
            lag += 1
        }
        let (fc2, ones2) = (f.filter_count(), f.count_ones());
        if fc2 < fc || fc2 > fc + 1 || ones2 < ones || (known && ones2 != ones) {
            bad += 1
        }
    }
    let res = must("query", || {
        let miss = (0..n).filter(|i| !f.contains(&(base + i))).count();
        (miss, f.len(), f.count_ones(), f.count_zeros(), f.filter_count())
    });
    let (miss, len, ones, zeros, fc) = match res {
        Some(x) => x,
        None => return,
    };
    let res = must("clear", || {
        f.clear();
        ((0..n).filter(|i| f.contains(&(base + i))).count(), f.len(), f.count_ones(), f.filter_count())
    });
    if let Some((after, len2, ones2, fc2)) = res {
        ev! {"ev": "bulk", "run": run, "b0": b0, "gp": (growth * 4.0) as usize, "gq": 4, "n": n as usize, "miss": miss, "lag": lag, "bad": bad, "len": len, "ones": ones, "zeros": zeros,
        "fc": fc, "after": after, "len2": len2, "ones2": ones2, "fc2": fc2};
    }
}

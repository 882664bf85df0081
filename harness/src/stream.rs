//! Bloom filters for streams: biased sampling, single deletion, randomized load balancing.
use crate::bloom::{gen_words, rep, words};
use crate::util::*;
use crate::{ev, obj};
use probabilistic_collections::bloom::{BSBloomFilter, BSSDBloomFilter, RLBSBloomFilter};
use probabilistic_collections::verif_hooks::set_entropy;
use probabilistic_collections::SipHasherBuilder;
use std::hash::{BuildHasher, Hash};

pub trait Stream<T> {
    fn ins(&mut self, x: &T);
    fn has(&self, x: &T) -> bool;
    fn clr(&mut self);
    fn o(&self) -> (usize, usize, usize, bool, usize, usize);
}
macro_rules! stream {
    ($($t:ident),*) => { $(
        impl<T: Hash, B: BuildHasher> Stream<T> for $t<T, B> {
            fn ins(&mut self, x: &T) { self.insert(x) }
            fn has(&self, x: &T) -> bool { self.contains(x) }
            fn clr(&mut self) { self.clear() }
            fn o(&self) -> (usize, usize, usize, bool, usize, usize) {
                (self.len(), self.count_ones(), self.count_zeros(), self.is_empty(), self.hasher_count(), self.bit_count())
            }
        }
    )* };
}
stream!(BSBloomFilter, BSSDBloomFilter, RLBSBloomFilter);

fn obs<T, F: Stream<T>>(f: &F, keys: &[T]) -> Option<Raw> {
    must("query", || {
        let (len, ones, zeros, empty, k, w) = f.o();
        obj! {"len": len, "ones": ones, "zeros": zeros, "empty": empty, "k": k, "w": w, "rep": rep(keys, |x| f.has(x))}
    })
}

/// The number of partitions the constructors use for a false positive probability.
fn partitions(fpp: f64) -> usize {
    ((1.0 + fpp.ln() / (1.0 - 1.0 / std::f64::consts::E).ln() + 1.0) / 2.0).ceil() as usize
}
fn fpp_for(k: usize) -> f64 {
    let q = 1.0 - 1.0 / std::f64::consts::E;
    (0..4000).map(|i| 0.9995 - i as f64 * 0.0002).chain([1e-3, 1e-5]).find(|p| partitions(*p) == k && partitions(p / q.powf(0.1)) == k).unwrap_or(0.5)
}
fn derived(a: u64, b: u64, i: u64) -> u64 {
    let t = if i < 3 { 0 } else { i * (i - 1) * (i - 2) / 6 };
    a.wrapping_add(b.wrapping_mul(i)).wrapping_add(t)
}
/// One key for every combination of the given offsets.
fn product(r: &mut Rng, w: u64, sets: &[Vec<u64>]) -> Option<Vec<(u64, u64)>> {
    let mut out = Vec::new();
    let total: usize = sets.iter().map(|s| s.len()).product();
    for c in 0..total {
        let mut rest = c;
        let want: Vec<u64> = sets
            .iter()
            .map(|s| {
                let o = s[rest % s.len()];
                rest /= s.len();
                o
            })
            .collect();
        let before = out.len();
        for _ in 0..4000 {
            let a = r.u64() / w * w + want[0];
            let t = r.u64() / w * w + want[1];
            let b = t.wrapping_sub(a);
            if (0..sets.len()).all(|i| derived(a, b, i as u64) % w == want[i]) {
                out.push((a, b));
                break;
            }
        }
        if out.len() == before {
            return None;
        }
    }
    Some(out)
}

fn drive<T, F: Stream<T> + Wire>(r: &mut Rng, run: usize, kind: &str, prod: bool, keys: &[T], ws: &[(u64, u64)], mk: &dyn Fn() -> F, nops: usize) {
    set_entropy(r.u64());
    ev! {"ev": "run", "run": run};
    let mut f = match must("construct", mk) {
        Some(f) => f,
        None => return,
    };
    match obs(&f, keys) {
        Some(o) => ev! {"ev": "new", "kind": kind, "product": prod, "keys": words(ws), "o": o},
        None => return,
    }
    for _ in 0..nops {
        if r.chance(1, 120) {
            if must("clear", || f.clr()).is_none() {
                return;
            }
            match obs(&f, keys) {
                Some(o) => ev! {"ev": "clr", "o": o},
                None => return,
            }
            continue;
        }
        let mut x = r.below(keys.len());
        if !r.chance(1, 12) {
            // prefer an item that is not reported
            for _ in 0..8 {
                if !f.has(&keys[x]) {
                    break;
                }
                x = r.below(keys.len());
            }
        }
        f = match must("round trip", || swapped(f)) {
            Some(f) => f,
            None => return,
        };
        if must("insert", || f.ins(&keys[x])).is_none() {
            return;
        }
        match obs(&f, keys) {
            Some(o) => ev! {"ev": "ins", "x": x + 1, "o": o},
            None => return,
        }
    }
    ev! {"ev": "end"};
}

fn by_kind<T: Hash, B: BuildHasher + Clone>(r: &mut Rng, run: usize, kind: usize, prod: bool, keys: &[T], ws: &[(u64, u64)], w: usize, fpp: f64, hb: [B; 2], nops: usize)
where
    BSBloomFilter<T, B>: Wire,
    BSSDBloomFilter<T, B>: Wire,
    RLBSBloomFilter<T, B>: Wire,
{
    match kind {
        0 => drive(r, run, "bs", prod, keys, ws, &|| BSBloomFilter::with_hashers(w, fpp, hb.clone()), nops),
        1 => drive(r, run, "bssd", prod, keys, ws, &|| BSSDBloomFilter::with_hashers(w, fpp, hb.clone()), nops),
        _ => drive(r, run, "rlbs", prod, keys, ws, &|| RLBSBloomFilter::with_hashers(w, fpp, hb.clone()), nops),
    }
}

/// Long partitions: the item inserted last is reported, so the items that share one of its two offsets
/// show the other partition; only what changed is logged.
fn pivot<F: Stream<Key> + Wire>(r: &mut Rng, run: usize, kind: &str, w: usize, mk: &dyn Fn() -> F, nops: usize) {
    set_entropy(r.u64());
    ev! {"ev": "run", "run": run};
    let m = w as u64;
    let first: Vec<u64> = (0..m).map(|o| (r.u64() / m / 2) * m + o).collect();
    let second: Vec<u64> = (0..m).map(|o| (r.u64() / m / 2) * m + o).collect();
    let key = |x: usize, y: usize| Key { a: first[x], b: second[y].wrapping_sub(first[x]) };
    let mut f = match must("construct", mk) {
        Some(f) => f,
        None => return,
    };
    ev! {"ev": "pnew", "kind": kind, "w": w, "k": f.o().4};
    let mut last = [vec![false; w], vec![false; w]];
    for step in 0..nops {
        // sometimes an item that is reported already
        let (x, y) = match r.below(20) {
            0 if step > 0 => {
                let pick = |r: &mut Rng, v: &Vec<bool>| (0..50).map(|_| r.below(w)).find(|i| v[*i]).unwrap_or(0);
                (pick(r, &last[0]), pick(r, &last[1]))
            }
            _ => (r.below(w), r.below(w)),
        };
        f = match must("round trip", || swapped(f)) {
            Some(f) => f,
            None => return,
        };
        let now = must("insert", || {
            let k = key(x, y);
            f.ins(&k);
            [(0..w).map(|o| f.has(&key(o, y))).collect::<Vec<bool>>(), (0..w).map(|o| f.has(&key(x, o))).collect()]
        });
        let now = match now {
            Some(n) => n,
            None => return,
        };
        let diff = |i: usize, a: bool| (0..w).filter(|o| last[i][*o] == a && now[i][*o] != a).collect::<Vec<_>>();
        ev! {"ev": "pins", "x": (x, y), "lost": (diff(0, true), diff(1, true)), "got": (diff(0, false), diff(1, false)), "ones": f.o().1};
        last = now;
    }
    ev! {"ev": "pend"};
}

pub fn record_long(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 28, run as u64);
    let w = if r.chance(1, 3) { *r.pick(&[256usize, 257, 512, 1000, 1024]) } else { r.range(161, 1500) };
    let (nops, p, hb) = (900, fpp_for(2), picks(r.u64()));
    match run % 3 {
        0 => pivot(&mut r, run, "bs", w, &|| BSBloomFilter::with_hashers(w, p, hb), nops),
        1 => pivot(&mut r, run, "bssd", w, &|| BSSDBloomFilter::with_hashers(w, p, hb), 2 * nops),
        _ => pivot(&mut r, run, "rlbs", w, &|| RLBSBloomFilter::with_hashers(w, p, hb), 2 * nops),
    }
}

/// Where the serialized form keeps the bits: offsets of the byte vectors, and whether there is one for each
/// partition.  Found by looking for the contents that the first insertion must have left; None if it keeps
/// them some other way.
struct Layout {
    at: Vec<usize>,
    w: usize,
    k: usize,
}
fn find(hay: &[u8], needle: &[u8], from: usize) -> Option<usize> {
    (from..(hay.len() + 1).saturating_sub(needle.len())).find(|i| hay[*i..].starts_with(needle))
}
fn packed(bits: &[usize], len: usize) -> Vec<u8> {
    let mut v = (((len + 7) / 8) as u64).to_le_bytes().to_vec();
    v.resize(8 + (len + 7) / 8, 0);
    bits.iter().for_each(|b| v[8 + b / 8] |= 1 << (b % 8));
    v
}
fn layout(bytes: &[u8], w: usize, k: usize, first: &[usize]) -> Option<Layout> {
    let all: Vec<usize> = first.iter().enumerate().map(|(i, o)| i * w + o).collect();
    if let Some(i) = find(bytes, &packed(&all, k * w), 0) {
        return Some(Layout { at: vec![i + 8], w, k });
    }
    // one vector for each partition, at equal distances
    let here = |i: usize, at: usize| at < bytes.len() && bytes[at..].starts_with(&packed(&first[i..i + 1], w));
    let mut from = 0;
    while let Some(i) = find(bytes, &packed(&first[..1], w), from) {
        if let Some(d) = (8 + (w + 7) / 8..bytes.len() / k).find(|d| (1..k).all(|j| here(j, i + j * d))) {
            return Some(Layout { at: (0..k).map(|j| i + j * d + 8).collect(), w, k });
        }
        from = i + 1;
    }
    None
}
impl Layout {
    fn read(&self, bytes: &[u8]) -> Vec<Vec<bool>> {
        let bit = |at: usize, n: usize| bytes.get(at + n / 8).map_or(false, |b| b >> (n % 8) & 1 == 1);
        (0..self.k)
            .map(|i| (0..self.w).map(|o| if self.at.len() == 1 && self.k > 1 { bit(self.at[0], i * self.w + o) } else { bit(self.at[i], o) }).collect())
            .collect()
    }
}

/// Any number of partitions: the contents are read from the serialized form.
fn seen<F: Stream<Key> + Wire>(r: &mut Rng, run: usize, kind: &str, w: usize, mk: &dyn Fn() -> F, nops: usize) {
    set_entropy(r.u64());
    ev! {"ev": "run", "run": run};
    let mut f = match must("construct", mk) {
        Some(f) => f,
        None => return,
    };
    let k = f.o().4;
    let offsets = |x: &Key| (0..k as u64).map(|i| (derived(x.a, x.b, i) % w as u64) as usize).collect::<Vec<_>>();
    let watch = *r.pick(&[1, k, 1 + r.clone().below(k)]);
    let steer = *r.pick(if k <= 3 { &[1000, 3000] } else { &[0, 0, 3, 16] });
    let mut idle = 0;
    ev! {"ev": "wnew", "kind": kind, "w": w, "k": k, "watch": watch, "ones": f.o().1};
    let mut lay: Option<Layout> = None;
    let mut last = vec![vec![false; w]; k];
    let mut old: Vec<Key> = Vec::new();
    for _ in 0..nops {
        let mut x = if !old.is_empty() && r.chance(1, 20) { *r.pick(&old) } else { Key { a: r.u64(), b: r.u64() } };
        // items that meet more zeros than others keep the filter fuller than chance does
        let fresh = |x: &Key| offsets(x).iter().enumerate().filter(|(i, o)| !last[*i][**o]).count();
        for _ in 0..steer {
            let y = Key { a: r.u64(), b: r.u64() };
            if fresh(&y) > fresh(&x) {
                x = y;
            }
        }
        let now = must("insert", || {
            let known = f.has(&x);
            f.ins(&x);
            (known, f.has(&x), wire(&f))
        });
        let (known, has, bytes) = match now {
            Some(n) => n,
            None => return,
        };
        if lay.is_none() {
            lay = layout(&bytes, w, k, &offsets(&x));
        }
        let now = match &lay {
            Some(l) => l.read(&bytes),
            None => return,
        };
        let diff = |a: bool| (0..k).map(|i| (0..w).filter(|o| last[i][*o] == a && now[i][*o] != a).collect::<Vec<_>>()).collect::<Vec<_>>();
        // now and then one more item, inserted before or not
        let more = r.chance(1, 4);
        let y = if !old.is_empty() && r.chance(1, 2) { *r.pick(&old) } else { Key { a: r.u64(), b: r.u64() } };
        let also = match must("query", || f.has(&y)) {
            Some(h) => h,
            None => return,
        };
        let (_, ones, zeros, ..) = f.o();
        ev! {"ev": "wins", "x": (W(x.a), W(x.b)), "known": known, "has": has, "lost": diff(true), "got": diff(false), "ones": ones, "zeros": zeros, "y": if more { vec![W(y.a), W(y.b)] } else { vec![] }, "also": also};
        last = now;
        // a full filter stays as it is
        idle = if known { idle + 1 } else { 0 };
        if idle > 20 {
            break;
        }
        old.push(x);
        if old.len() > 40 {
            let i = r.below(40);
            old.swap_remove(i);
        }
    }
    ev! {"ev": "wend"};
}

pub fn record_seen(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 29, run as u64);
    let (w, k, nops) = match run % 3 {
        0 if r.chance(1, 2) => (r.range(10, 40), r.range(2, 3), 1400),
        0 => (r.range(2, 7), r.range(4, 12), 1400),
        1 => (r.range(7, 60), r.range(2, 16), 1000),
        _ => (r.range(61, 400), if r.chance(1, 3) { r.range(17, 40) } else { r.range(2, 8) }, 600),
    };
    let q = 1.0f64 - 1.0 / std::f64::consts::E;
    let (p, hb) = (q.powf(2.0 * k as f64 - 2.5), picks(r.u64()));
    match (run / 12) % 3 {
        0 => seen(&mut r, run, "bs", w, &|| BSBloomFilter::with_hashers(w, p, hb), nops / 2),
        1 => seen(&mut r, run, "bssd", w, &|| BSSDBloomFilter::with_hashers(w, p, hb), nops),
        _ => seen(&mut r, run, "rlbs", w, &|| RLBSBloomFilter::with_hashers(w, p, hb), nops),
    }
}

pub fn record(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 6, run as u64);
    let kind = run % 3;
    let salt = r.u64();
    if r.chance(3, 5) {
        let (w, k): (usize, usize) = match r.below(8) {
            0 => (r.range(1, 3), 2),
            1 | 2 => (r.range(3, 8), 2),
            3 => (3, 3),
            4 => (*r.pick(&[3, 5, 7, 11]), r.range(3, 4)),
            5 => (r.range(9, 40), 2),
            6 => (*r.pick(&[31, 32, 33, 63, 64, 65]), 2),
            _ => (r.range(65, 160), 2),
        };
        let limit = if k > 2 { 81 } else { 90 };
        let mut tries = 0;
        let (ws, k) = loop {
            tries += 1usize;
            tick();
            let limit = if k == 2 { limit.max(w) } else if k == 4 { 10usize.saturating_sub(tries / 8).max(1) } else { 81usize.saturating_sub(8 * tries).max(4) };
            let mut sets: Vec<Vec<u64>> = vec![(0..w as u64).collect(); k];
            // cut the partitions' offsets down until the universe is small enough
            let keep = r.below(k);
            while sets.iter().map(|s| s.len()).product::<usize>() > limit {
                let i = (0..k).filter(|i| k == 4 || limit < w || *i != keep).max_by_key(|i| sets[*i].len()).unwrap();
                let d = r.below(sets[i].len());
                sets[i].remove(d);
            }
            if let Some(ws) = product(&mut r, w as u64, &sets) {
                break (ws, k);
            }
        };
        let keys: Vec<Key> = ws.iter().map(|(a, b)| Key { a: *a, b: *b }).collect();
        let nops = if w > 64 { 500 } else if kind == 0 { 600 } else if w <= 8 { 1500 } else { 1000 };
        by_kind(&mut r, run, kind, true, &keys, &ws, w, fpp_for(k), picks(salt), nops);
    } else {
        let w = match r.below(4) {
            0 => r.range(1, 12),
            1 => r.range(13, 200),
            2 => *r.pick(&[64, 128, 1000, 1024, 4096]),
            _ => r.range(200, 3000),
        };
        let fpp = *r.pick(&[0.9, 0.5, 0.3, 0.1, 0.05, 0.01, 1e-3, 1e-6]);
        let n = r.range(4, 50);
        let nops = 150;
        if r.chance(1, 2) {
            let ws = gen_words(&mut r, n);
            let keys: Vec<Key> = ws.iter().map(|(a, b)| Key { a: *a, b: *b }).collect();
            by_kind(&mut r, run, kind, false, &keys, &ws, w, fpp, picks(salt), nops);
        } else {
            let s: Vec<u64> = (0..4).map(|_| r.u64()).collect();
            let keys: Vec<String> = (0..n).map(|i| format!("{}~{}", r.below(100), i)).collect();
            let ws: Vec<(u64, u64)> = keys.iter().map(|k| (sip(s[0], s[1], k), sip(s[2], s[3], k))).collect();
            let hb = [SipHasherBuilder::from_seed(s[0], s[1]), SipHasherBuilder::from_seed(s[2], s[3])];
            by_kind(&mut r, run, kind, false, &keys, &ws, w, fpp, hb, nops);
        }
    }
}

//! Collections as users build them, under SipHash: how often do they err?
use crate::ev;
use crate::util::*;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::{MinHash, SimHash};
use probabilistic_collections::verif_hooks::set_entropy;
use probabilistic_collections::SipHasherBuilder;
use std::hash::Hash;

/// p = m * 10^-9 * 2^-k
#[derive(Clone, Copy)]
struct P {
    m: usize,
    k: u32,
}
impl P {
    fn f(self) -> f64 {
        self.m as f64 / 1e9 / 2f64.powi(self.k as i32)
    }
    fn any(r: &mut Rng, kmin: usize, kmax: usize) -> P {
        P { m: 500_000_000 + 2 * r.below(250_000_001), k: r.range(kmin, kmax) as u32 }
    }
}
fn sips(r: &mut Rng) -> [SipHasherBuilder; 2] {
    [SipHasherBuilder::from_seed(r.u64(), r.u64()), SipHasherBuilder::from_seed(r.u64(), r.u64())]
}

struct Fill {
    bits: usize,
    probes: usize,
    ones: usize,
    est: f64,
    stages: usize,
}
trait Filter<T> {
    fn put(&mut self, x: &T);
    fn has(&mut self, x: &T) -> bool;
    fn fill(&self) -> Fill;
}
macro_rules! bit_filter {
    ($t:ident, |$f:ident| $est:expr) => {
        impl<T: Hash> Filter<T> for $t<T> {
            fn put(&mut self, x: &T) {
                self.insert(x)
            }
            fn has(&mut self, x: &T) -> bool {
                self.contains(x)
            }
            fn fill(&self) -> Fill {
                let $f = self;
                Fill { bits: self.len(), probes: self.hasher_count(), ones: self.count_ones(), est: $est, stages: 1 }
            }
        }
    };
}
bit_filter!(BloomFilter, |f| f.estimated_fpp());
bit_filter!(PartitionedBloomFilter, |f| f.estimated_fpp());
bit_filter!(BSBloomFilter, |_f| -1.0);
bit_filter!(BSSDBloomFilter, |_f| -1.0);
bit_filter!(RLBSBloomFilter, |_f| -1.0);
macro_rules! slot_filter {
    ($t:ident, |$f:ident| $stages:expr) => {
        impl<T: Hash> Filter<T> for $t<T> {
            fn put(&mut self, x: &T) {
                self.insert(x)
            }
            fn has(&mut self, x: &T) -> bool {
                self.contains(x)
            }
            fn fill(&self) -> Fill {
                let $f = self;
                Fill { bits: 0, probes: 0, ones: 0, est: self.estimated_fpp(), stages: $stages }
            }
        }
    };
}
slot_filter!(ScalableBloomFilter, |f| f.filter_count());
slot_filter!(CuckooFilter, |_f| 1);
slot_filter!(ScalableCuckooFilter, |f| f.filter_count());
slot_filter!(QuotientFilter, |_f| 1);

struct Plan {
    kind: &'static str,
    via: &'static str,
    n: usize,
    asked: usize,
    p: P,
    ratio: usize, // tightening, in 10^-9
    bits: usize,  // of the first stage, if the filter has stages
    probes: usize,
}
fn trial<T: Hash, F: Filter<T>>(pl: &Plan, make: impl FnOnce() -> F, item: &dyn Fn(usize) -> T) {
    let mut f = match must("construct", make) {
        Some(f) => f,
        None => return,
    };
    if must("insert", || (0..pl.n).for_each(|i| f.put(&item(i)))).is_none() {
        return;
    }
    let stream = pl.kind == "stream";
    let counts = must("query", || {
        let missed = (0..pl.n).filter(|i| !stream && !f.has(&item(*i))).count();
        let wrong = (pl.n..pl.n + pl.asked).filter(|i| f.has(&item(*i))).count();
        (missed, wrong, f.fill())
    });
    if let Some((missed, wrong, s)) = counts {
        let (bits, probes) = if pl.bits > 0 { (pl.bits, pl.probes) } else { (s.bits, s.probes) };
        ev! {"ev": "fpr", "kind": pl.kind, "via": pl.via, "n": pl.n, "asked": pl.asked, "m": pl.p.m, "k": pl.p.k, "r": pl.ratio,
        "bits": bits, "probes": probes, "ones": s.ones, "est": if s.est == -1.0 { -1 } else { nano(s.est).min(1_000_000_001) }, "stages": s.stages,
        "missed": missed, "wrong": wrong}
    }
}

fn filters<T: Hash>(r: &mut Rng, item: &dyn Fn(usize) -> T) {
    let h = sips(r);
    let (own, asked) = (r.chance(1, 4), 100_000);
    let n = r.range(500, 12_000);
    let used = if r.chance(1, 3) { n * r.range(30, 100) / 100 } else { n };
    let p = P::any(r, 1, 9);
    let mut pl = Plan { kind: "bloom", via: "np", n: used, asked, p, ratio: 0, bits: 0, probes: 0 };
    let h2 = h.clone();
    match r.below(12) {
        0 => trial(&pl, || if own { BloomFilter::<T>::new(n, p.f()) } else { BloomFilter::with_hashers(n, p.f(), h2) }, item),
        1 => {
            pl.via = "bp";
            let bits = r.range(4000, 100_000);
            // as many items as the bits hold at p
            pl.n = ((bits as f64 * 2f64.ln().powi(2) / -p.f().ln()) as usize).clamp(1, 40_000) * r.range(50, 100) / 100;
            trial(&pl, || if own { BloomFilter::<T>::from_fpp(bits, p.f()) } else { BloomFilter::from_fpp_with_hashers(bits, p.f(), h2) }, item)
        }
        2 => {
            pl.via = "bn";
            let bits = n * r.range(2, 12);
            trial(&pl, || if own { BloomFilter::<T>::from_item_count(bits, n) } else { BloomFilter::from_item_count_with_hashers(bits, n, h2) }, item)
        }
        3 => {
            pl.kind = "part";
            trial(&pl, || if own { PartitionedBloomFilter::<T>::from_item_count(n, p.f()) } else { PartitionedBloomFilter::from_item_count_with_hashers(n, p.f(), h2) }, item)
        }
        4 => {
            pl.kind = "part";
            pl.via = "bp";
            // each of ceil(log2 1/p) partitions is half full after width * ln 2 items
            let width = r.range(1000, 12_000);
            pl.n = (width as f64 * 2f64.ln()) as usize * r.range(50, 100) / 100;
            trial(&pl, || if own { PartitionedBloomFilter::<T>::from_bit_count(width, p.f()) } else { PartitionedBloomFilter::from_bit_count_with_hashers(width, p.f(), h2) }, item)
        }
        5 => {
            pl.kind = "sbloom";
            let (bits, g) = (r.range(1000, 6000), *r.pick(&[1.0, 1.5, 2.0, 3.0]));
            pl.ratio = *r.pick(&[300_000_000, 500_000_000, 800_000_000, 900_000_000]);
            let t = pl.ratio as f64 / 1e9;
            pl.bits = bits;
            pl.probes = p.k as usize + 1;
            pl.n = r.range(500, 6000);
            trial(&pl, || if own { ScalableBloomFilter::<T>::new(bits, p.f(), g, t) } else { ScalableBloomFilter::with_hashers(bits, p.f(), g, t, h2) }, item)
        }
        6 => {
            pl.kind = "cuckoo";
            pl.via = "n";
            pl.p = P { m: 508_000_000, k: 4 };
            trial(&pl, || if own { CuckooFilter::<T>::new(n) } else { CuckooFilter::with_hashers(n, h2) }, item)
        }
        7 => {
            pl.kind = "cuckoo";
            pl.via = "pe";
            let e = r.range(1, 8);
            pl.p = P::any(r, 4, 9);
            let p = pl.p;
            trial(&pl, || if own { CuckooFilter::<T>::from_entries_per_index(n, p.f(), e) } else { CuckooFilter::from_entries_per_index_with_hashers(n, p.f(), e, h2) }, item)
        }
        8 => {
            pl.kind = "cuckoo";
            pl.via = "pf";
            pl.p = P::any(r, 4, 9);
            let (p, fb) = (pl.p, pl.p.k as usize + r.range(3, 6));
            trial(&pl, || if own { CuckooFilter::<T>::from_fingerprint_bit_count(n, p.f(), fb) } else { CuckooFilter::from_fingerprint_bit_count_with_hashers(n, p.f(), fb, h2) }, item)
        }
        9 => {
            pl.kind = "quot";
            let p = P::any(r, 2, 9);
            pl.p = p;
            let hb = h[0].clone();
            trial(&pl, || if own { QuotientFilter::<T>::from_fpp(n, p.f()) } else { QuotientFilter::from_fpp_with_hasher(n, p.f(), hb) }, item)
        }
        10 => {
            pl.kind = "scuckoo";
            pl.ratio = *r.pick(&[500_000_000, 800_000_000, 900_000_000]);
            let (t, g, first, e) = (pl.ratio as f64 / 1e9, *r.pick(&[1.0, 2.0, 3.0]), r.range(100, 3000), r.range(1, 6));
            pl.p = P::any(r, 4, 8);
            let p = pl.p;
            match r.below(3) {
                0 => trial(&pl, || ScalableCuckooFilter::<T>::new(first, p.f(), g, t), item),
                1 => trial(&pl, || ScalableCuckooFilter::<T>::with_hashers(first, p.f(), g, t, h2), item),
                _ => trial(&pl, || ScalableCuckooFilter::<T>::from_entries_per_index_with_hashers(first, p.f(), e, g, t, h2), item),
            }
        }
        _ => {
            pl.kind = "stream";
            let w = r.range(500, 10_000);
            match r.below(3) {
                0 => trial(&pl, || if own { BSBloomFilter::<T>::new(w, p.f()) } else { BSBloomFilter::with_hashers(w, p.f(), h2) }, item),
                1 => trial(&pl, || if own { BSSDBloomFilter::<T>::new(w, p.f()) } else { BSSDBloomFilter::with_hashers(w, p.f(), h2) }, item),
                _ => trial(&pl, || if own { RLBSBloomFilter::<T>::new(w, p.f()) } else { RLBSBloomFilter::with_hashers(w, p.f(), h2) }, item),
            }
        }
    }
}

fn sketches<T: Hash>(r: &mut Rng, item: &dyn Fn(usize) -> T) {
    match r.below(4) {
        0 => {
            // as many equally heavy items as epsilon allows to matter
            let (eps, p) = (P::any(r, 7, 11), P::any(r, 0, 6));
            let p = if p.k == 0 && p.m > 900_000_000 { P { m: 900_000_000, k: 0 } } else { p };
            let heavy = (0.97 / eps.f()) as usize;
            let amount = 1i64 << r.below(30);
            let h = sips(r);
            let own = r.chance(1, 4);
            let c = must("count", || {
                let mut c: CountMinSketch<CountMinStrategy, T> =
                    if own { CountMinSketch::from_error(eps.f(), p.f()) } else { CountMinSketch::from_error_with_hashers(eps.f(), p.f(), h) };
                (0..heavy).for_each(|i| c.insert(&item(i), amount));
                let limit = eps.f() * heavy as f64 * amount as f64;
                let over = (0..20_000 + heavy).filter(|i| (c.count(&item(*i)) - if *i < heavy { amount } else { 0 }) as f64 > limit).count();
                let under = (0..heavy).filter(|i| c.count(&item(*i)) < amount).count();
                (c.rows(), c.cols(), over, under)
            });
            if let Some((rows, cols, over, under)) = c {
                ev! {"ev": "over", "m": p.m, "k": p.k, "em": eps.m, "ek": eps.k, "rows": rows, "cols": cols, "asked": 20_000 + heavy, "over": over, "under": under}
            }
        }
        1 => {
            let p = P::any(r, 1, 6);
            let n = match r.below(4) {
                0 => r.range(1, 50),
                1 => r.range(50, 1000),
                2 => r.range(1000, 8000),
                _ => ((1.04 / p.f()).powi(2) * r.range(100, 600) as f64 / 100.0) as usize + 1,
            };
            let hs: Vec<_> = (0..32).map(|_| sips(r)[0].clone()).collect();
            let own = r.chance(1, 4);
            let ests = must("estimate", || {
                hs.iter()
                    .map(|h| {
                        let mut c = if own { HyperLogLog::<T>::new(p.f()) } else { HyperLogLog::with_hasher(p.f(), h.clone()) };
                        (0..n).for_each(|i| c.insert(&item(i)));
                        fixed(c.len(), 1.0)
                    })
                    .collect::<Vec<i64>>()
            });
            if let Some(ests) = ests {
                ev! {"ev": "card", "m": p.m, "k": p.k, "n": n, "ests": ests}
            }
        }
        2 => {
            let (common, a, b) = (r.below(400), r.range(1, 200), r.range(1, 200));
            let k = r.range(16, 300);
            let reps = 8000 / k + 1;
            let hs: Vec<_> = (0..reps).map(|_| sips(r)).collect();
            let (set_a, set_b): (Vec<T>, Vec<T>) = ((0..common + a).map(item).collect(), (0..common).chain(common + a..common + a + b).map(item).collect());
            let own = r.chance(1, 4);
            let equal = must("similarity", || {
                hs.iter()
                    .map(|h| {
                        let m: MinHash<std::slice::Iter<'_, T>, &T> = if own { MinHash::new(k) } else { MinHash::with_hashers(k, h.clone()) };
                        (m.get_similarity(set_a.iter(), set_b.iter()) * k as f64).round() as usize
                    })
                    .sum::<usize>()
            });
            if let Some(equal) = equal {
                ev! {"ev": "mh", "common": common, "union": common + a + b, "asked": k * reps, "equal": equal}
            }
        }
        _ => {
            let half = r.range(100, 400);
            let disjoint = r.chance(1, 2);
            let reps = 150;
            let hs: Vec<_> = (0..reps).map(|_| sips(r)[0].clone()).collect();
            let size = 2 * half - 1;
            let shift = if disjoint { size } else { half };
            let (set_a, set_b): (Vec<T>, Vec<T>) = ((0..size).map(item).collect(), (shift..shift + size).map(item).collect());
            let differ = must("simhash", || {
                hs.iter()
                    .map(|h| {
                        let s: SimHash<std::slice::Iter<'_, T>, &T> = SimHash::with_hasher(h.clone());
                        (s.get_sim_hash(set_a.iter()) ^ s.get_sim_hash(set_b.iter())).count_ones() as usize
                    })
                    .sum::<usize>()
            });
            if let Some(differ) = differ {
                ev! {"ev": "sh", "den": if disjoint { 2 } else { 3 }, "asked": 64 * reps, "differ": differ}
            }
        }
    }
}

pub fn record(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 43, run as u64);
    ev! {"ev": "run", "run": run};
    set_entropy(r.u64());
    let base = r.u64() >> r.range(1, 60);
    let sketch = r.chance(1, 4);
    macro_rules! with {
        ($f:expr) => {
            if sketch {
                sketches(&mut r, &$f)
            } else {
                filters(&mut r, &$f)
            }
        };
    }
    match r.below(5) {
        0 => with!(|i: usize| base.wrapping_add(i as u64)),
        1 => with!(|i: usize| format!("item-{}-{}", base % 1000, i)),
        2 => with!(|i: usize| (i as u32, base as u8)),
        3 => with!(|i: usize| [mix(i as u64 ^ base), base]),
        _ => with!(|i: usize| i as u32),
    }
}

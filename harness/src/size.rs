//! Constructors: what sizes they choose for their arguments, and which arguments they refuse.
use crate::ev;
use crate::util::*;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::MinHash;
use probabilistic_collections::SipHasherBuilder;

#[cfg(feature = "ser")]
fn bytes<C: Wire>(c: &C) -> usize {
    bincode::serialized_size(c).expect("serialized size") as usize
}
#[cfg(not(feature = "ser"))]
fn bytes<C: Wire>(_c: &C) -> usize {
    panic!("built without serde")
}

/// p = m * 10^-9 * 2^-k
#[derive(Clone, Copy)]
struct P {
    m: usize,
    k: u32,
}
impl P {
    fn f(self) -> f64 {
        self.m as f64 / 1e9 / 2f64.powi(self.k as i32)
    }
    fn at_most(r: &mut Rng, kmin: usize, kmax: usize) -> P {
        let k = r.range(kmin, kmax) as u32;
        let m = match r.below(8) {
            0 => 1_000_000_000,
            1 => 500_000_000,
            // 10^-j and halves of it: 0.1 = 0.8 / 2^3, 0.01 = 0.64 / 2^6, 0.001 = 0.512 * 2 / 2^10
            2 => {
                let p = *r.pick(&[P { m: 800_000_000, k: 3 }, P { m: 640_000_000, k: 6 }, P { m: 512_000_000, k: 9 }, P { m: 819_200_000, k: 13 }, P { m: 655_360_000, k: 16 }, P { m: 960_000_000, k: 5 }, P { m: 800_000_000, k: 4 }]);
                if p.k as usize <= kmax {
                    return p;
                }
                800_000_000
            }
            3 => 999_999_998,
            _ => 500_000_000 + 2 * r.below(250_000_000),
        };
        if k == 0 && m > 900_000_000 {
            P { m: 900_000_000, k }
        } else {
            P { m, k }
        }
    }
}

fn sips(r: &mut Rng) -> [SipHasherBuilder; 2] {
    [SipHasherBuilder::from_seed(r.u64(), r.u64()), SipHasherBuilder::from_seed(r.u64(), r.u64())]
}
fn count(r: &mut Rng, max: usize) -> usize {
    match r.below(6) {
        0 => r.range(1, 9),
        1 => (1usize << r.below(18)).min(max),
        2 => ((1usize << r.below(18)) + 1).min(max),
        3 => (r.range(1, 9) * 10usize.pow(r.below(6) as u32)).min(max),
        4 => r.range(1, 1000),
        _ => r.range(1, max),
    }
}
fn bloom(r: &mut Rng) {
    let (via, n, b) = (*r.pick(&["np", "bn", "bp"]), count(r, 200_000), count(r, 200_000));
    let p = P::at_most(r, 0, 40);
    let n = if via == "bn" { n.min(b * 8).max(b / 4000 + 1) } else { n };
    let (d, h) = (r.chance(1, 3), sips(r));
    let c = guard(|| match (via, d) {
        ("np", true) => BloomFilter::<u32>::new(n, p.f()),
        ("np", _) => BloomFilter::<u32>::with_hashers(n, p.f(), h),
        ("bn", true) => BloomFilter::from_item_count(b, n),
        ("bn", _) => BloomFilter::from_item_count_with_hashers(b, n, h),
        (_, true) => BloomFilter::from_fpp(b, p.f()),
        _ => BloomFilter::from_fpp_with_hashers(b, p.f(), h),
    });
    match c {
        Err(_) => ev! {"ev": "bloom", "via": via, "n": n, "b": b, "m": p.m, "k": p.k, "ok": false},
        Ok(mut f) => {
            let (bits, probes, bytes) = (f.len(), f.hasher_count(), bytes(&f));
            let works = guard(|| {
                f.insert(&7);
                f.contains(&7)
            });
            ev! {"ev": "bloom", "via": via, "n": n, "b": b, "m": p.m, "k": p.k, "ok": true, "bits": bits, "probes": probes, "bytes": bytes, "works": works.unwrap_or(false)}
        }
    }
}

fn part(r: &mut Rng) {
    let (via, n, b) = (*r.pick(&["np", "bp"]), count(r, 200_000), count(r, 5_000));
    let p = P::at_most(r, 0, 40);
    let (d, h) = (r.chance(1, 3), sips(r));
    let c = guard(|| match (via, d) {
        ("np", true) => PartitionedBloomFilter::<u32>::from_item_count(n, p.f()),
        ("np", _) => PartitionedBloomFilter::<u32>::from_item_count_with_hashers(n, p.f(), h),
        (_, true) => PartitionedBloomFilter::from_bit_count(b, p.f()),
        _ => PartitionedBloomFilter::from_bit_count_with_hashers(b, p.f(), h),
    });
    match c {
        Err(_) => ev! {"ev": "part", "via": via, "n": n, "b": b, "m": p.m, "k": p.k, "ok": false},
        Ok(mut f) => {
            let (bits, width, probes, bytes) = (f.len(), f.bit_count(), f.hasher_count(), bytes(&f));
            let works = guard(|| {
                f.insert(&7);
                f.contains(&7)
            });
            ev! {"ev": "part", "via": via, "n": n, "b": b, "m": p.m, "k": p.k, "ok": true, "bits": bits, "width": width, "probes": probes, "bytes": bytes, "works": works.unwrap_or(false)}
        }
    }
}

macro_rules! stream_of {
    ($t:ident, $r:expr) => {{
        let (b, p) = (count($r, 5_000), P::at_most($r, 0, 40));
        let (d, h) = ($r.chance(1, 3), sips($r));
        match guard(|| if d { $t::<u32>::new(b, p.f()) } else { $t::<u32>::with_hashers(b, p.f(), h) }) {
            Err(_) => ev! {"ev": "stream", "of": stringify!($t), "b": b, "m": p.m, "k": p.k, "ok": false},
            Ok(mut f) => {
                let (bits, width, probes, bytes) = (f.len(), f.bit_count(), f.hasher_count(), bytes(&f));
                let works = guard(|| {
                    f.insert(&7);
                    f.contains(&7)
                });
                ev! {"ev": "stream", "of": stringify!($t), "b": b, "m": p.m, "k": p.k, "ok": true, "bits": bits, "width": width, "probes": probes, "bytes": bytes, "works": works.unwrap_or(false)}
            }
        }
    }};
}

fn cuckoo(r: &mut Rng) {
    let via = *r.pick(&["n", "fe", "pe", "pf"]);
    let n = if r.chance(1, 12) { 0 } else { count(r, 100_000) };
    let e = if r.chance(1, 12) { 0 } else { *r.pick(&[1, 2, 3, 4, 5, 7, 8, 16, 33]) };
    let f = *r.pick(&[0usize, 1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 33, 52, 53, 54, 60, 63, 64, 65, 100]);
    let f = if r.chance(1, 2) { r.range(1, 64) } else { f };
    // keep the table small
    let n = if via == "fe" || via == "pe" { n } else { n.min(20_000) };
    let top = if r.chance(1, 4) { 54 } else { 24 };
    let p = P::at_most(r, 0, top);
    let p = if via == "pf" && r.chance(2, 3) { P::at_most(r, f.min(50).saturating_sub(8), f.min(50)) } else { p };
    let (d, h) = (r.chance(1, 3), sips(r));
    let c = guard(|| match (via, d) {
        ("n", true) => CuckooFilter::<u32>::new(n),
        ("n", _) => CuckooFilter::with_hashers(n, h),
        ("fe", true) => CuckooFilter::from_parameters(n, f, e),
        ("fe", _) => CuckooFilter::from_parameters_with_hashers(n, f, e, h),
        ("pe", true) => CuckooFilter::from_entries_per_index(n, p.f(), e),
        ("pe", _) => CuckooFilter::from_entries_per_index_with_hashers(n, p.f(), e, h),
        (_, true) => CuckooFilter::from_fingerprint_bit_count(n, p.f(), f),
        _ => CuckooFilter::from_fingerprint_bit_count_with_hashers(n, p.f(), f, h),
    });
    match c {
        Err(_) => ev! {"ev": "cuckoo", "via": via, "n": n, "e": e, "f": f, "m": p.m, "k": p.k, "ok": false},
        Ok(mut c) => {
            let (fb, entries, buckets, cap, bytes) = (c.fingerprint_bit_count(), c.entries_per_index(), c.bucket_len(), c.capacity(), bytes(&c));
            let works = guard(|| {
                c.insert(&7);
                c.contains(&7) && c.len() == 1
            });
            ev! {"ev": "cuckoo", "via": via, "n": n, "e": e, "f": f, "m": p.m, "k": p.k, "ok": true, "fb": fb, "entries": entries, "buckets": buckets, "cap": cap, "bytes": bytes, "works": works.unwrap_or(false)}
        }
    }
}

fn quotient_of(q: u8, rb: u8, d: bool, h: SipHasherBuilder) {
    let c = guard(|| if d { QuotientFilter::<u32>::new(q, rb) } else { QuotientFilter::with_hasher(q, rb, h) });
    match c {
        Err(_) => ev! {"ev": "quot", "via": "qr", "q": q as usize, "r": rb as usize, "ok": false},
        Ok(mut c) => {
            let (qb, r2, cap, bytes) = (c.quotient_bits() as usize, c.remainder_bits() as usize, c.capacity(), guard(|| bytes(&c)).unwrap_or(0));
            // known: without overflow checks such a filter loops instead of panicking
            let works = guard(|| {
                if rb > 61 && !cfg!(debug_assertions) {
                    return false;
                }
                c.insert(&7);
                c.insert(&8);
                c.contains(&7) && c.contains(&8)
            });
            ev! {"ev": "quot", "via": "qr", "q": q as usize, "r": rb as usize, "ok": true, "qb": qb, "rb": r2, "cap": cap, "bytes": bytes, "works": works.unwrap_or(false)}
        }
    }
}

fn quotient(r: &mut Rng) {
    let h = sips(r)[0];
    let d = r.chance(1, 3);
    if r.chance(1, 2) {
        let (q, rb) = match r.below(6) {
            0 => (r.below(3) as u8, r.range(58, 66) as u8),
            1 => (r.below(256) as u8, r.below(256) as u8),
            2 => (0, r.below(70) as u8),
            3 => (r.range(1, 20) as u8, 0),
            4 => {
                let q = r.range(1, 18) as u8;
                (q, (66 - q as usize - r.below(4)) as u8)
            }
            _ => (r.range(1, 18) as u8, r.range(1, 46) as u8),
        };
        // legal but larger than the sandbox
        let q = if q > 20 && q as usize + rb as usize <= 64 && rb > 0 { 20 } else { q };
        quotient_of(q, rb, d, h);
    } else {
        let c = if r.chance(1, 10) { 0 } else { count(r, 100_000) };
        let top = if r.chance(1, 3) { 60 } else { 20 };
    let p = P::at_most(r, 0, top);
        let (x, bad) = match r.below(12) {
            0 => (*r.pick(&[0.0, 1.0, -0.25, 1.5, -0.0]), true),
            _ => (p.f(), false),
        };
        let f = guard(|| if d { QuotientFilter::<u32>::from_fpp(c, x) } else { QuotientFilter::from_fpp_with_hasher(c, x, h) });
        match f {
            Err(_) => ev! {"ev": "quot", "via": "cp", "c": c, "m": p.m, "k": p.k, "bad": bad, "ok": false},
            Ok(mut f) => {
                let (qb, r2, cap, bytes) = (f.quotient_bits() as usize, f.remainder_bits() as usize, f.capacity(), bytes(&f));
                let works = guard(|| {
                    f.insert(&7);
                    f.contains(&7)
                });
                ev! {"ev": "quot", "via": "cp", "c": c, "m": p.m, "k": p.k, "bad": bad, "ok": true, "qb": qb, "rb": r2, "cap": cap, "bytes": bytes, "works": works.unwrap_or(false)}
            }
        }
    }
}

macro_rules! sketch_of {
    ($t:ident, $r:expr) => {{
        let via = *$r.pick(&["rc", "ed"]);
        let (rows, cols) = (*$r.pick(&[1usize, 2, 3, 5, 17, 40]), count($r, 3_000));
        let (e, d) = (P::at_most($r, 0, 10), P::at_most($r, 0, 40));
        let (dflt, h) = ($r.chance(1, 3), sips($r));
        let c = guard(|| match (via, dflt) {
            ("rc", true) => CountMinSketch::<$t, u32>::new(rows, cols),
            ("rc", _) => CountMinSketch::<$t, u32>::with_hashers(rows, cols, h),
            (_, true) => CountMinSketch::<$t, u32>::from_error(e.f(), d.f()),
            _ => CountMinSketch::<$t, u32>::from_error_with_hashers(e.f(), d.f(), h),
        });
        match c {
            Err(_) => ev! {"ev": "sketch", "via": via, "r": rows, "c": cols, "m": e.m, "k": e.k, "dm": d.m, "dk": d.k, "ok": false},
            Ok(mut c) => {
                let (r2, c2, bytes) = (c.rows(), c.cols(), bytes(&c));
                let conf = fixed(c.confidence() * c2 as f64, 1e8);
                let err = fixed(c.error().ln() + r2 as f64, 1e9);
                let works = guard(|| {
                    c.insert(&7, 3);
                    c2 == 1 || c.count(&7) == 3
                });
                ev! {"ev": "sketch", "via": via, "r": rows, "c": cols, "m": e.m, "k": e.k, "dm": d.m, "dk": d.k, "ok": true, "rows": r2, "cols": c2, "conf": conf, "err": err, "bytes": bytes, "works": works.unwrap_or(false)}
            }
        }
    }};
}

fn hll(r: &mut Rng) {
    let top = if r.chance(1, 8) { 9 } else { 7 };
    let p = P::at_most(r, 0, top);
    let (x, bad) = match r.below(8) {
        0 => (*r.pick(&[0.0, 1.0, -0.25, 1.5, -0.0, f64::NAN]), true),
        _ => (p.f(), false),
    };
    let (d, h) = (r.chance(1, 3), sips(r)[0]);
    match guard(|| if d { HyperLogLog::<u32>::new(x) } else { HyperLogLog::with_hasher(x, h) }) {
        Err(_) => ev! {"ev": "hll", "m": p.m, "k": p.k, "bad": bad, "ok": false},
        Ok(mut c) => {
            let bytes = bytes(&c);
            let works = guard(|| {
                let e = c.is_empty();
                c.insert(&7);
                e && !c.is_empty()
            });
            let one = guard(|| nano(c.len())).unwrap_or(0);
            ev! {"ev": "hll", "m": p.m, "k": p.k, "bad": bad, "ok": true, "one": one, "bytes": bytes, "works": works.unwrap_or(false)}
        }
    }
}

fn minh(r: &mut Rng) {
    let c = *r.pick(&[1usize, 2, 3, 10, 100, 1000]);
    let (d, h) = (r.chance(1, 3), sips(r));
    let res = guard(|| {
        let m: MinHash<std::vec::IntoIter<u32>, u32> = if d { MinHash::new(c) } else { MinHash::with_hashers(c, h) };
        (m.hasher_count(), m.get_min_hashes(vec![1, 2, 3].into_iter()).len())
    });
    let ok = res.is_ok();
    let (count, hashes) = res.unwrap_or((0, 0));
    ev! {"ev": "minh", "c": c, "ok": ok, "count": count, "hashes": hashes}
}

fn stage(r: &mut Rng) {
    let via = *r.pick(&["bloom", "cuckoo", "entries"]);
    let (n, e) = (count(r, 20_000), r.range(1, 9));
    let p = P::at_most(r, 1, 20);
    let (g, t) = (*r.pick(&[1.5, 2.0, 4.0]), *r.pick(&[0.25, 0.5, 0.9]));
    let (d, h) = (r.chance(1, 3), sips(r));
    let res = guard(|| {
        if via == "bloom" {
            let mut f = if d { ScalableBloomFilter::<u32>::new(n, p.f(), g, t) } else { ScalableBloomFilter::with_hashers(n, p.f(), g, t, h) };
            let (cap, stages) = (f.len(), f.filter_count());
            f.insert(&7);
            (cap, stages, 0, f.contains(&7))
        } else {
            let mut f = match (via, d) {
                ("cuckoo", true) => ScalableCuckooFilter::<u32>::new(n, p.f(), g, t),
                ("cuckoo", _) => ScalableCuckooFilter::with_hashers(n, p.f(), g, t, h),
                (_, true) => ScalableCuckooFilter::from_entries_per_index(n, p.f(), e, g, t),
                _ => ScalableCuckooFilter::from_entries_per_index_with_hashers(n, p.f(), e, g, t, h),
            };
            let (cap, stages, entries) = (f.capacity(), f.filter_count(), f.entries_per_index());
            f.insert(&7);
            (cap, stages, entries, f.contains(&7))
        }
    });
    match res {
        Err(_) => ev! {"ev": "stage", "via": via, "n": n, "e": e, "ok": false},
        Ok((cap, stages, entries, works)) => ev! {"ev": "stage", "via": via, "n": n, "e": e, "ok": true, "cap": cap, "stages": stages, "entries": entries, "works": works},
    }
}

pub fn record(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 24, run as u64);
    ev! {"ev": "run", "run": run};
    if run % 20 == 0 {
        // sums of bit counts around 64 and around a byte
        for (q, rb) in [(1, 61), (1, 62), (2, 62), (1, 63), (3, 61), (2, 63), (1, 64), (64, 1), (200, 57), (200, 100), (255, 1), (255, 2), (8, 250), (255, 255)] {
            let h = sips(&mut r)[0];
            quotient_of(q, rb, r.chance(1, 2), h);
        }
    }
    for i in 0..40 {
        tick();
        match i % 10 {
            0 | 1 => bloom(&mut r),
            2 => part(&mut r),
            3 => match r.below(3) {
                0 => stream_of!(BSBloomFilter, &mut r),
                1 => stream_of!(BSSDBloomFilter, &mut r),
                _ => stream_of!(RLBSBloomFilter, &mut r),
            },
            4 | 5 => cuckoo(&mut r),
            6 | 7 => quotient(&mut r),
            8 => match r.below(4) {
                0 => sketch_of!(CountMinStrategy, &mut r),
                1 => sketch_of!(CountMeanStrategy, &mut r),
                2 => sketch_of!(CountMedianBiasStrategy, &mut r),
                _ => minh(&mut r),
            },
            _ => {
                if r.chance(1, 2) {
                    hll(&mut r)
                } else {
                    stage(&mut r)
                }
            }
        }
    }
}

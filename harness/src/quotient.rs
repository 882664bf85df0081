//! Quotient filters.
use crate::bloom::rep;
use crate::cuckoo::churn;
use crate::util::*;
use crate::{ev, obj};
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::SipHasherBuilder;
use std::hash::{BuildHasher, Hash};

fn obs<T: Hash, B: BuildHasher>(f: &QuotientFilter<T, B>, keys: &[T]) -> Option<Raw> {
    must("query", || {
        obj! {"len": f.len(), "empty": f.is_empty(), "cap": f.capacity(), "q": f.quotient_bits(), "r": f.remainder_bits(),
        "fpp": nano(f.estimated_fpp()), "rep": rep(keys, |x| f.contains(x))}
    })
}
fn run_ops<T: Hash, B: BuildHasher>(run: usize, keys: &[T], hs: &[u64], mk: &dyn Fn() -> QuotientFilter<T, B>, ops: &mut dyn FnMut(usize) -> Option<i64>) {
    ev! {"ev": "run", "run": run};
    let mut f = match must("construct", mk) {
        Some(f) => f,
        None => return,
    };
    match obs(&f, keys) {
        Some(o) => ev! {"ev": "new", "keys": hs.iter().map(|h| W(*h)).collect::<Vec<_>>(), "o": o},
        None => return,
    }
    let mut len = 0;
    while let Some(op) = ops(len) {
        let x = op.unsigned_abs() as usize;
        let mut fine = true;
        if op > 0 {
            fine = guard(|| f.insert(&keys[x - 1])).is_ok();
        } else if must("update", || if op == 0 { f.clear() } else { f.remove(&keys[x - 1]) }).is_none() {
            return;
        }
        let o = match obs(&f, keys) {
            Some(o) => o,
            None => return,
        };
        len = f.len();
        match op {
            0 => ev! {"ev": "clr", "o": o},
            p if p > 0 => ev! {"ev": "ins", "x": x, "ok": fine, "o": o},
            _ => ev! {"ev": "rem", "x": x, "o": o},
        }
    }
}

pub fn record(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 5, run as u64);
    let class = r.below(12);
    let mut fpp = None;
    let (q, rb, n, nops) = match class {
        0..=2 => (r.range(1, 3), r.range(1, 3), 0, 150),
        3..=5 => (r.range(2, 4), *r.pick(&[1usize, 2, 3, 8, 29, 40]), 0, 200),
        6 | 7 => (r.range(3, 5), *r.pick(&[1usize, 2, 4, 12, 13, 16, 32, 58]), 40, 200),
        8 => (r.range(5, 8), *r.pick(&[1usize, 2, 5, 28, 51]), 40, 200),
        9 => (*r.pick(&[1usize, 2, 3]), 61, 24, 100),
        10 => (*r.pick(&[10usize, 14, 16, 17]), *r.pick(&[1usize, 4, 24, 44]), 30, 120),
        _ => {
            fpp = Some((r.range(1, 60), *r.pick(&[0.5, 0.1, 0.01, 1e-4, 1e-9])));
            (0, 0, 60, 150)
        }
    };
    let probe = fpp.and_then(|(c, p)| must("construct", || QuotientFilter::<u64>::from_fpp(c, p)));
    if fpp.is_some() && probe.is_none() {
        return;
    }
    let (q, rb) = match &probe {
        Some(f) => (f.quotient_bits() as usize, f.remainder_bits() as usize),
        None => (q, rb),
    };
    let cap = 1usize << q;
    let n = if n == 0 { cap * 2 + r.range(2, 8) } else { n.min(cap * 2 + 6).max(4) };
    // clusters that wrap around, few quotients, few remainders
    let qspan = *r.pick(&[1usize, 2, 3, cap]);
    let qbase = if r.chance(1, 2) { cap - 1 } else { r.below(cap) };
    let rspan = *r.pick(&[2u64, 4, 1 << 16, u64::MAX]);
    let sipmode = class >= 10 && r.chance(1, 2);
    let mut hs: Vec<u64> = Vec::new();
    for _ in 0..n {
        let qq = ((qbase + r.below(qspan.min(cap))) % cap) as u64;
        let rr = match r.below(4) {
            0 => u64::MAX,
            1 => r.u64(),
            _ => r.u64() % rspan,
        };
        let rmask = (1u64 << rb) - 1;
        let top = if q + rb < 64 { (if r.chance(1, 2) { r.u64() } else { 0 }) << (q + rb) } else { 0 };
        hs.push(top | (qq << rb) | (rr & rmask));
    }
    if !sipmode {
        let salt = r.u64();
        let keys: Vec<Key> = hs.iter().enumerate().map(|(i, h)| Key { a: *h, b: i as u64 }).collect();
        let hb = picks(salt)[0];
        match fpp {
            Some((c, p)) => run_ops(run, &keys, &hs, &|| QuotientFilter::from_fpp_with_hasher(c, p, hb), &mut churn(&mut r, n, nops)),
            None => run_ops(run, &keys, &hs, &|| QuotientFilter::with_hasher(q as u8, rb as u8, hb), &mut churn(&mut r, n, nops)),
        }
    } else {
        let (k0, k1) = (r.u64(), r.u64());
        let keys: Vec<String> = (0..n).map(|i| format!("{}_{}", r.below(100), i)).collect();
        let hs: Vec<u64> = keys.iter().map(|s| sip(k0, k1, s)).collect();
        let hb = SipHasherBuilder::from_seed(k0, k1);
        match fpp {
            Some((c, p)) => run_ops(run, &keys, &hs, &|| QuotientFilter::from_fpp_with_hasher(c, p, hb), &mut churn(&mut r, n, nops)),
            None => run_ops(run, &keys, &hs, &|| QuotientFilter::with_hasher(q as u8, rb as u8, hb), &mut churn(&mut r, n, nops)),
        }
    }
}

/// Header: quotient bits, remainder bits; key i is fingerprint i-1; operations as in `churn`.
pub fn replay(run: usize, header: &[i64], ops: &[Vec<i64>]) {
    let (q, rb) = (header[0] as u8, header[1] as u8);
    let n = 1u64 << (q + rb);
    let mut r = Rng::new(header[2] as u64, 0, 0);
    let hs: Vec<u64> = (0..n).map(|i| i | (r.u64() << (q + rb))).collect();
    let keys: Vec<Key> = hs.iter().enumerate().map(|(i, h)| Key { a: *h, b: i as u64 }).collect();
    let mut it = ops.iter();
    run_ops(run, &keys, &hs, &|| QuotientFilter::with_hasher(q, rb, picks(1)[0]), &mut |_| it.next().map(|o| o[0]));
}

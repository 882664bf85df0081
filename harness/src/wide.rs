//! Collections with more than 2^32 bits, slots or buckets; their memory is never touched except where they store.
use crate::bloom::rep;
use crate::util::*;
use crate::{ev, obj};
use probabilistic_collections::bloom::*;
use probabilistic_collections::cuckoo::CuckooFilter;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::verif_hooks::{set_entropy, BitVec, BitstringVec};

const TWO32: u64 = 1 << 32;

/// Whether this machine lends the address space; without it there is nothing to run.
fn room() -> bool {
    let mut v: Vec<u8> = Vec::new();
    v.try_reserve_exact(5usize << 30).is_ok()
}

fn wpairs(ws: &[(u64, u64)]) -> Vec<(W, W)> {
    ws.iter().map(|w| (W(w.0), W(w.1))).collect()
}

/// Words that differ from each other in few bits, mostly high ones.
fn close(r: &mut Rng, n: usize, bits: &[u32]) -> Vec<u64> {
    let mut out = vec![r.u64()];
    while out.len() < n {
        let w = out[r.below(out.len())];
        out.push(match r.below(4) {
            0 => w ^ (1u64 << bits[r.below(bits.len())]),
            1 => w.wrapping_add(TWO32),
            2 => w.wrapping_add(1),
            _ => r.u64(),
        });
    }
    out
}

fn vector(r: &mut Rng) {
    let n = (2 * TWO32 + r.below(20) as u64) as usize;
    let mut v = match must("new", || BitVec::new(n)) {
        Some(v) => v,
        None => return,
    };
    ev! {"ev": "wvec", "kind": "bits", "n": W(n as u64), "width": 1};
    let mut at: Vec<u64> = close(r, 10, &[31, 32, 33]).into_iter().map(|w| w % n as u64).collect();
    at.extend([0, TWO32, n as u64 - 1, n as u64 - 1 - TWO32, n as u64]);
    let mut len = n;
    for step in 0..40 {
        let i = at[r.below(at.len())];
        let what = if step == 25 { 3 } else { r.below(3) };
        let (op, b) = match what {
            0 | 1 => ("put", r.chance(2, 3)),
            2 => ("flip", false),
            _ => ("cut", false),
        };
        let ok = guard(|| match what {
            0 | 1 => v.set(i as usize, b),
            2 => v.flip(i as usize),
            _ => {
                len = TWO32 as usize + r.below(50);
                v.truncate(len)
            }
        })
        .is_ok();
        let seen = must("query", || at.iter().map(|i| (W(*i), v.get(*i as usize).map_or(-1, i32::from))).collect::<Vec<_>>());
        let seen = match seen {
            Some(s) => s,
            None => return,
        };
        ev! {"ev": "wput", "op": op, "i": W(if what == 3 { len as u64 } else { i }), "x": W(u64::from(b)), "ok": ok,
        "o": obj! {"seen": seen, "len": W(v.len() as u64), "occ": v.count_ones(), "zeros": W(v.count_zeros() as u64)}};
    }
}

fn strings(r: &mut Rng) {
    let (width, n) = *r.pick(&[(33usize, 1usize << 28), (3, TWO32 as usize + 7), (64, (1 << 27) + 3), (7, 1_300_000_000)]);
    let mut v = match must("new", || BitstringVec::new(width, n)) {
        Some(v) => v,
        None => return,
    };
    ev! {"ev": "wvec", "kind": "strs", "n": W(n as u64), "width": width};
    let turn = TWO32 / width as u64;
    let mut at: Vec<u64> = close(r, 8, &[31, 32, 26, 27]).into_iter().map(|w| w % n as u64).collect();
    at.extend([0, turn, turn + 1, n as u64 - 1, n as u64]);
    for _ in 0..40 {
        let i = at[r.below(at.len())];
        let x = if r.chance(1, 4) { 0 } else { r.word() >> (64 - width) };
        let ok = guard(|| v.set(i as usize, x)).is_ok();
        let seen = must("query", || at.iter().filter(|i| **i < n as u64).map(|i| (W(*i), W(v.get(*i as usize)))).collect::<Vec<_>>());
        let seen = match seen {
            Some(s) => s,
            None => return,
        };
        ev! {"ev": "wput", "op": "put", "i": W(i), "x": W(x), "ok": ok,
        "o": obj! {"seen": seen, "len": W(v.len() as u64), "occ": v.occupied_len(), "zeros": W(0)}};
    }
}

trait Filter {
    fn ins(&mut self, x: &Key);
    fn has(&self, x: &Key) -> bool;
    fn state(&self) -> (usize, usize, usize);
}
macro_rules! filter {
    ($($t:ident $w:expr;)*) => { $( impl Filter for $t<Key, Pick> {
        fn ins(&mut self, x: &Key) { self.insert(x) }
        fn has(&self, x: &Key) -> bool { self.contains(x) }
        fn state(&self) -> (usize, usize, usize) { (self.len(), self.count_ones(), $w(self)) }
    } )* };
}
filter! { BloomFilter |_: &Self| 0; PartitionedBloomFilter |f: &Self| f.bit_count(); ScalableBloomFilter |_: &Self| 0;
BSBloomFilter |f: &Self| f.bit_count(); BSSDBloomFilter |f: &Self| f.bit_count(); RLBSBloomFilter |f: &Self| f.bit_count(); }

fn filter<F: Filter>(r: &mut Rng, kind: &str, f: F, k: usize) {
    let mut f = f;
    let a = close(r, 14, &[31, 32, 33]);
    let b = r.u64();
    let ws: Vec<(u64, u64)> = a.iter().map(|a| (*a, if r.chance(1, 4) { r.u64() } else { b })).collect();
    let keys: Vec<Key> = ws.iter().map(|w| Key { a: w.0, b: w.1 }).collect();
    let (len, _, w) = f.state();
    ev! {"ev": "wset", "kind": kind, "len": W(len as u64), "w": W(w as u64), "k": k, "keys": wpairs(&ws)};
    for _ in 0..10 {
        let x = r.below(keys.len());
        let o = must("insert", || {
            f.ins(&keys[x]);
            let (len, ones, _) = f.state();
            obj! {"rep": rep(&keys, |x| f.has(x)), "ones": ones, "len": W(len as u64)}
        });
        match o {
            Some(o) => ev! {"ev": "wins", "x": x + 1, "o": o},
            None => return,
        }
    }
}

fn table(r: &mut Rng, kind: &str, q: usize, fb: usize, ws: &[(u64, u64)], salt: u64, keys: &[Key], step: &mut dyn FnMut(i64) -> Option<(usize, Vec<usize>)>) {
    ev! {"ev": "wtab", "kind": kind, "q": q, "fb": fb, "keys": wpairs(ws),
    "hf": ws.iter().map(|w| W(one_word(1, salt, w.0 << (64 - fb) >> (64 - fb)))).collect::<Vec<_>>()};
    for _ in 0..60 {
        let x = r.range(1, keys.len()) as i64;
        let x = if r.chance(1, 3) { -x } else { x };
        let o = must("update", || step(x)).flatten();
        match o {
            Some((len, rep)) => ev! {"ev": if x > 0 { "tins" } else { "trem" }, "x": x.abs(), "o": obj! {"len": len, "rep": rep}},
            None => return,
        }
    }
}
fn quotient(r: &mut Rng) {
    let (q, fb) = *r.pick(&[(32usize, 2usize), (33, 1), (31, 3)]);
    let ws: Vec<(u64, u64)> = close(r, 14, &[31, 32, 33, 34, 35]).into_iter().map(|w| (w, 0)).collect();
    let keys: Vec<Key> = ws.iter().map(|w| Key { a: w.0, b: w.1 }).collect();
    let salt = r.u64();
    let f = must("construct", || QuotientFilter::<Key, Pick>::with_hasher(q as u8, fb as u8, picks(salt)[0]));
    let mut f = match f {
        Some(f) => f,
        None => return,
    };
    table(r, "quotient", q, fb, &ws, salt, &keys, &mut |x| {
        let k = &keys[x.unsigned_abs() as usize - 1];
        if x > 0 {
            f.insert(k)
        } else {
            f.remove(k)
        }
        Some((f.len(), rep(&keys, |x| f.contains(x))))
    });
}
fn cuckoo(r: &mut Rng) {
    set_entropy(r.u64());
    let (q, fb, e) = *r.pick(&[(32usize, 4usize, 1usize), (33, 2, 1), (31, 4, 2), (33, 3, 1)]);
    let b = close(r, 14, &[31, 32, 33]);
    // the first hash decides the fingerprint and must not need rehashing
    let ws: Vec<(u64, u64)> = b.iter().map(|b| (r.u64() << fb | (1 + r.below((1 << fb) - 1)) as u64, *b)).collect();
    let keys: Vec<Key> = ws.iter().map(|w| Key { a: w.0, b: w.1 }).collect();
    let salt = r.u64();
    let f = must("construct", || CuckooFilter::<Key, Pick>::from_parameters_with_hashers((1usize << q) * e, fb, e, picks(salt)));
    let mut f = match f {
        Some(f) => f,
        None => return,
    };
    if f.bucket_len() != 1 << q {
        ev! {"ev": "panic", "op": "bucket_len", "msg": ""};
        return;
    }
    table(r, "cuckoo", q, fb, &ws, salt, &keys, &mut |x| {
        let k = &keys[x.unsigned_abs() as usize - 1];
        if x > 0 {
            f.insert(k)
        } else {
            f.remove(k)
        }
        Some((f.len() + f.extra_items_len(), rep(&keys, |x| f.contains(x))))
    });
}

pub fn record(what: &str, seed: u64, run: usize) {
    let mut r = Rng::new(seed, 27, run as u64);
    ev! {"ev": "run", "run": run};
    if !room() {
        return;
    }
    let hb = picks(r.u64());
    let n = (*r.pick(&[2 * TWO32, 2 * TWO32 + 12345, TWO32 + 1, 3 << 31]) + r.below(3) as u64) as usize;
    let half = (TWO32 + r.below(1000) as u64) as usize;
    match what {
        "wbits" => vector(&mut r),
        "wstrs" => strings(&mut r),
        "wquotient" => quotient(&mut r),
        "wcuckoo" => cuckoo(&mut r),
        "wbloom" => {
            if r.chance(1, 2) {
                let p = *r.pick(&[0.3, 0.1, 0.01]);
                if let Some(f) = must("construct", || BloomFilter::from_fpp_with_hashers(n, p, hb)) {
                    let k = f.hasher_count();
                    filter(&mut r, "bloom", f, k);
                }
            } else {
                let p = *r.pick(&[0.2, 0.1]);
                if let Some(f) = must("construct", || PartitionedBloomFilter::from_bit_count_with_hashers(half, p, hb)) {
                    let k = f.hasher_count();
                    filter(&mut r, "part", f, k);
                }
            }
        }
        "wsbloom" => {
            // the first stage is a plain filter with the same parameters
            let k = BloomFilter::<Key, Pick>::from_fpp_with_hashers(n, 0.1, hb).hasher_count();
            if let Some(f) = must("construct", || ScalableBloomFilter::with_hashers(n, 0.1, 2.0, 0.5, hb)) {
                filter(&mut r, "bloom", f, k);
            }
        }
        _ => {
            set_entropy(r.u64());
            let p = 0.7;
            match run % 3 {
                0 => {
                    if let Some(f) = must("construct", || BSBloomFilter::with_hashers(half, p, hb)) {
                        let k = f.hasher_count();
                        filter(&mut r, "part", f, k);
                    }
                }
                1 => {
                    if let Some(f) = must("construct", || BSSDBloomFilter::with_hashers(half, p, hb)) {
                        let k = f.hasher_count();
                        filter(&mut r, "part", f, k);
                    }
                }
                _ => {
                    if let Some(f) = must("construct", || RLBSBloomFilter::with_hashers(half, p, hb)) {
                        let k = f.hasher_count();
                        filter(&mut r, "part", f, k);
                    }
                }
            }
        }
    }
}

//! Large populations: elements come and go by the thousand.
use crate::util::*;
use crate::{ev, obj};
use probabilistic_collections::cuckoo::{CuckooFilter, ScalableCuckooFilter};
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::verif_hooks::{set_entropy, BitVec, BitstringVec};
use std::cell::RefCell;

trait Big {
    fn put(&mut self, i: usize);
    fn take(&mut self, i: usize);
    fn clr(&mut self);
    fn has(&self, i: usize) -> bool;
    fn o(&self) -> (usize, usize, usize, usize, bool, bool); // len extra cap zeros empty near
}
/// Element i of a filter is the item with these hashes: distinct in the low bits.
#[derive(Clone, Copy)]
struct Names {
    base: u64,
    step: u64,
    salt: u64,
}
impl Names {
    fn key(&self, i: usize) -> Key {
        Key { a: self.base.wrapping_add(self.step.wrapping_mul(i as u64)), b: one_word(7, self.salt, i as u64) }
    }
}
struct Q(QuotientFilter<Key, Pick>, Names);
impl Big for Q {
    fn put(&mut self, i: usize) {
        self.0.insert(&self.1.key(i))
    }
    fn take(&mut self, i: usize) {
        self.0.remove(&self.1.key(i))
    }
    fn clr(&mut self) {
        self.0.clear()
    }
    fn has(&self, i: usize) -> bool {
        self.0.contains(&self.1.key(i))
    }
    fn o(&self) -> (usize, usize, usize, usize, bool, bool) {
        (self.0.len(), 0, self.0.capacity(), 0, self.0.is_empty(), false)
    }
}
struct C(CuckooFilter<Key, Pick>, Names);
impl Big for C {
    fn put(&mut self, i: usize) {
        self.0.insert(&self.1.key(i))
    }
    fn take(&mut self, i: usize) {
        self.0.remove(&self.1.key(i))
    }
    fn clr(&mut self) {
        self.0.clear()
    }
    fn has(&self, i: usize) -> bool {
        self.0.contains(&self.1.key(i))
    }
    fn o(&self) -> (usize, usize, usize, usize, bool, bool) {
        (self.0.len(), self.0.extra_items_len(), self.0.capacity(), 0, self.0.is_empty(), self.0.is_nearly_full())
    }
}
struct S(RefCell<ScalableCuckooFilter<Key, Pick>>, Names);
impl Big for S {
    fn put(&mut self, i: usize) {
        self.0.borrow_mut().insert(&self.1.key(i))
    }
    fn take(&mut self, i: usize) {
        self.0.borrow_mut().remove(&self.1.key(i))
    }
    fn clr(&mut self) {
        self.0.borrow_mut().clear()
    }
    fn has(&self, i: usize) -> bool {
        self.0.borrow_mut().contains(&self.1.key(i))
    }
    fn o(&self) -> (usize, usize, usize, usize, bool, bool) {
        let f = self.0.borrow();
        (f.len(), 0, f.capacity(), 0, f.is_empty(), false)
    }
}
struct B(BitVec);
impl Big for B {
    fn put(&mut self, i: usize) {
        self.0.set(i, true)
    }
    fn take(&mut self, i: usize) {
        self.0.set(i, false)
    }
    fn clr(&mut self) {
        self.0.set_all(false)
    }
    fn has(&self, i: usize) -> bool {
        self.0.get(i).unwrap_or(false)
    }
    fn o(&self) -> (usize, usize, usize, usize, bool, bool) {
        let n = self.0.count_ones();
        (n, 0, self.0.len(), self.0.count_zeros(), n == 0, false)
    }
}
struct V(BitstringVec, u64);
impl Big for V {
    fn put(&mut self, i: usize) {
        self.0.set(i, self.1)
    }
    fn take(&mut self, i: usize) {
        self.0.set(i, 0)
    }
    fn clr(&mut self) {
        self.0.clear()
    }
    fn has(&self, i: usize) -> bool {
        self.0.get(i) == self.1
    }
    fn o(&self) -> (usize, usize, usize, usize, bool, bool) {
        let n = self.0.occupied_len();
        (n, 0, self.0.len(), self.0.len() - n, n == 0, false)
    }
}

fn history<F: Big>(r: &mut Rng, kind: &str, bits: usize, chunk: usize, chunks: usize, f: Option<F>) {
    let mut f = match f {
        Some(f) => f,
        None => return,
    };
    // borders of chunks, and elements that never come
    let places = if kind == "bits" || kind == "strs" { f.o().2 } else { (1usize << bits).min(1 << 30) };
    let mut at: Vec<usize> = (0..14).map(|_| r.below(chunk * chunks)).collect();
    at.extend((0..6).map(|_| r.below(chunks) * chunk));
    at.extend((0..6).map(|_| (1 + r.below(chunks)) * chunk - 1));
    at.extend((0..10).map(|_| r.below(places)));
    let obs = |f: &F| {
        must("query", || {
            let (len, extra, cap, zeros, empty, near) = f.o();
            obj! {"len": len, "extra": extra, "cap": cap, "zeros": zeros, "empty": empty, "near": near,
            "has": at.iter().map(|i| f.has(*i)).collect::<Vec<_>>()}
        })
    };
    let o = match obs(&f) {
        Some(o) => o,
        None => return,
    };
    ev! {"ev": "mnew", "kind": kind, "cap": f.o().2, "bits": bits.min(30), "chunk": chunk, "chunks": chunks, "at": &at, "o": o};
    let mut order: Vec<usize> = (0..chunks).collect();
    for i in (1..chunks).rev() {
        order.swap(i, r.below(i + 1));
    }
    let mut steps: Vec<(u8, usize)> = order.iter().map(|c| (0, *c)).collect();
    for _ in 0..chunks / 2 {
        steps.push((r.below(2) as u8, r.below(chunks)));
    }
    if r.chance(1, 3) {
        steps.push((2, 0));
        steps.extend(order.iter().take(chunks / 3).map(|c| (0, *c)));
    }
    steps.extend(order.iter().map(|c| (1, *c)));
    for (what, c) in steps {
        let range = c * chunk..(c + 1) * chunk;
        let ok = match what {
            0 => must("insert", || range.for_each(|i| f.put(i))),
            1 => must("remove", || range.for_each(|i| f.take(i))),
            _ => must("clear", || f.clr()),
        };
        if ok.is_none() {
            return;
        }
        match obs(&f) {
            Some(o) => match what {
                2 => ev! {"ev": "mclear", "o": o},
                _ => ev! {"ev": if what == 0 { "mput" } else { "mtake" }, "c": c, "o": o},
            },
            None => return,
        }
    }
}

pub fn record(what: &str, seed: u64, run: usize) {
    let mut r = Rng::new(seed, 31, run as u64);
    ev! {"ev": "run", "run": run};
    set_entropy(r.u64());
    let hb = picks(r.u64());
    let step = r.u64() | 1;
    let mut names = Names { base: r.u64(), step: if r.chance(1, 3) { 1 } else { step }, salt: r.u64() };
    let chunks = r.range(12, 30);
    match what {
        "mquotient" => {
            let long = run % 2 == 1;
            let (q, rem) = if long { (r.range(9, 12), r.range(11, 24)) } else { (r.range(12, 18), r.range(1, 24)) };
            names.step = if !long {
                // scattered, for long clusters are slow
                step | 1 << (q + rem - 2)
            } else if r.chance(1, 2) {
                // clusters of hundreds of short runs
                (1u64 << rem) * r.range(85, 99) as u64 / 100 | 1
            } else {
                // runs of hundreds of items
                (1u64 << rem) / r.range(20, 600) as u64 | 1
            };
            // room for all, and never so full that clusters join up, unless they are to be long
            let fill = if long { r.range(80, 101) } else { r.range(50, 93) };
            let chunk = (((1usize << q) as f64 * fill as f64 / 100.0) as usize / chunks).max(1);
            let f = must("construct", || QuotientFilter::<Key, Pick>::with_hasher(q as u8, rem as u8, hb[0]));
            history(&mut r, "quotient", q + rem, chunk, chunks, f.map(|f| Q(f, names)));
        }
        "mcuckoo" => {
            let (q, e) = if r.chance(1, 4) { (r.range(3, 7), r.range(16, 400)) } else { (r.range(10, 16), r.range(1, 5)) };
            let chunk = (((1usize << q) * e) as f64 * r.range(40, 103) as f64 / 100.0) as usize / chunks;
            let fb = r.range(20, 40);
            // no all-zero fingerprint
            names.base = names.base << fb | 1;
            names.step = 1;
            let f = must("construct", || CuckooFilter::<Key, Pick>::from_parameters_with_hashers((1usize << q) * e, fb, e, hb));
            history(&mut r, "cuckoo", 19, chunk, chunks, f.map(|f| C(f, names)));
        }
        "mscuckoo" => {
            let n = r.range(100, 20000);
            let chunk = r.range(1000, 4000);
            names.base = names.base << 20 | 1;
            names.step = 1;
            let f = must("construct", || {
                ScalableCuckooFilter::<Key, Pick>::from_entries_per_index_with_hashers(n, 0.5f64.powi(20), r.clone().range(1, 4), 2.0, 0.9, hb)
            });
            history(&mut r, "scuckoo", 19, chunk, chunks, f.map(|f| S(RefCell::new(f), names)));
        }
        "mbits" => {
            let chunk = r.range(2000, 20000);
            let n = chunk * chunks + r.below(50);
            history(&mut r, "bits", 30, chunk, chunks, must("construct", || B(BitVec::new(n))));
        }
        _ => {
            let chunk = r.range(2000, 8000);
            let n = chunk * chunks + r.below(50);
            let width = r.range(1, 64);
            let x = (r.u64() | 1 << 63) >> (64 - width);
            history(&mut r, "strs", 30, chunk, chunks, must("construct", || V(BitstringVec::new(width, n), x)));
        }
    }
}

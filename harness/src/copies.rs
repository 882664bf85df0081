//! Every collection as a value that only its history determines: clones, round trips, equal twins.
use crate::util::*;
use crate::{ev, obj};
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::{MinHash, SimHash};
use probabilistic_collections::verif_hooks::{set_entropy, BitVec, BitstringVec};
use probabilistic_collections::SipHasherBuilder;
use std::fmt::Write as _;
use std::hash::{BuildHasher, Hasher};

const ENTROPY: u64 = 0x1234_5678_9abc_def1;
type S = SipHasherBuilder;

/// Constructor arguments; each collection reads what it needs.
#[derive(Clone, Debug)]
pub struct Args {
    how: usize,
    n: usize,
    m: usize,
    p: f64,
    g: f64,
}
#[derive(Clone, Debug)]
pub enum Op {
    Ins(usize, i64),
    Rem(usize, i64),
    Clr,
    Grow(usize),
    Other(usize, u64),
}
pub fn name(o: &Op) -> String {
    match o {
        Op::Ins(x, v) => format!("ins {} {}", x, v),
        Op::Rem(x, v) => format!("rem {} {}", x, v),
        Op::Clr => "clr".into(),
        Op::Grow(n) => format!("grow {}", n),
        Op::Other(i, v) => format!("set {} {}", i, v),
    }
}

pub trait Coll: Sized + Clone + Wire {
    const KIND: &'static str;
    /// A copy made by a round trip makes its own random choices.
    const RANDOM: bool = false;
    const REMOVES: bool = false;
    const SINGLE: bool = false;
    fn make(a: &Args, hb: [S; 2]) -> Self;
    /// The constructor that draws its own hash builders.
    fn fresh(a: &Args) -> Option<Self>;
    fn exposed(&self) -> [S; 2];
    fn op(&mut self, o: &Op, keys: &[String], form: usize);
    fn merge(&mut self, _o: &Self) -> bool {
        false
    }
    fn digest(&mut self, keys: &[String], form: usize) -> String;
    fn same(&self, _o: &Self) -> Option<bool> {
        None
    }
}

fn flags(v: impl Iterator<Item = bool>) -> String {
    v.map(|b| if b { '1' } else { '0' }).collect()
}
/// `$call` with the item owned, borrowed, or borrowed from the middle of a longer string.
macro_rules! form {
    ($form:expr, $x:expr, $y:ident => $call:expr) => {{
        let x: &String = $x;
        match $form % 3 {
            0 => {
                let $y: &String = x;
                $call
            }
            1 => {
                let $y: &str = x.as_str();
                $call
            }
            _ => {
                let long = format!("{}{}{}", x, x, x);
                let $y: &str = &long[x.len()..2 * x.len()];
                $call
            }
        }
    }};
}
macro_rules! ops {
    (plain) => {
        fn op(&mut self, o: &Op, keys: &[String], form: usize) {
            match o {
                Op::Ins(x, _) => form!(form, &keys[*x], y => self.insert(y)),
                Op::Clr => self.clear(),
                _ => {}
            }
        }
    };
    (removes) => {
        fn op(&mut self, o: &Op, keys: &[String], form: usize) {
            match o {
                Op::Ins(x, _) => form!(form, &keys[*x], y => self.insert(y)),
                Op::Rem(x, _) => form!(form, &keys[*x], y => self.remove(y)),
                Op::Clr => self.clear(),
                _ => {}
            }
        }
    };
}
macro_rules! rep {
    ($f:expr, $keys:expr, $form:expr) => {
        flags($keys.iter().map(|k| form!($form, k, y => $f.contains(y))))
    };
}

impl Coll for BloomFilter<String> {
    const KIND: &'static str = "bloom";
    fn make(a: &Args, hb: [S; 2]) -> Self {
        match a.how % 3 {
            0 => Self::with_hashers(a.n, a.p, hb),
            1 => Self::from_item_count_with_hashers(a.m, a.n, hb),
            _ => Self::from_fpp_with_hashers(a.m, a.p, hb),
        }
    }
    fn fresh(a: &Args) -> Option<Self> {
        Some(match a.how % 3 {
            0 => Self::new(a.n, a.p),
            1 => Self::from_item_count(a.m, a.n),
            _ => Self::from_fpp(a.m, a.p),
        })
    }
    fn exposed(&self) -> [S; 2] {
        *self.hashers()
    }
    ops!(plain);
    fn digest(&mut self, keys: &[String], form: usize) -> String {
        format!(
            "{} {} {} {} {} {} {}",
            self.len(),
            self.is_empty(),
            self.hasher_count(),
            self.count_ones(),
            self.count_zeros(),
            bits(self.estimated_fpp()),
            rep!(self, keys, form)
        )
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
}
impl Coll for PartitionedBloomFilter<String> {
    const KIND: &'static str = "part";
    fn make(a: &Args, hb: [S; 2]) -> Self {
        match a.how % 2 {
            0 => Self::from_item_count_with_hashers(a.n, a.p, hb),
            _ => Self::from_bit_count_with_hashers(a.m, a.p, hb),
        }
    }
    fn fresh(a: &Args) -> Option<Self> {
        Some(match a.how % 2 {
            0 => Self::from_item_count(a.n, a.p),
            _ => Self::from_bit_count(a.m, a.p),
        })
    }
    fn exposed(&self) -> [S; 2] {
        *self.hashers()
    }
    ops!(plain);
    fn digest(&mut self, keys: &[String], form: usize) -> String {
        format!(
            "{} {} {} {} {} {} {} {}",
            self.len(),
            self.is_empty(),
            self.bit_count(),
            self.hasher_count(),
            self.count_ones(),
            self.count_zeros(),
            bits(self.estimated_fpp()),
            rep!(self, keys, form)
        )
    }
}
impl Coll for ScalableBloomFilter<String> {
    const KIND: &'static str = "sbloom";
    fn make(a: &Args, hb: [S; 2]) -> Self {
        Self::with_hashers(a.m.min(40), a.p, a.g, 0.5 + a.p / 4.0, hb)
    }
    fn fresh(a: &Args) -> Option<Self> {
        Some(Self::new(a.m.min(40), a.p, a.g, 0.5 + a.p / 4.0))
    }
    fn exposed(&self) -> [S; 2] {
        *self.hashers()
    }
    ops!(plain);
    fn digest(&mut self, keys: &[String], form: usize) -> String {
        format!(
            "{} {} {} {} {} {} {}",
            self.len(),
            self.is_empty(),
            self.filter_count(),
            self.count_ones(),
            self.count_zeros(),
            bits(self.estimated_fpp()),
            rep!(self, keys, form)
        )
    }
}
macro_rules! stream {
    ($($t:ident $k:literal),*) => { $(
        impl Coll for $t<String> {
            const KIND: &'static str = $k;
            const RANDOM: bool = true;
            fn make(a: &Args, hb: [S; 2]) -> Self {
                Self::with_hashers(a.m, a.p, hb)
            }
            fn fresh(a: &Args) -> Option<Self> {
                Some(Self::new(a.m, a.p))
            }
            fn exposed(&self) -> [S; 2] {
                *self.hashers()
            }
            ops!(plain);
            fn digest(&mut self, keys: &[String], form: usize) -> String {
                format!("{} {} {} {} {} {} {}", self.len(), self.is_empty(), self.bit_count(), self.hasher_count(),
                    self.count_ones(), self.count_zeros(), rep!(self, keys, form))
            }
        }
    )* };
}
stream!(BSBloomFilter "bs", BSSDBloomFilter "bssd", RLBSBloomFilter "rlbs");

impl Coll for CuckooFilter<String> {
    const KIND: &'static str = "cuckoo";
    const RANDOM: bool = true;
    const REMOVES: bool = true;
    fn make(a: &Args, hb: [S; 2]) -> Self {
        match a.how % 4 {
            0 => Self::with_hashers(a.n, hb),
            1 => Self::from_parameters_with_hashers(a.n, 1 + a.m % 64, 1 + a.how / 4 % 4, hb),
            2 => Self::from_entries_per_index_with_hashers(a.n, a.p, 1 + a.how / 4 % 4, hb),
            _ => Self::from_fingerprint_bit_count_with_hashers(a.n, a.p, 9, hb),
        }
    }
    fn fresh(a: &Args) -> Option<Self> {
        Some(match a.how % 4 {
            0 => Self::new(a.n),
            1 => Self::from_parameters(a.n, 1 + a.m % 64, 1 + a.how / 4 % 4),
            2 => Self::from_entries_per_index(a.n, a.p, 1 + a.how / 4 % 4),
            _ => Self::from_fingerprint_bit_count(a.n, a.p, 9),
        })
    }
    fn exposed(&self) -> [S; 2] {
        *self.hashers()
    }
    ops!(removes);
    fn digest(&mut self, keys: &[String], form: usize) -> String {
        format!(
            "{} {} {} {} {} {} {} {} {} {}",
            self.len(),
            self.is_empty(),
            self.capacity(),
            self.bucket_len(),
            self.entries_per_index(),
            self.extra_items_len(),
            self.is_nearly_full(),
            self.fingerprint_bit_count(),
            bits(self.estimated_fpp()),
            rep!(self, keys, form)
        )
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
}
impl Coll for ScalableCuckooFilter<String> {
    const KIND: &'static str = "scuckoo";
    const RANDOM: bool = true;
    const REMOVES: bool = true;
    fn make(a: &Args, hb: [S; 2]) -> Self {
        match a.how % 2 {
            0 => Self::with_hashers(a.n.min(20), a.p, a.g, 0.5 + a.p / 4.0, hb),
            _ => Self::from_entries_per_index_with_hashers(a.n.min(20), a.p, 1 + a.how / 4 % 4, a.g, 0.5 + a.p / 4.0, hb),
        }
    }
    fn fresh(a: &Args) -> Option<Self> {
        Some(match a.how % 2 {
            0 => Self::new(a.n.min(20), a.p, a.g, 0.5 + a.p / 4.0),
            _ => Self::from_entries_per_index(a.n.min(20), a.p, 1 + a.how / 4 % 4, a.g, 0.5 + a.p / 4.0),
        })
    }
    fn exposed(&self) -> [S; 2] {
        *self.hashers()
    }
    ops!(removes);
    fn digest(&mut self, keys: &[String], form: usize) -> String {
        format!(
            "{} {} {} {} {} {} {}",
            self.len(),
            self.is_empty(),
            self.capacity(),
            self.entries_per_index(),
            self.filter_count(),
            bits(self.estimated_fpp()),
            rep!(self, keys, form)
        )
    }
}
impl Coll for QuotientFilter<String> {
    const KIND: &'static str = "quotient";
    const SINGLE: bool = true;
    const REMOVES: bool = true;
    fn make(a: &Args, hb: [S; 2]) -> Self {
        match a.how % 2 {
            0 => Self::with_hasher(2 + (a.how / 4 % 4) as u8, 1 + (a.m % 58) as u8, hb[0]),
            _ => Self::from_fpp_with_hasher(a.n, a.p, hb[0]),
        }
    }
    fn fresh(a: &Args) -> Option<Self> {
        Some(match a.how % 2 {
            0 => Self::new(2 + (a.how / 4 % 4) as u8, 1 + (a.m % 58) as u8),
            _ => Self::from_fpp(a.n, a.p),
        })
    }
    fn exposed(&self) -> [S; 2] {
        [*self.hasher(), *self.hasher()]
    }
    fn op(&mut self, o: &Op, keys: &[String], form: usize) {
        match o {
            Op::Ins(x, _) if self.len() < self.capacity() => form!(form, &keys[*x], y => self.insert(y)),
            Op::Rem(x, _) => form!(form, &keys[*x], y => self.remove(y)),
            Op::Clr => self.clear(),
            _ => {}
        }
    }
    fn digest(&mut self, keys: &[String], form: usize) -> String {
        format!(
            "{} {} {} {} {} {} {}",
            self.len(),
            self.is_empty(),
            self.capacity(),
            self.quotient_bits(),
            self.remainder_bits(),
            bits(self.estimated_fpp()),
            rep!(self, keys, form)
        )
    }
}
/// The crate's strategies are not `Clone`, which the derived `Clone` of the sketch asks for.
macro_rules! sketch {
    ($($s:ident $of:ident $k:literal),*) => { $(
        #[derive(Clone)]
        pub struct $s;
        impl CountStrategy for $s {
            fn get_estimate(items: i64, rows: usize, cols: usize, iter: ItemValueIter<'_>) -> i64 {
                $of::get_estimate(items, rows, cols, iter)
            }
        }
        impl Coll for CountMinSketch<$s, String> {
            const KIND: &'static str = $k;
            const REMOVES: bool = true;
            fn make(a: &Args, hb: [S; 2]) -> Self {
                match a.how % 2 {
                    0 => Self::with_hashers(1 + a.n % 6, 1 + a.m % 40, hb),
                    _ => Self::from_error_with_hashers(0.05 + a.p / 2.0, a.p, hb),
                }
            }
            fn fresh(a: &Args) -> Option<Self> {
                Some(match a.how % 2 {
                    0 => Self::new(1 + a.n % 6, 1 + a.m % 40),
                    _ => Self::from_error(0.05 + a.p / 2.0, a.p),
                })
            }
            fn exposed(&self) -> [S; 2] {
                *self.hashers()
            }
            fn op(&mut self, o: &Op, keys: &[String], form: usize) {
                match o {
                    Op::Ins(x, v) => form!(form, &keys[*x], y => self.insert(y, *v)),
                    Op::Rem(x, v) => form!(form, &keys[*x], y => self.remove(y, *v)),
                    Op::Clr => self.clear(),
                    _ => {}
                }
            }
            fn digest(&mut self, keys: &[String], form: usize) -> String {
                let mut s = format!("{} {} {} {}", self.rows(), self.cols(), bits(self.confidence()), bits(self.error()));
                for k in keys {
                    let n = form!(form, k, y => guard(|| self.count(y)));
                    match n {
                        Ok(n) => { let _ = write!(s, " {}", n); }
                        Err(_) => s.push_str(" !"),
                    }
                }
                s
            }
        }
    )* };
}
sketch!(Least CountMinStrategy "cmin", Mean CountMeanStrategy "cmean", Median CountMedianBiasStrategy "cmedian");

impl Coll for HyperLogLog<String> {
    const KIND: &'static str = "hll";
    const SINGLE: bool = true;
    fn make(a: &Args, hb: [S; 2]) -> Self {
        Self::with_hasher(0.09 + a.p / 3.0, hb[0])
    }
    fn fresh(a: &Args) -> Option<Self> {
        Some(Self::new(0.09 + a.p / 3.0))
    }
    fn exposed(&self) -> [S; 2] {
        [*self.hasher(), *self.hasher()]
    }
    fn op(&mut self, o: &Op, keys: &[String], form: usize) {
        match o {
            Op::Ins(x, v) => {
                // many items per step: the estimate moves away from linear counting
                for i in 0..(v.unsigned_abs() * v.unsigned_abs()) {
                    let k = format!("{}#{}", keys[*x], i);
                    form!(form, &k, y => self.insert(y))
                }
            }
            Op::Clr => self.clear(),
            _ => {}
        }
    }
    fn merge(&mut self, o: &Self) -> bool {
        HyperLogLog::merge(self, o);
        true
    }
    fn digest(&mut self, _keys: &[String], _form: usize) -> String {
        format!("{} {}", bits(self.len()), self.is_empty())
    }
}

fn lists(keys: &[String]) -> Vec<Vec<String>> {
    let n = keys.len();
    vec![keys.to_vec(), keys[..n / 2].to_vec(), keys[n / 3..].to_vec(), keys[..1].to_vec()]
}
type Items = std::vec::IntoIter<String>;
impl Coll for MinHash<Items, String> {
    const KIND: &'static str = "minhash";
    fn make(a: &Args, hb: [S; 2]) -> Self {
        Self::with_hashers(1 + a.n % 20, hb)
    }
    fn fresh(a: &Args) -> Option<Self> {
        Some(Self::new(1 + a.n % 20))
    }
    fn exposed(&self) -> [S; 2] {
        *self.hashers()
    }
    fn op(&mut self, _o: &Op, _keys: &[String], _form: usize) {}
    fn digest(&mut self, keys: &[String], _form: usize) -> String {
        let mut s = format!("{}", self.hasher_count());
        let ls = lists(keys);
        let all: Vec<Vec<u64>> = ls.iter().map(|l| self.get_min_hashes(l.clone().into_iter())).collect();
        for (i, h) in all.iter().enumerate() {
            for x in h.iter().take(3) {
                let _ = write!(s, " {:x}", x);
            }
            let sum = h.iter().fold(0u64, |a, x| mix(a ^ x));
            let _ = write!(s, " {:x} {}", sum, bits(self.get_similarity_from_hashes(h, &all[0])));
            let _ = write!(s, " {}", bits(self.get_similarity(ls[i].clone().into_iter(), ls[1].clone().into_iter())));
        }
        s
    }
}
impl Coll for SimHash<Items, String> {
    const KIND: &'static str = "simhash";
    const SINGLE: bool = true;
    fn make(_a: &Args, hb: [S; 2]) -> Self {
        Self::with_hasher(hb[0])
    }
    fn fresh(a: &Args) -> Option<Self> {
        Some(if a.how % 2 == 0 { Self::new() } else { Self::default() })
    }
    fn exposed(&self) -> [S; 2] {
        [*self.hasher(), *self.hasher()]
    }
    fn op(&mut self, _o: &Op, _keys: &[String], _form: usize) {}
    fn digest(&mut self, keys: &[String], _form: usize) -> String {
        let ls = lists(keys);
        let mut s = String::new();
        for l in &ls {
            let _ = write!(s, "{:x} ", self.get_sim_hash(l.clone().into_iter()));
        }
        let mut pairs = self.report_similarities(2, ls.into_iter().map(|l| l.into_iter()).collect());
        pairs.sort();
        let _ = write!(s, "{:?}", pairs);
        s
    }
}
impl Coll for BitVec {
    const KIND: &'static str = "bitvec";
    const REMOVES: bool = true;
    fn make(a: &Args, _hb: [S; 2]) -> Self {
        match a.how % 3 {
            0 => BitVec::new(a.m),
            1 => BitVec::from_elem(a.m, true),
            _ => BitVec::with_capacity(a.m),
        }
    }
    fn fresh(_a: &Args) -> Option<Self> {
        None
    }
    fn exposed(&self) -> [S; 2] {
        [S::from_seed(0, 0), S::from_seed(0, 0)]
    }
    fn op(&mut self, o: &Op, _keys: &[String], _form: usize) {
        match o {
            Op::Ins(_, v) => self.push(*v % 2 == 0),
            Op::Rem(..) => {
                self.pop();
            }
            Op::Clr => self.flip_all(),
            Op::Grow(n) => self.truncate(self.len() - self.len().min(*n)),
            Op::Other(i, v) if self.len() > 0 => self.set(*i % self.len(), v % 2 == 1),
            _ => {}
        }
    }
    fn merge(&mut self, o: &Self) -> bool {
        if self.len() == o.len() {
            self.symmetric_difference(o);
            true
        } else {
            false
        }
    }
    fn digest(&mut self, _keys: &[String], _form: usize) -> String {
        format!("{} {} {} {:?} {}", self.len(), self.count_ones(), self.count_zeros(), self.to_bytes(), flags(self.iter()))
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
}
impl Coll for BitstringVec {
    const KIND: &'static str = "bitstr";
    const REMOVES: bool = true;
    fn make(a: &Args, _hb: [S; 2]) -> Self {
        let w = 1 + a.m % 64;
        match a.how % 3 {
            0 => BitstringVec::new(w, a.n),
            1 => BitstringVec::from_elem(w, a.n, 1),
            _ => BitstringVec::with_capacity(w, a.n),
        }
    }
    fn fresh(_a: &Args) -> Option<Self> {
        None
    }
    fn exposed(&self) -> [S; 2] {
        [S::from_seed(0, 0), S::from_seed(0, 0)]
    }
    fn op(&mut self, o: &Op, _keys: &[String], _form: usize) {
        let mask = u64::MAX >> (64 - self.bit_count());
        match o {
            Op::Ins(_, v) => self.push(*v as u64 & mask),
            Op::Rem(..) if !self.is_empty() => {
                self.pop();
            }
            Op::Clr => self.clear(),
            Op::Grow(n) => self.truncate(self.len() - self.len().min(*n)),
            Op::Other(i, v) if !self.is_empty() => self.set(*i % self.len(), v & mask),
            _ => {}
        }
    }
    fn digest(&mut self, _keys: &[String], _form: usize) -> String {
        format!("{} {} {} {:x?}", self.len(), self.bit_count(), self.occupied_len(), self.iter().collect::<Vec<u64>>())
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Clone,
    Serde,
    Equal,
}

struct Inst<C> {
    c: C,
    pos: usize,
    stray: bool,
}

fn drive<C: Coll>(r: &mut Rng, run: usize, mode: Mode) {
    let a = Args {
        how: r.below(64),
        n: r.range(1, 30),
        m: *r.pick(&[1usize, 2, 5, 8, 13, 16, 40, 63, 64, 65, 200]),
        p: *r.pick(&[0.5, 0.3, 0.1, 0.01]),
        g: *r.pick(&[2.0, 1.0, 1.5]),
    };
    let seed = |r: &mut Rng| S::from_seed(r.word(), r.word());
    let hb = [seed(r), seed(r)];
    let nkeys = r.range(3, 14);
    let mut keys: Vec<String> = (0..nkeys).map(|i| format!("{}{}", "k".repeat(r.below(12)), i)).collect();
    if r.chance(1, 3) {
        keys[0] = String::new();
    }
    ev! {"ev": "run", "run": run, "kind": C::KIND, "random": C::RANDOM};
    let mut xs: Vec<Inst<C>> = Vec::new();
    macro_rules! go {
        ($n:expr, $e:expr) => {
            match must($n, || {
                set_entropy(ENTROPY);
                $e
            }) {
                Some(x) => x,
                None => return,
            }
        };
    }
    macro_rules! all {
        () => {{
            let form = if mode == Mode::Equal { r.below(3) } else { 0 };
            let mut v = Vec::new();
            for x in xs.iter_mut() {
                v.push(go!("query", x.c.digest(&keys, form)));
            }
            v
        }};
    }
    let first = if mode == Mode::Equal && r.chance(1, 2) { go!("construct", C::fresh(&a)) } else { None };
    let c = match first {
        Some(c) => c,
        None => {
            let c = go!("construct", C::make(&a, hb));
            if !matches!(C::KIND, "bitvec" | "bitstr") && c.exposed()[0] != hb[0] {
                ev! {"ev": "exposed", "ok": false};
                return;
            }
            c
        }
    };
    xs.push(Inst { c, pos: 0, stray: false });
    ev! {"ev": "new", "o": all!()};
    let mut script: Vec<Op> = Vec::new();
    let steps = if matches!(C::KIND, "minhash" | "simhash") { 12 } else { 60 };
    let target = r.range(2, 4);
    let op = |r: &mut Rng| {
        let x = r.below(nkeys);
        let v = r.range(0, 12) as i64 - 2;
        match r.below(20) {
            0 => Op::Clr,
            1..=5 if C::REMOVES => Op::Rem(x, v),
            6 => Op::Grow(r.below(20)),
            7 | 8 => Op::Other(r.below(1000), r.word()),
            _ => Op::Ins(x, v),
        }
    };
    for _ in 0..steps {
        if xs.len() < target && r.chance(1, 6) {
            let from = r.below(xs.len());
            let (pos, stray) = (xs[from].pos, xs[from].stray);
            match mode {
                Mode::Clone => {
                    let c = go!("clone", xs[from].c.clone());
                    xs.push(Inst { c, pos, stray });
                    ev! {"ev": "copy", "from": from + 1, "how": "clone", "o": all!()};
                }
                Mode::Serde => {
                    let c = go!("serde", round(&xs[from].c));
                    xs.push(Inst { c, pos, stray: stray || C::RANDOM });
                    ev! {"ev": "copy", "from": from + 1, "how": "serde", "o": all!()};
                }
                Mode::Equal => {
                    let hb = xs[from].c.exposed();
                    let c = go!("construct", C::make(&a, hb));
                    if !matches!(C::KIND, "bitvec" | "bitstr") && c.exposed() != hb {
                        ev! {"ev": "exposed", "ok": false};
                        return;
                    }
                    xs.push(Inst { c, pos: 0, stray: false });
                    ev! {"ev": "twin", "from": from + 1, "o": all!()};
                }
            }
            continue;
        }
        let id = r.below(xs.len());
        if r.chance(1, 11) && xs.len() > 1 {
            let b = r.below(xs.len());
            if b != id {
                let (x, y) = if id < b {
                    let (l, h) = xs.split_at_mut(b);
                    (&mut l[id], &mut h[0])
                } else {
                    let (l, h) = xs.split_at_mut(id);
                    (&mut h[0], &mut l[b])
                };
                if r.chance(1, 2) {
                    if let Some(e) = go!("eq", x.c.same(&y.c)) {
                        ev! {"ev": "eq", "id": id + 1, "b": b + 1, "r": e};
                    }
                    continue;
                }
                if go!("merge", x.c.merge(&y.c)) {
                    x.stray = true;
                    ev! {"ev": "merge", "id": id + 1, "b": b + 1, "o": all!()};
                    continue;
                }
            }
        }
        if mode == Mode::Clone && r.chance(1, 25) && xs.len() > 1 {
            let b = r.below(xs.len());
            if b != id {
                let src = xs[b].c.clone();
                go!("clone_from", xs[id].c.clone_from(&src));
                xs[id].pos = xs[b].pos;
                xs[id].stray = xs[b].stray;
                ev! {"ev": "over", "id": id + 1, "from": b + 1, "o": all!()};
                continue;
            }
        }
        let o = if xs[id].stray || r.chance(1, 20) {
            xs[id].stray = true;
            op(r)
        } else {
            if xs[id].pos == script.len() {
                script.push(op(r));
            }
            xs[id].pos += 1;
            script[xs[id].pos - 1].clone()
        };
        let form = if mode == Mode::Equal { r.below(3) } else { 0 };
        go!("update", xs[id].c.op(&o, &keys, form));
        ev! {"ev": "op", "id": id + 1, "op": name(&o), "o": all!()};
    }
}

pub fn record(mode: Mode, seed: u64, run: usize) {
    let mut r = Rng::new(seed, 20, run as u64);
    match run % 17 {
        0 => drive::<BloomFilter<String>>(&mut r, run, mode),
        1 => drive::<PartitionedBloomFilter<String>>(&mut r, run, mode),
        2 => drive::<ScalableBloomFilter<String>>(&mut r, run, mode),
        3 => drive::<BSBloomFilter<String>>(&mut r, run, mode),
        4 => drive::<BSSDBloomFilter<String>>(&mut r, run, mode),
        5 => drive::<RLBSBloomFilter<String>>(&mut r, run, mode),
        6 => drive::<CuckooFilter<String>>(&mut r, run, mode),
        7 => drive::<ScalableCuckooFilter<String>>(&mut r, run, mode),
        8 => drive::<QuotientFilter<String>>(&mut r, run, mode),
        9 => drive::<CountMinSketch<Least, String>>(&mut r, run, mode),
        10 => drive::<CountMinSketch<Mean, String>>(&mut r, run, mode),
        11 => drive::<CountMinSketch<Median, String>>(&mut r, run, mode),
        12 => drive::<HyperLogLog<String>>(&mut r, run, mode),
        13 => drive::<MinHash<Items, String>>(&mut r, run, mode),
        14 => drive::<SimHash<Items, String>>(&mut r, run, mode),
        15 => drive::<BitVec>(&mut r, run, mode),
        _ => drive::<BitstringVec>(&mut r, run, mode),
    }
}

/// The builders two instances of every default constructor draw.
fn drawn<C: Coll>(out: &mut Vec<S>) {
    for how in 0..4 {
        for _ in 0..2 {
            let a = Args { how, n: 5, m: 20, p: 0.3, g: 2.0 };
            if let Some(c) = C::fresh(&a) {
                let e = c.exposed();
                out.push(e[0]);
                if !C::SINGLE {
                    out.push(e[1]);
                }
            }
        }
    }
}

/// Seeded hash builders against SipHash 2-4, builders from entropy against each other.
pub fn builders(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 26, run as u64);
    ev! {"ev": "run", "run": run, "kind": "builder", "random": false};
    let ks: Vec<(u64, u64)> = (0..4).map(|i| if i == 0 && run == 0 { (0, 0) } else { (r.word(), r.word()) }).collect();
    let bs: Vec<S> = ks.iter().map(|k| S::from_seed(k.0, k.1)).collect();
    for i in 0..4 {
        let near = match r.below(4) {
            0 => (ks[i].1, ks[i].0),
            1 => (ks[i].0 ^ 1u64 << r.below(64), ks[i].1),
            2 => (ks[i].0, ks[i].1 ^ 1u64 << r.below(64)),
            _ => ks[i],
        };
        let n = S::from_seed(near.0, near.1);
        ev! {"ev": "beq", "a": (W(ks[i].0), W(ks[i].1)), "b": (W(near.0), W(near.1)), "r": bs[i] == n};
        for _ in 0..2 {
            let len = if r.chance(1, 3) { r.below(8) } else { r.below(40) };
            let msg: Vec<u8> = (0..len).map(|_| r.u64() as u8).collect();
            let b = match r.below(3) {
                0 => bs[i],
                1 => bs[i].clone(),
                _ => n,
            };
            let k = if b == n && r.chance(1, 2) { near } else { ks[i] };
            let b = if b == bs[i] || b == n { S::from_seed(k.0, k.1) } else { b };
            let mut h = b.build_hasher();
            let mut g = b.build_hasher();
            let cut = r.below(len + 1);
            // two hashers of one builder are independent; input may come in pieces
            g.write(&[1, 2, 3]);
            h.write(&msg[..cut]);
            h.write(&msg[cut..]);
            let d = b.build_hasher();
            ev! {"ev": "sip", "k0": W(k.0), "k1": W(k.1), "msg": msg, "r": W(h.finish()), "again": W(h.finish()), "none": W(d.finish())};
        }
    }
    let mut es: Vec<S> = (0..20).map(|_| S::from_entropy()).collect();
    let done = must("construct", || {
        drawn::<BloomFilter<String>>(&mut es);
        drawn::<PartitionedBloomFilter<String>>(&mut es);
        drawn::<ScalableBloomFilter<String>>(&mut es);
        drawn::<BSBloomFilter<String>>(&mut es);
        drawn::<BSSDBloomFilter<String>>(&mut es);
        drawn::<RLBSBloomFilter<String>>(&mut es);
        drawn::<CuckooFilter<String>>(&mut es);
        drawn::<ScalableCuckooFilter<String>>(&mut es);
        drawn::<QuotientFilter<String>>(&mut es);
        drawn::<CountMinSketch<Least, String>>(&mut es);
        drawn::<HyperLogLog<String>>(&mut es);
        drawn::<MinHash<Items, String>>(&mut es);
        drawn::<SimHash<Items, String>>(&mut es);
    });
    if done.is_none() {
        return;
    }
    let hf: Vec<u64> = es
        .iter()
        .map(|b| {
            let mut h = b.build_hasher();
            h.write_u64(7);
            h.finish()
        })
        .collect();
    let twins: Vec<usize> = (0..es.len()).filter(|i| (0..*i).any(|j| es[*i] == es[j] || hf[*i] == hf[j])).collect();
    ev! {"ev": "entropy", "drawn": es.len(), "twins": twins};
}

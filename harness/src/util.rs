//! Random numbers, JSON lines, scripted hashing, panics and hangs as data.
use std::cell::Cell;
use std::fmt::Write as _;
use std::fs::File;
use std::hash::{BuildHasher, Hash, Hasher};
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- randomness
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, a: u64, b: u64) -> Self {
        let mut r = Rng(seed
            .wrapping_mul(0x9e3779b97f4a7c15)
            .wrapping_add(a.wrapping_mul(0xbf58476d1ce4e5b9))
            .wrapping_add(b.wrapping_mul(0x94d049bb133111eb)));
        r.u64();
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// 64-bit words, biased towards the extremes.
    pub fn word(&mut self) -> u64 {
        match self.below(14) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => 1 << 63,
            4 => self.below(64) as u64,
            5 => u64::MAX - self.below(64) as u64,
            6 => self.u64() << 32,
            7 => self.u64() >> 32,
            8 => (1u64 << self.below(64)).wrapping_sub(1),
            9 => 1u64 << self.below(64),
            _ => self.u64(),
        }
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

// ---------------------------------------------------------------- scripted hashing
/// An item that carries its two hash values.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
#[cfg_attr(feature = "ser", derive(serde::Serialize, serde::Deserialize))]
pub struct Key {
    pub a: u64,
    pub b: u64,
}
impl Hash for Key {
    fn hash<H: Hasher>(&self, state: &mut H) {
        state.write_u64(self.a);
        state.write_u64(self.b);
    }
}
/// Hash builder that returns the item's own first or second value; a single word is mixed.
#[derive(Clone, Copy, PartialEq, Debug)]
#[cfg_attr(feature = "ser", derive(serde::Serialize, serde::Deserialize))]
pub struct Pick {
    pub side: u8,
    pub salt: u64,
}
pub struct PickHasher {
    side: u8,
    salt: u64,
    n: usize,
    v: [u64; 2],
}
impl BuildHasher for Pick {
    type Hasher = PickHasher;
    fn build_hasher(&self) -> PickHasher {
        PickHasher { side: self.side, salt: self.salt, n: 0, v: [0, 0] }
    }
}
impl Hasher for PickHasher {
    fn finish(&self) -> u64 {
        if self.n == 2 {
            self.v[self.side as usize]
        } else {
            one_word(self.side, self.salt, self.v[0])
        }
    }
    fn write(&mut self, bytes: &[u8]) {
        // a word is a word however it is written
        if let Ok(b) = <[u8; 8]>::try_from(bytes) {
            return self.write_u64(u64::from_ne_bytes(b));
        }
        for b in bytes {
            self.v[0] = mix(self.v[0] ^ u64::from(*b)).wrapping_add(1);
        }
    }
    fn write_u64(&mut self, x: u64) {
        if self.n < 2 {
            self.v[self.n] = x;
        }
        self.n += 1;
    }
}
pub fn one_word(side: u8, salt: u64, x: u64) -> u64 {
    mix(x.wrapping_mul(2).wrapping_add(u64::from(side)) ^ salt)
}
pub fn picks(salt: u64) -> [Pick; 2] {
    [Pick { side: 0, salt }, Pick { side: 1, salt }]
}
pub fn sip(k0: u64, k1: u64, item: &impl Hash) -> u64 {
    let mut h = siphasher::sip::SipHasher::new_with_keys(k0, k1);
    item.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- JSON
pub trait J {
    fn j(&self, s: &mut String);
}
macro_rules! jnum { ($($t:ty),*) => { $(impl J for $t { fn j(&self, s: &mut String) { let _ = write!(s, "{}", self); } })* } }
jnum!(i32, u32, i64, usize, u8, u16, bool);
impl J for &str {
    fn j(&self, s: &mut String) {
        s.push('"');
        for c in self.chars() {
            match c {
                '"' | '\\' => {
                    s.push('\\');
                    s.push(c)
                }
                c if (c as u32) < 32 || (c as u32) > 126 => s.push('?'),
                c => s.push(c),
            }
        }
        s.push('"');
    }
}
impl J for String {
    fn j(&self, s: &mut String) {
        self.as_str().j(s)
    }
}
impl<T: J> J for Vec<T> {
    fn j(&self, s: &mut String) {
        s.push('[');
        for (i, x) in self.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            x.j(s);
        }
        s.push(']');
    }
}
impl<T: J> J for &T {
    fn j(&self, s: &mut String) {
        (*self).j(s)
    }
}
impl<A: J, B: J> J for (A, B) {
    fn j(&self, s: &mut String) {
        s.push('[');
        self.0.j(s);
        s.push(',');
        self.1.j(s);
        s.push(']');
    }
}
/// A 64-bit word: four 16-bit limbs, least significant first.
#[derive(Clone, Copy)]
pub struct W(pub u64);
impl J for W {
    fn j(&self, s: &mut String) {
        let w = self.0;
        let _ = write!(s, "[{},{},{},{}]", w & 0xffff, (w >> 16) & 0xffff, (w >> 32) & 0xffff, w >> 48);
    }
}
/// Already rendered JSON.
#[derive(Clone)]
pub struct Raw(pub String);
impl J for Raw {
    fn j(&self, s: &mut String) {
        s.push_str(&self.0)
    }
}
#[macro_export]
macro_rules! obj {
    ($($k:literal : $v:expr),* $(,)?) => {{
        let mut s = String::from("{");
        $( if s.len() > 1 { s.push(','); } s.push('"'); s.push_str($k); s.push_str("\":"); $crate::util::J::j(&$v, &mut s); )*
        s.push('}');
        $crate::util::Raw(s)
    }};
}
#[macro_export]
macro_rules! ev { ($($t:tt)*) => { $crate::util::emit($crate::obj!($($t)*)) } }

/// A float as fixed point in units of 1/scale; -1 for NaN or negative, capped at 2*10^9.
pub fn fixed(x: f64, scale: f64) -> i64 {
    if x.is_nan() || x < 0.0 {
        return -1;
    }
    let y = (x * scale).round();
    if y > 2.0e9 {
        2_000_000_000
    } else {
        y as i64
    }
}
pub fn micro(x: f64) -> i64 {
    fixed(x, 1e6)
}
pub fn nano(x: f64) -> i64 {
    fixed(x, 1e9)
}
/// Full-precision opaque form of a float.
pub fn bits(x: f64) -> String {
    if x == 0.0 {
        "0".into()
    } else {
        format!("{:x}", x.to_bits())
    }
}

// ---------------------------------------------------------------- output, watchdog
static OUT: Mutex<Option<BufWriter<File>>> = Mutex::new(None);
pub static TICK: AtomicU64 = AtomicU64::new(0);
static LINES: AtomicU64 = AtomicU64::new(0);
thread_local! { static FLUSH: Cell<bool> = Cell::new(false); }

pub fn open(path: &str, flush: bool) {
    *OUT.lock().unwrap() = Some(BufWriter::with_capacity(1 << 16, File::create(path).expect("create output")));
    FLUSH.with(|f| f.set(flush));
}
pub fn emit(r: Raw) {
    let mut g = OUT.lock().unwrap();
    let o = g.as_mut().unwrap();
    o.write_all(r.0.as_bytes()).unwrap();
    o.write_all(b"\n").unwrap();
    if FLUSH.with(|f| f.get()) {
        o.flush().unwrap();
    }
    LINES.fetch_add(1, Ordering::Relaxed);
    TICK.fetch_add(1, Ordering::Relaxed);
}
pub fn close() {
    OUT.lock().unwrap().as_mut().unwrap().flush().unwrap();
}
fn cpu_seconds() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}
/// Ends the process with a `hang` event when one step uses far more CPU time than any legal one.
pub fn watchdog(cpu_limit: f64, wall_limit: f64) {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    std::thread::spawn(move || {
        let mut last = TICK.load(Ordering::Relaxed);
        let mut cpu = cpu_seconds();
        let mut wall = std::time::Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let now = TICK.load(Ordering::Relaxed);
            if now != last {
                last = now;
                cpu = cpu_seconds();
                wall = std::time::Instant::now();
            } else if cpu_seconds() - cpu > cpu_limit || wall.elapsed().as_secs_f64() > wall_limit {
                let mut g = OUT.lock().unwrap();
                let o = g.as_mut().unwrap();
                o.write_all(b"{\"ev\":\"hang\"}\n").unwrap();
                o.flush().unwrap();
                unsafe { libc::_exit(0) }
            }
        }
    });
}
pub fn tick() {
    TICK.fetch_add(1, Ordering::Relaxed);
}

/// Runs a call into the code under test; a panic becomes `Err`.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    tick();
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}
/// Like `guard`, but the panic is logged as an event no specification accepts.
pub fn must<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
    match guard(f) {
        Ok(r) => Some(r),
        Err(m) => {
            ev! {"ev": "panic", "op": what, "msg": m};
            None
        }
    }
}

// ---------------------------------------------------------------- round trips
#[cfg(feature = "ser")]
pub trait Wire: serde::Serialize + serde::de::DeserializeOwned {}
#[cfg(feature = "ser")]
impl<T: serde::Serialize + serde::de::DeserializeOwned> Wire for T {}
#[cfg(not(feature = "ser"))]
pub trait Wire {}
#[cfg(not(feature = "ser"))]
impl<T> Wire for T {}

#[cfg(feature = "ser")]
pub fn round<C: Wire>(c: &C) -> C {
    let bytes = bincode::serialize(c).expect("serialize");
    bincode::deserialize(&bytes).expect("deserialize")
}
#[cfg(not(feature = "ser"))]
pub fn round<C: Wire>(_c: &C) -> C {
    panic!("built without serde")
}
#[cfg(feature = "ser")]
pub fn wire<C: Wire>(c: &C) -> Vec<u8> {
    bincode::serialize(c).expect("serialize")
}
#[cfg(not(feature = "ser"))]
pub fn wire<C: Wire>(_c: &C) -> Vec<u8> {
    Vec::new()
}

thread_local! { static SWAP: Cell<bool> = Cell::new(false); static SWAPS: Cell<u64> = Cell::new(1); }
/// From now on `swapped` replaces collections by round trips of themselves.
pub fn set_swap(on: bool) {
    SWAP.with(|s| s.set(on))
}
/// Now and then a round trip of `c` instead of `c`.
pub fn swapped<C: Wire>(c: C) -> C {
    if !SWAP.with(|s| s.get()) {
        return c;
    }
    let n = SWAPS.with(|s| {
        s.set(s.get() + 1);
        s.get()
    });
    if mix(n) % 6 == 0 {
        round(&c)
    } else {
        c
    }
}

/// The cuckoo filter `c` with `kicks` displacements per insertion instead of 512, as its serialized form allows.
#[cfg(feature = "ser")]
pub fn with_kicks<C: Wire>(c: C, kicks: u64) -> C {
    let mut bytes = bincode::serialize(&c).expect("serialize");
    if bytes[..8] != 512u64.to_le_bytes() {
        return c;
    }
    bytes[..8].copy_from_slice(&kicks.to_le_bytes());
    bincode::deserialize(&bytes).expect("deserialize")
}
#[cfg(not(feature = "ser"))]
pub fn with_kicks<C: Wire>(c: C, _kicks: u64) -> C {
    c
}

/// Uses of an iterator over `n` things other than plain iteration, as `{op, k, r}` where `r` lists what came out.
pub fn walk<I: Iterator, X: J>(r: &mut Rng, mut it: I, n: usize, show: impl Fn(I::Item) -> X) -> Raw {
    let mut steps: Vec<Raw> = Vec::new();
    let none = Vec::<X>::new;
    let one = |x: Option<I::Item>| x.map(&show).into_iter().collect::<Vec<X>>();
    for _ in 0..r.range(1, 6) {
        match r.below(5) {
            0 | 1 => steps.push(obj! {"op": "next", "k": 0, "r": one(it.next())}),
            2 | 3 => {
                let k = if r.chance(1, 6) { n + r.below(3) } else { r.below(n / 3 + 2) };
                steps.push(obj! {"op": "nth", "k": k, "r": one(it.nth(k))});
            }
            _ => {
                let (lo, hi) = it.size_hint();
                steps.push(obj! {"op": "lo", "k": lo.min(1 << 30), "r": none()});
                steps.push(obj! {"op": "hi", "k": hi.unwrap_or(1 << 30).min(1 << 30), "r": none()});
            }
        }
    }
    match r.below(6) {
        0 => steps.push(obj! {"op": "count", "k": it.count(), "r": none()}),
        1 => steps.push(obj! {"op": "last", "k": 0, "r": one(it.last())}),
        2 => {
            let k = r.range(0, n / 2 + 1);
            steps.push(obj! {"op": "skip", "k": k, "r": it.skip(k).map(&show).collect::<Vec<X>>()});
        }
        3 => {
            let k = r.range(1, n / 2 + 1);
            steps.push(obj! {"op": "step", "k": k, "r": it.step_by(k).map(&show).collect::<Vec<X>>()});
        }
        4 => {
            let k = r.range(0, n);
            steps.push(obj! {"op": "take", "k": k, "r": it.by_ref().take(k).map(&show).collect::<Vec<X>>()});
            steps.push(obj! {"op": "skip", "k": 0, "r": it.fold(Vec::new(), |mut v, x| { v.push(show(x)); v })});
        }
        _ => {
            steps.push(obj! {"op": "skip", "k": 0, "r": it.by_ref().map(&show).collect::<Vec<X>>()});
            for _ in 0..3 {
                steps.push(obj! {"op": "next", "k": 0, "r": one(it.next())});
            }
        }
    }
    let mut s = String::new();
    steps.j(&mut s);
    Raw(s)
}

//! BitVec and BitstringVec, through the verif_hooks re-export.
use crate::util::*;
use crate::{ev, obj};
use probabilistic_collections::verif_hooks::{BitVec, BitstringVec};

fn ones(it: impl Iterator<Item = bool>) -> (Vec<usize>, usize) {
    let all: Vec<bool> = it.collect();
    ((0..all.len()).filter(|i| all[*i]).collect(), all.len())
}
fn obits(v: &BitVec, r: &mut Rng) -> Option<Raw> {
    let beyond = [v.len(), v.len() + 1, v.len() + 7, v.len() + 8, v.len() + 64, v.len() + r.below(2000)];
    let past = beyond.iter().all(|i| {
        guard(|| v.get(*i)) == Ok(None) && guard(|| v[*i]).is_err()
    });
    must("query", || {
        let (it, itlen) = ones(v.iter());
        let (byref, _) = ones(v.into_iter());
        let (into, intolen) = ones(v.clone().into_iter());
        let gt: Vec<usize> = (0..v.len()).filter(|i| v.get(*i) == Some(true)).collect();
        let ix: Vec<usize> = (0..v.len()).filter(|i| v[*i]).collect();
        let mut f = BitVec::with_capacity(0);
        for i in 0..v.len() {
            f.push(v.get(i).unwrap_or(false));
        }
        obj! {"len": v.len(), "empty": v.is_empty(), "it": it.clone(), "itlen": itlen, "gt": gt, "ix": ix,
        "into": if intolen == itlen && byref == it { into } else { vec![usize::MAX >> 40] },
        "ones": v.count_ones(), "zeros": v.count_zeros(), "bytes": v.to_bytes(), "past": past,
        "fresh": f == *v && *v == f, "cap": v.capacity()}
    })
}

const WHERE: [usize; 12] = [0, 1, 7, 8, 9, 15, 16, 17, 63, 64, 65, 128];

pub fn bits(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 22, run as u64);
    ev! {"ev": "run", "run": run};
    let mut vs: Vec<BitVec> = Vec::new();
    let big = if r.chance(1, 8) { r.range(100, 600) } else { *r.pick(&[6usize, 10, 17, 33, 70]) };
    let length = |r: &mut Rng| if r.chance(1, 2) { *r.pick(&WHERE) % (big + 1) } else { r.below(big + 1) };
    let same = r.chance(1, 2);
    let common = length(&mut r);
    macro_rules! o {
        ($v:expr) => {
            match obits(&$v, &mut r) {
                Some(o) => o,
                None => return,
            }
        };
    }
    macro_rules! go {
        ($n:expr, $e:expr) => {
            match must($n, || $e) {
                Some(x) => x,
                None => return,
            }
        };
    }
    let start = r.range(1, 3);
    for step in 0..(start + 40) {
        if step < start || (vs.len() < 5 && r.chance(1, 20)) {
            let n = if same { common } else { length(&mut r) };
            match r.below(if vs.is_empty() { 5 } else { 6 }) {
                0 => {
                    vs.push(go!("new", BitVec::new(n)));
                    ev! {"ev": "new", "how": "new", "n": n, "o": o!(vs[vs.len() - 1])};
                }
                1 | 2 => {
                    let b = r.chance(1, 2);
                    vs.push(go!("from_elem", BitVec::from_elem(n, b)));
                    ev! {"ev": "new", "how": "elem", "n": n, "b": usize::from(b), "o": o!(vs[vs.len() - 1])};
                }
                3 => {
                    let bytes: Vec<u8> = (0..n / 8).map(|_| r.word() as u8).collect();
                    vs.push(go!("from_bytes", BitVec::from_bytes(&bytes)));
                    ev! {"ev": "new", "how": "bytes", "bytes": bytes, "o": o!(vs[vs.len() - 1])};
                }
                4 => {
                    vs.push(go!("with_capacity", BitVec::with_capacity(n)));
                    ev! {"ev": "new", "how": "cap", "n": n, "o": o!(vs[vs.len() - 1])};
                }
                _ => {
                    let from = r.below(vs.len());
                    let c = go!("clone", vs[from].clone());
                    vs.push(c);
                    ev! {"ev": "new", "how": "clone", "from": from + 1, "o": o!(vs[vs.len() - 1])};
                }
            }
            continue;
        }
        let id = r.below(vs.len());
        let len = vs[id].len();
        match r.below(26) {
            0..=3 => {
                let i = if r.chance(1, 12) || len == 0 { len + *r.pick(&[0usize, 1, 8, 64]) } else { r.below(len) };
                let b = r.chance(1, 2);
                let ok = guard(|| vs[id].set(i, b)).is_ok();
                ev! {"ev": "set", "id": id + 1, "i": i, "b": usize::from(b), "ok": ok, "o": o!(vs[id])};
            }
            4 | 5 => {
                let i = if r.chance(1, 10) || len == 0 { len + *r.pick(&[0usize, 1, 8, 64]) } else { r.below(len) };
                let ok = guard(|| vs[id].flip(i)).is_ok();
                ev! {"ev": "flip", "id": id + 1, "i": i, "ok": ok, "o": o!(vs[id])};
            }
            6..=8 => {
                let times = r.range(1, 10);
                for _ in 0..times {
                    let b = r.chance(2, 3);
                    go!("push", vs[id].push(b));
                    ev! {"ev": "push", "id": id + 1, "b": usize::from(b), "o": o!(vs[id])};
                }
            }
            9 | 10 => {
                let times = r.range(1, 9);
                for _ in 0..times {
                    let x = go!("pop", vs[id].pop());
                    ev! {"ev": "pop", "id": id + 1, "r": x.map_or(-1, i32::from), "o": o!(vs[id])};
                }
            }
            11 | 12 => {
                let n = if r.chance(1, 4) { len + r.below(9) } else { len - r.below(len.min(12) + 1) };
                go!("truncate", vs[id].truncate(n));
                ev! {"ev": "trunc", "id": id + 1, "n": n, "o": o!(vs[id])};
            }
            13 => {
                let b = r.chance(1, 2);
                go!("set_all", vs[id].set_all(b));
                ev! {"ev": "fill", "id": id + 1, "b": usize::from(b), "o": o!(vs[id])};
            }
            14 | 15 => {
                go!("flip_all", vs[id].flip_all());
                ev! {"ev": "flipall", "id": id + 1, "o": o!(vs[id])};
            }
            16..=19 => {
                // mostly between vectors of one length; the same vector only through a clone
                let peers: Vec<usize> = (0..vs.len()).filter(|j| vs[*j].len() == len && *j != id).collect();
                let b = if peers.is_empty() || r.chance(1, 8) { r.below(vs.len()) } else { *r.pick(&peers) };
                let other = vs[b].clone();
                let op = *r.pick(&["union", "inter", "diff", "sym"]);
                let ok = guard(|| match op {
                    "union" => vs[id].union(&other),
                    "inter" => vs[id].intersection(&other),
                    "diff" => vs[id].difference(&other),
                    _ => vs[id].symmetric_difference(&other),
                })
                .is_ok();
                ev! {"ev": "comb", "id": id + 1, "b": b + 1, "op": op, "ok": ok, "o": o!(vs[id])};
                if b != id {
                    ev! {"ev": "ask", "id": b + 1, "o": o!(vs[b])};
                }
            }
            20 => {
                let n = r.below(100);
                if r.chance(1, 2) {
                    go!("reserve", vs[id].reserve(n))
                } else {
                    go!("reserve_exact", vs[id].reserve_exact(n))
                }
                ev! {"ev": "reserve", "id": id + 1, "n": n, "o": o!(vs[id])};
            }
            22 | 23 => {
                let v = &vs[id];
                let steps = go!("iterate", match r.below(3) {
                    0 => walk(&mut r, v.iter(), len, i32::from),
                    1 => walk(&mut r, v.into_iter(), len, i32::from),
                    _ => walk(&mut r, v.clone().into_iter(), len, i32::from),
                });
                ev! {"ev": "walk", "id": id + 1, "steps": steps};
            }
            21 => {
                let b = r.below(vs.len());
                let src = vs[b].clone();
                go!("clone_from", vs[id].clone_from(&src));
                ev! {"ev": "copy", "id": id + 1, "b": b + 1, "o": o!(vs[id])};
            }
            _ => {
                let b = r.below(vs.len());
                let e = go!("eq", vs[id] == vs[b]);
                let ne = go!("ne", vs[b] != vs[id]);
                ev! {"ev": "eq", "id": id + 1, "b": b + 1, "r": e && !ne};
            }
        }
    }
}

pub fn replay_bits(run: usize, ops: &[Vec<i64>]) {
    let mut r = Rng::new(5, 22, run as u64);
    ev! {"ev": "run", "run": run};
    let mut v = BitVec::new(0);
    macro_rules! o {
        () => {
            match obits(&v, &mut r) {
                Some(o) => o,
                None => return,
            }
        };
    }
    ev! {"ev": "new", "how": "new", "n": 0, "o": o!()};
    for op in ops {
        let a = |i: usize| op[i] as usize;
        let res = guard(|| match op[0] {
            1 => v.set(a(1), op[2] == 1),
            2 => v.flip(a(1)),
            3 => v.push(op[1] == 1),
            5 => v.truncate(a(1)),
            6 => v.set_all(op[1] == 1),
            7 => v.flip_all(),
            _ => {}
        });
        match op[0] {
            1 => ev! {"ev": "set", "id": 1, "i": a(1), "b": a(2), "ok": res.is_ok(), "o": o!()},
            2 => ev! {"ev": "flip", "id": 1, "i": a(1), "ok": res.is_ok(), "o": o!()},
            4 => {
                let x = match must("pop", || v.pop()) {
                    Some(x) => x,
                    None => return,
                };
                ev! {"ev": "pop", "id": 1, "r": x.map_or(-1, i32::from), "o": o!()}
            }
            _ if res.is_err() => {
                ev! {"ev": "panic", "op": "replay", "msg": "panic"};
                return;
            }
            3 => ev! {"ev": "push", "id": 1, "b": a(1), "o": o!()},
            5 => ev! {"ev": "trunc", "id": 1, "n": a(1), "o": o!()},
            6 => ev! {"ev": "fill", "id": 1, "b": a(1), "o": o!()},
            _ => ev! {"ev": "flipall", "id": 1, "o": o!()},
        }
    }
}

fn ws(v: impl Iterator<Item = u64>) -> Vec<W> {
    v.map(W).collect()
}
fn ostr(v: &BitstringVec, r: &mut Rng) -> Option<Raw> {
    let beyond = [v.len(), v.len() + 1, v.len() + 64, v.len() + r.below(2000)];
    let past = beyond.iter().all(|i| guard(|| v.get(*i)).is_err());
    must("query", || {
        let it = ws(v.iter());
        let gt = ws((0..v.len()).map(|i| v.get(i)));
        let byref: Vec<u64> = v.into_iter().collect();
        let mut into: Vec<u64> = v.clone().into_iter().collect();
        if byref != into {
            into.push(1);
        }
        let mut f = BitstringVec::with_capacity(v.bit_count(), 0);
        for i in 0..v.len() {
            f.push(v.get(i));
        }
        obj! {"len": v.len(), "w": v.bit_count(), "empty": v.is_empty(), "it": it, "gt": gt, "into": ws(into.into_iter()),
        "occ": v.occupied_len(), "past": past, "fresh": f == *v && *v == f, "cap": v.capacity()}
    })
}

pub fn strings(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 23, run as u64);
    ev! {"ev": "run", "run": run};
    let mut vs: Vec<BitstringVec> = Vec::new();
    let w0 = 1 + run % 64;
    let big = *r.pick(&[3usize, 6, 12, 24]);
    macro_rules! o {
        ($v:expr) => {
            match ostr(&$v, &mut r) {
                Some(o) => o,
                None => return,
            }
        };
    }
    macro_rules! go {
        ($n:expr, $e:expr) => {
            match must($n, || $e) {
                Some(x) => x,
                None => return,
            }
        };
    }
    let value = |r: &mut Rng, w: usize| {
        let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
        match r.below(5) {
            0 => 0,
            1 => m,
            2 => 1u64 << r.below(w),
            3 => m ^ (1u64 << r.below(w)),
            _ => r.u64() & m,
        }
    };
    let start = r.range(1, 3);
    for step in 0..(start + 32) {
        if step < start || (vs.len() < 4 && r.chance(1, 16)) {
            let w = if r.chance(3, 4) { w0 } else { r.range(1, 64) };
            let n = r.below(big + 1);
            match r.below(if vs.is_empty() { 3 } else { 4 }) {
                0 => {
                    vs.push(go!("new", BitstringVec::new(w, n)));
                    ev! {"ev": "new", "how": "new", "w": w, "n": n, "o": o!(vs[vs.len() - 1])};
                }
                1 => {
                    let x = value(&mut r, w);
                    vs.push(go!("from_elem", BitstringVec::from_elem(w, n, x)));
                    ev! {"ev": "new", "how": "elem", "w": w, "n": n, "x": W(x), "o": o!(vs[vs.len() - 1])};
                }
                2 => {
                    vs.push(go!("with_capacity", BitstringVec::with_capacity(w, n)));
                    ev! {"ev": "new", "how": "cap", "w": w, "n": n, "o": o!(vs[vs.len() - 1])};
                }
                _ => {
                    let from = r.below(vs.len());
                    let c = go!("clone", vs[from].clone());
                    vs.push(c);
                    ev! {"ev": "new", "how": "clone", "from": from + 1, "o": o!(vs[vs.len() - 1])};
                }
            }
            continue;
        }
        let id = r.below(vs.len());
        let (len, w) = (vs[id].len(), vs[id].bit_count());
        match r.below(22) {
            0..=5 => {
                let i = if r.chance(1, 12) || len == 0 { len + *r.pick(&[0usize, 1, 64]) } else { r.below(len) };
                let x = value(&mut r, w);
                let ok = guard(|| vs[id].set(i, x)).is_ok();
                ev! {"ev": "set", "id": id + 1, "i": i, "x": W(x), "ok": ok, "o": o!(vs[id])};
            }
            6..=9 => {
                let times = if len > 60 { 1 } else { r.range(1, 4) };
                for _ in 0..times {
                    let x = value(&mut r, w);
                    go!("push", vs[id].push(x));
                    ev! {"ev": "push", "id": id + 1, "x": W(x), "o": o!(vs[id])};
                }
            }
            10..=12 => {
                let times = r.range(1, 4);
                for _ in 0..times {
                    let x = guard(|| vs[id].pop());
                    ev! {"ev": "pop", "id": id + 1, "ok": x.is_ok(), "r": W(x.unwrap_or(0)), "o": o!(vs[id])};
                }
            }
            13 => {
                let n = if r.chance(1, 4) { len + r.below(3) } else { len - r.below(len.min(5) + 1) };
                go!("truncate", vs[id].truncate(n));
                ev! {"ev": "trunc", "id": id + 1, "n": n, "o": o!(vs[id])};
            }
            14 => {
                go!("clear", vs[id].clear());
                ev! {"ev": "clear", "id": id + 1, "o": o!(vs[id])};
            }
            15 => {
                let n = r.below(40);
                if r.chance(1, 2) {
                    go!("reserve", vs[id].reserve(n))
                } else {
                    go!("reserve_exact", vs[id].reserve_exact(n))
                }
                ev! {"ev": "reserve", "id": id + 1, "n": n, "o": o!(vs[id])};
            }
            17 | 18 => {
                let v = &vs[id];
                let steps = go!("iterate", match r.below(3) {
                    0 => walk(&mut r, v.iter(), len, W),
                    1 => walk(&mut r, v.into_iter(), len, W),
                    _ => walk(&mut r, v.clone().into_iter(), len, W),
                });
                ev! {"ev": "walk", "id": id + 1, "steps": steps};
            }
            16 => {
                let b = r.below(vs.len());
                let src = vs[b].clone();
                go!("clone_from", vs[id].clone_from(&src));
                ev! {"ev": "copy", "id": id + 1, "b": b + 1, "o": o!(vs[id])};
            }
            _ => {
                let b = r.below(vs.len());
                let e = go!("eq", vs[id] == vs[b]);
                let ne = go!("ne", vs[b] != vs[id]);
                ev! {"ev": "eq", "id": id + 1, "b": b + 1, "r": e && !ne};
            }
        }
    }
}

/// The model's strings of `w` bits become strings of a wider width: its bits, spread over the width
/// so that the extreme ones are hit.
pub fn replay_strings(run: usize, head: &[i64], ops: &[Vec<i64>]) {
    let mut r = Rng::new(6, 23, run as u64);
    let (w, wide) = (head[0] as usize, head[1] as usize);
    let spread = |x: i64| (0..w).filter(|j| x >> j & 1 == 1).fold(0u64, |a, j| a | 1u64 << (j * (wide - 1) / (w - 1).max(1)));
    ev! {"ev": "run", "run": run};
    let mut v = BitstringVec::new(wide, 0);
    macro_rules! o {
        () => {
            match ostr(&v, &mut r) {
                Some(o) => o,
                None => return,
            }
        };
    }
    ev! {"ev": "new", "how": "new", "w": wide, "n": 0, "o": o!()};
    for op in ops {
        let a = |i: usize| op[i] as usize;
        let mut out = 0;
        let res = guard(|| match op[0] {
            1 => v.set(a(1), spread(op[2])),
            2 => v.push(spread(op[1])),
            3 => out = v.pop(),
            4 => v.truncate(a(1)),
            _ => v.clear(),
        });
        match op[0] {
            1 => ev! {"ev": "set", "id": 1, "i": a(1), "x": W(spread(op[2])), "ok": res.is_ok(), "o": o!()},
            3 => ev! {"ev": "pop", "id": 1, "ok": res.is_ok(), "r": W(out), "o": o!()},
            _ if res.is_err() => {
                ev! {"ev": "panic", "op": "replay", "msg": "panic"};
                return;
            }
            2 => ev! {"ev": "push", "id": 1, "x": W(spread(op[1])), "o": o!()},
            4 => ev! {"ev": "trunc", "id": 1, "n": a(1), "o": o!()},
            _ => ev! {"ev": "clear", "id": 1, "o": o!()},
        }
    }
}

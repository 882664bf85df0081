//! Very long vectors, read back as runs of equal values.
use crate::util::*;
use crate::{ev, obj};
use probabilistic_collections::verif_hooks::{BitVec, BitstringVec};

fn rle<X: PartialEq + Copy>(it: impl Iterator<Item = X>) -> Vec<(usize, X)> {
    let mut v: Vec<(usize, X)> = Vec::new();
    for x in it {
        let runs = v.len();
        match v.last_mut() {
            Some(p) if p.1 == x => p.0 += 1,
            _ if runs > 120 => break,
            _ => v.push((1, x)),
        }
    }
    v
}
fn bit(p: Vec<(usize, bool)>) -> Vec<(usize, usize)> {
    p.into_iter().map(|(n, b)| (n, usize::from(b))).collect()
}
fn word(p: Vec<(usize, u64)>) -> Vec<(usize, W)> {
    p.into_iter().map(|(n, x)| (n, W(x))).collect()
}

fn obits(r: &mut Rng, v: &BitVec) -> Option<Raw> {
    must("query", || {
        let mut reads = vec![bit(rle((0..v.len()).map(|i| v.get(i).unwrap())))];
        match r.below(4) {
            0 => reads.push(bit(rle(v.iter()))),
            1 => reads.push(bit(rle(v.into_iter()))),
            2 => reads.push(bit(rle(v.clone().into_iter()))),
            _ => reads.push(bit(rle((0..v.len()).map(|i| v[i])))),
        }
        let far = v.len() + r.below(100);
        obj! {"len": v.len(), "ones": v.count_ones(), "zeros": v.count_zeros(), "cap": v.capacity(), "reads": reads,
        "bytes": rle(v.to_bytes().into_iter()).into_iter().map(|(n, b)| (n, usize::from(b))).collect::<Vec<(usize, usize)>>(),
        "past": v.get(v.len()).is_none() && v.get(far).is_none()}
    })
}
fn ostrs(r: &mut Rng, v: &BitstringVec) -> Option<Raw> {
    must("query", || {
        let mut reads = vec![word(rle((0..v.len()).map(|i| v.get(i))))];
        match r.below(3) {
            0 => reads.push(word(rle(v.iter()))),
            1 => reads.push(word(rle(v.into_iter()))),
            _ => reads.push(word(rle(v.clone().into_iter()))),
        }
        let far = v.len() + r.below(100);
        obj! {"len": v.len(), "ones": v.occupied_len(), "cap": v.capacity(), "reads": reads,
        "past": guard(|| v.get(v.len())).is_err() && guard(|| v.get(far)).is_err()}
    })
}
macro_rules! go {
    ($n:expr, $e:expr) => {
        match must($n, || $e) {
            Some(x) => x,
            None => return,
        }
    };
}
macro_rules! o {
    ($f:ident, $r:expr, $v:expr) => {
        match $f(&mut $r, $v) {
            Some(o) => o,
            None => return,
        }
    };
}

pub fn bits(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 31, run as u64);
    ev! {"ev": "run", "run": run, "kind": "bits"};
    let n = match run % 4 {
        0 => r.range(1000, 9000),
        1 => *r.pick(&[1usize << 15, 1 << 16, 1 << 17, 1 << 18]) + r.below(20) - 10,
        2 => r.range(20_000, 150_000),
        _ => r.range(400_000, 1_100_000),
    };
    let mut vs: Vec<BitVec> = Vec::new();
    let start = r.range(2, 3);
    for step in 0..start + 22 {
        if step < start {
            if r.chance(1, 2) {
                let b = r.chance(1, 2);
                vs.push(go!("from_elem", BitVec::from_elem(n, b)));
                ev! {"ev": "rnew", "how": "elem", "n": n, "x": usize::from(b), "o": o!(obits, r, &vs[step])};
            } else {
                // bytes of few runs, with some mixed bytes between them
                let mut bytes: Vec<u8> = Vec::new();
                while bytes.len() < n / 8 {
                    let k = r.range(1, n / 8);
                    let b = if r.chance(1, 2) { 0 } else { 255u8 };
                    bytes.extend(std::iter::repeat(b).take(k.min(n / 8 - bytes.len())));
                    if bytes.len() < n / 8 && bytes.len() % 3 == 0 {
                        bytes.push(r.word() as u8);
                    }
                    if bytes.len() > n / 8 * 3 / 4 {
                        let b = if r.chance(1, 2) { 0 } else { 255u8 };
                        bytes.resize(n / 8, b);
                    }
                }
                let p: Vec<(usize, usize)> = rle(bytes.iter().copied()).into_iter().map(|(n, b)| (n, usize::from(b))).collect();
                let mut v = go!("from_bytes", BitVec::from_bytes(&bytes));
                ev! {"ev": "rnew", "how": "bytes", "bytes": p, "o": o!(obits, r, &v)};
                // the rest, up to the common length
                let k = n % 8;
                go!("push", (0..k).for_each(|_| v.push(true)));
                vs.push(v);
                ev! {"ev": "rpush", "id": vs.len(), "p": if k == 0 { vec![] } else { vec![(k, 1usize)] }, "o": o!(obits, r, &vs[step])};
            }
            continue;
        }
        let id = r.below(vs.len());
        let len = vs[id].len();
        let many = rle(vs[id].iter()).len() > 36;
        let what = if many { r.range(10, 13) } else { r.below(24) };
        match what {
            0..=2 if len > 0 => {
                let (i, b) = (r.below(len), r.chance(1, 2));
                go!("set", vs[id].set(i, b));
                ev! {"ev": "rset", "id": id + 1, "i": i, "x": usize::from(b), "o": o!(obits, r, &vs[id])};
            }
            3 | 4 if len > 0 => {
                let i = if r.chance(1, 3) { len - 1 } else { r.below(len) };
                go!("flip", vs[id].flip(i));
                ev! {"ev": "rflip", "id": id + 1, "i": i, "o": o!(obits, r, &vs[id])};
            }
            5 | 6 => {
                let p: Vec<(usize, usize)> = (0..r.range(1, 3)).map(|_| (r.range(1, n / 4), r.below(2))).collect();
                go!("push", p.iter().for_each(|(k, b)| (0..*k).for_each(|_| vs[id].push(*b == 1))));
                ev! {"ev": "rpush", "id": id + 1, "p": p, "o": o!(obits, r, &vs[id])};
            }
            7 if len > 0 => {
                let k = r.range(1, len.min(n / 4 + 1));
                let mut popped = go!("pop", (0..k).map(|_| vs[id].pop().unwrap()).collect::<Vec<bool>>());
                popped.reverse();
                ev! {"ev": "rpop", "id": id + 1, "k": k, "p": bit(rle(popped.into_iter())), "o": o!(obits, r, &vs[id])};
            }
            8 | 9 => {
                let m = if r.chance(1, 2) { n } else { r.range(n / 2, n + 9) };
                go!("truncate", vs[id].truncate(m));
                ev! {"ev": "rcut", "id": id + 1, "n": m, "o": o!(obits, r, &vs[id])};
            }
            10 => {
                let b = r.chance(1, 2);
                go!("set_all", vs[id].set_all(b));
                ev! {"ev": "rfill", "id": id + 1, "x": usize::from(b), "o": o!(obits, r, &vs[id])};
            }
            11 if many => {
                let m = r.range(n / 4, n / 2);
                go!("truncate", vs[id].truncate(m));
                ev! {"ev": "rcut", "id": id + 1, "n": m, "o": o!(obits, r, &vs[id])};
            }
            11..=13 if !many || what > 11 => {
                go!("flip_all", vs[id].flip_all());
                ev! {"ev": "rflipall", "id": id + 1, "o": o!(obits, r, &vs[id])};
            }
            14..=19 => {
                // pairwise: cut or fill both to one length first
                let b = (id + 1) % vs.len();
                let m = vs[id].len().min(vs[b].len());
                for j in [id, b].iter() {
                    if vs[*j].len() > m {
                        go!("truncate", vs[*j].truncate(m));
                        ev! {"ev": "rcut", "id": j + 1, "n": m, "o": o!(obits, r, &vs[*j])};
                    }
                }
                let other = vs[b].clone();
                let op = *r.pick(&["union", "inter", "diff", "sym"]);
                go!(op, match op {
                    "union" => vs[id].union(&other),
                    "inter" => vs[id].intersection(&other),
                    "diff" => vs[id].difference(&other),
                    _ => vs[id].symmetric_difference(&other),
                });
                ev! {"ev": "rcomb", "id": id + 1, "b": b + 1, "op": op, "o": o!(obits, r, &vs[id])};
            }
            20 => {
                let b = (id + 1) % vs.len();
                let src = vs[b].clone();
                go!("clone_from", vs[id].clone_from(&src));
                ev! {"ev": "rcopy", "id": id + 1, "b": b + 1, "o": o!(obits, r, &vs[id])};
                if r.chance(1, 2) && !vs[id].is_empty() {
                    let i = r.below(vs[id].len());
                    go!("flip", vs[id].flip(i));
                    ev! {"ev": "rflip", "id": id + 1, "i": i, "o": o!(obits, r, &vs[id])};
                }
                ev! {"ev": "req", "id": id + 1, "b": b + 1, "r": go!("eq", vs[id] == vs[b] && !(vs[b] != vs[id]))};
            }
            21 => {
                let k = r.below(n);
                if r.chance(1, 2) {
                    go!("reserve", vs[id].reserve(k))
                } else {
                    go!("reserve_exact", vs[id].reserve_exact(k))
                }
                ev! {"ev": "rreserve", "id": id + 1, "n": k, "o": o!(obits, r, &vs[id])};
            }
            _ => {
                let b = r.below(vs.len());
                ev! {"ev": "req", "id": id + 1, "b": b + 1, "r": go!("eq", vs[id] == vs[b] && !(vs[b] != vs[id]))};
            }
        }
    }
}

pub fn strings(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 32, run as u64);
    ev! {"ev": "run", "run": run, "kind": "strs"};
    let w = if r.chance(1, 4) { *r.pick(&[1usize, 8, 16, 32, 63, 64]) } else { r.range(1, 64) };
    let n = match run % 4 {
        0 => r.range(500, 4000),
        1 => *r.pick(&[1usize << 12, 1 << 14, 1 << 15, 1 << 16]) + r.below(20) - 10,
        2 => r.range(5_000, 40_000),
        _ => r.range(60_000, 160_000),
    };
    let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    let pool = [0, m, 1, 1 << (w - 1), r.u64() & m, r.u64() & m];
    let mut vs: Vec<BitstringVec> = Vec::new();
    let start = r.range(1, 2);
    for step in 0..start + 18 {
        if step < start {
            let x = *r.pick(&pool);
            vs.push(go!("from_elem", BitstringVec::from_elem(w, n, x)));
            ev! {"ev": "rnew", "how": "elem", "n": n, "x": W(x), "o": o!(ostrs, r, &vs[step])};
            continue;
        }
        let id = r.below(vs.len());
        let len = vs[id].len();
        let many = rle(vs[id].iter()).len() > 36;
        match if many { r.range(9, 10) } else { r.below(18) } {
            0..=4 if len > 0 => {
                let (i, x) = (if r.chance(1, 4) { len - 1 } else { r.below(len) }, *r.pick(&pool));
                go!("set", vs[id].set(i, x));
                ev! {"ev": "rset", "id": id + 1, "i": i, "x": W(x), "o": o!(ostrs, r, &vs[id])};
            }
            5 | 6 | 11 => {
                let p: Vec<(usize, u64)> = (0..r.range(1, 4)).map(|_| (r.range(1, n / 4), *r.pick(&pool))).collect();
                go!("push", p.iter().for_each(|(k, x)| (0..*k).for_each(|_| vs[id].push(*x))));
                ev! {"ev": "rpush", "id": id + 1, "p": word(p), "o": o!(ostrs, r, &vs[id])};
            }
            7 if len > 0 => {
                let k = r.range(1, len.min(n / 4 + 1));
                let mut popped = go!("pop", (0..k).map(|_| vs[id].pop()).collect::<Vec<u64>>());
                popped.reverse();
                ev! {"ev": "rpop", "id": id + 1, "k": k, "p": word(rle(popped.into_iter())), "o": o!(ostrs, r, &vs[id])};
            }
            8 | 9 => {
                let m = if many { n / 3 } else { r.range(n / 2, n + 9) };
                go!("truncate", vs[id].truncate(m));
                ev! {"ev": "rcut", "id": id + 1, "n": m, "o": o!(ostrs, r, &vs[id])};
            }
            10 => {
                go!("clear", vs[id].clear());
                ev! {"ev": "rfill", "id": id + 1, "x": W(0), "o": o!(ostrs, r, &vs[id])};
            }
            12 => {
                let b = (id + 1) % vs.len();
                let src = vs[b].clone();
                go!("clone_from", vs[id].clone_from(&src));
                ev! {"ev": "rcopy", "id": id + 1, "b": b + 1, "o": o!(ostrs, r, &vs[id])};
                if r.chance(1, 2) && !vs[id].is_empty() {
                    let (i, x) = (r.below(vs[id].len()), *r.pick(&pool));
                    go!("set", vs[id].set(i, x));
                    ev! {"ev": "rset", "id": id + 1, "i": i, "x": W(x), "o": o!(ostrs, r, &vs[id])};
                }
                ev! {"ev": "req", "id": id + 1, "b": b + 1, "r": go!("eq", vs[id] == vs[b] && !(vs[b] != vs[id]))};
            }
            13 => {
                let k = r.below(n);
                if r.chance(1, 2) {
                    go!("reserve", vs[id].reserve(k))
                } else {
                    go!("reserve_exact", vs[id].reserve_exact(k))
                }
                ev! {"ev": "rreserve", "id": id + 1, "n": k, "o": o!(ostrs, r, &vs[id])};
            }
            14 if vs.len() < 3 => {
                let c = go!("clone", vs[id].clone());
                vs.push(c);
                ev! {"ev": "rnew", "how": "clone", "from": id + 1, "o": o!(ostrs, r, &vs[vs.len() - 1])};
            }
            _ => {
                let b = r.below(vs.len());
                ev! {"ev": "req", "id": id + 1, "b": b + 1, "r": go!("eq", vs[id] == vs[b] && !(vs[b] != vs[id]))};
            }
        }
    }
}

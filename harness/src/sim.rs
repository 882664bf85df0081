//! MinHash, SimHash, shingles, Jaccard similarity.
use crate::bloom::{gen_words, words};
use crate::util::*;
use crate::{ev, obj};
use probabilistic_collections::similarity::*;
use probabilistic_collections::SipHasherBuilder;

type Items = std::vec::IntoIter<Key>;

fn limbs(v: &[u64]) -> Vec<W> {
    v.iter().map(|w| W(*w)).collect()
}
/// A bag over some keys: subsets, repetitions, any order.
fn bag(r: &mut Rng, pool: usize, most: usize) -> Vec<usize> {
    let n = r.range(1, most);
    let span = r.range(1, pool);
    let base = r.below(pool - span + 1);
    (0..n).map(|_| base + r.below(span)).collect()
}

pub fn minhash(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 9, run as u64);
    ev! {"ev": "run", "run": run};
    let k = match r.below(4) {
        0 => r.range(1, 4),
        1 => r.range(5, 40),
        2 => r.range(41, 120),
        _ => *r.pick(&[2usize, 64, 128, 256, 300]),
    };
    // now and then very many items, or very many hashers
    let style = run % 16;
    let k = match style {
        5 => r.range(1, 6),
        9 => r.range(500, 1500),
        _ => k,
    };
    let long = style == 5 || style == 9;
    if long || r.chance(3, 4) {
        let n = match style {
            5 => r.range(200, 900),
            9 => r.range(1, 2),
            _ => r.range(1, 8),
        };
        let mut ws = gen_words(&mut r, n.min(8));
        while ws.len() < n {
            let w = (r.word(), r.word());
            ws.push(w);
        }
        let hb = picks(r.u64());
        let mh = MinHash::<Items, Key, Pick>::with_hashers(k, hb);
        let other = MinHash::<Items, Key, Pick>::with_hashers(k + 1, hb);
        let mut bags: Vec<Vec<usize>> = Vec::new();
        let mut sigs: Vec<(usize, Vec<u64>)> = Vec::new();
        let keys = |b: &[usize]| b.iter().map(|i| Key { a: ws[*i].0, b: ws[*i].1 }).collect::<Vec<_>>();
        for _ in 0..if long { 2 } else if k > 100 { 3 } else { 6 } {
            // a fresh bag, the union of two, or a shuffled repetition of one
            let b = match r.below(4) {
                0 if bags.len() > 1 => {
                    let mut u = r.pick(&bags).clone();
                    u.extend(r.pick(&bags).iter());
                    u
                }
                1 if !bags.is_empty() => {
                    let mut u = r.pick(&bags).clone();
                    u.reverse();
                    let x = *r.pick(&u);
                    u.push(x);
                    u
                }
                _ => bag(&mut r, n, 2 * n),
            };
            let m = if r.chance(1, 8) { &other } else { &mh };
            match must("get_min_hashes", || m.get_min_hashes(keys(&b).into_iter())) {
                Some(s) => {
                    let items: Vec<(u64, u64)> = b.iter().map(|i| ws[*i]).collect();
                    ev! {"ev": "sig", "k": m.hasher_count(), "items": words(&items), "sig": limbs(&s)};
                    sigs.push((m.hasher_count(), s));
                    bags.push(b);
                }
                None => return,
            }
        }
        for _ in 0..8 {
            let (a, b) = (r.below(sigs.len()), r.below(sigs.len()));
            let m = if sigs[a].0 == k { &mh } else { &other };
            let s = guard(|| m.get_similarity_from_hashes(&sigs[a].1, &sigs[b].1));
            let t = guard(|| m.get_similarity_from_hashes(&sigs[b].1, &sigs[a].1));
            let same = sigs[a].0 == sigs[b].0;
            let u = if same { guard(|| m.get_similarity(keys(&bags[a]).into_iter(), keys(&bags[b]).into_iter())) } else { Ok(-1.0) };
            let f = |x: &Result<f64, String>| x.as_ref().map_or(-2, |v| nano(*v));
            ev! {"ev": "sim", "a": a + 1, "b": b + 1, "ok": s.is_ok(), "r": f(&s), "back": f(&t), "items": f(&u)};
        }
        for _ in 0..4 {
            let la = r.range(1, k.min(30));
            let lb = if r.chance(1, 3) { r.range(1, k.min(30)) } else { la };
            let pool = [0u64, 1, u64::MAX, 1 << 63, r.u64()];
            let a: Vec<u64> = (0..la).map(|_| *r.pick(&pool)).collect();
            let b: Vec<u64> = (0..lb).map(|i| if i < la && r.chance(1, 2) { a[i] } else { *r.pick(&pool) }).collect();
            let m = MinHash::<Items, Key, Pick>::with_hashers(la, hb);
            let s = guard(|| m.get_similarity_from_hashes(&a, &b));
            ev! {"ev": "raw", "k": la, "a": limbs(&a), "b": limbs(&b), "ok": s.is_ok(), "r": s.as_ref().map_or(-2, |v| nano(*v))};
        }
    } else {
        // shingles of words under SipHash
        let s: Vec<u64> = (0..4).map(|_| r.u64()).collect();
        let hb = [SipHasherBuilder::from_seed(s[0], s[1]), SipHasherBuilder::from_seed(s[2], s[3])];
        let mh = MinHash::<ShingleIterator<str>, Vec<&str>>::with_hashers(k.min(64), hb);
        let words_pool = ["the", "cat", "sat", "on", "a", "mat"];
        let mut sigs = Vec::new();
        let mut texts = Vec::new();
        for _ in 0..3 {
            let w = r.range(1, 3);
            let text: Vec<&str> = (0..r.range(w, 10)).map(|_| *r.pick(&words_pool)).collect();
            let items: Vec<(u64, u64)> = text.windows(w).map(|x| (sip(s[0], s[1], &x.to_vec()), sip(s[2], s[3], &x.to_vec()))).collect();
            match must("get_min_hashes", || mh.get_min_hashes(ShingleIterator::new(w, text.clone()))) {
                Some(g) => {
                    ev! {"ev": "sig", "k": mh.hasher_count(), "items": words(&items), "sig": limbs(&g)};
                    sigs.push(g);
                    texts.push((w, text));
                }
                None => return,
            }
        }
        for a in 0..3 {
            for b in 0..3 {
                let it = |i: usize| ShingleIterator::new(texts[i].0, texts[i].1.clone());
                let f = |x: Result<f64, String>| x.map_or(-2, nano);
                let q = guard(|| mh.get_similarity_from_hashes(&sigs[a], &sigs[b]));
                let ok = q.is_ok();
                ev! {"ev": "sim", "a": a + 1, "b": b + 1, "ok": ok, "r": f(q),
                "back": f(guard(|| mh.get_similarity_from_hashes(&sigs[b], &sigs[a]))), "items": f(guard(|| mh.get_similarity(it(a), it(b))))};
            }
        }
    }
}

/// The derived hashes of single items, which are their signatures, far into the sequence; long signatures of a few items.
pub fn hashes(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 13, run as u64);
    ev! {"ev": "run", "run": run};
    for turn in 0..4 {
        let k = match r.below(6) {
            0 => r.range(1, 300),
            1 | 2 => r.range(300, 3000),
            3 => (1usize << r.range(8, 17)) + r.range(1, 9),
            4 => r.range(60_000, 70_000),
            _ => r.range(3000, 200_000),
        };
        let k = if turn == 0 && run % 8 == 3 { r.range(1 << 20, 3 << 20) } else { k };
        let mut at: Vec<usize> = (0..5).chain(k.saturating_sub(4)..k).collect();
        at.extend((6..22).flat_map(|e| (1usize << e) - 2..(1 << e) + 3));
        at.extend((0..60).map(|_| r.below(k)));
        at.retain(|i| *i < k);
        at.sort();
        at.dedup();
        let sip_turn = r.chance(1, 4);
        let (ws, sig) = if sip_turn {
            let s: Vec<u64> = (0..4).map(|_| r.u64()).collect();
            let hb = [SipHasherBuilder::from_seed(s[0], s[1]), SipHasherBuilder::from_seed(s[2], s[3])];
            let x = format!("{}", r.u64());
            let mh = MinHash::<std::vec::IntoIter<String>, String>::with_hashers(k, hb);
            (vec![(sip(s[0], s[1], &x), sip(s[2], s[3], &x))], must("get_min_hashes", || mh.get_min_hashes(vec![x].into_iter())))
        } else {
            let w: Vec<(u64, u64)> = (0..if r.chance(1, 2) { 1 } else { r.range(2, 4) }).map(|_| (r.word(), r.word())).collect();
            let mh = MinHash::<Items, Key, Pick>::with_hashers(k, picks(r.u64()));
            let mut keys: Vec<Key> = w.iter().map(|w| Key { a: w.0, b: w.1 }).collect();
            if w.len() > 1 && k < 20_000 {
                // the rest behind very many copies of the first, which add nothing
                let copies = r.range(1, (6_000_000 / k).min(100_000));
                keys.splice(0..0, (0..copies).map(|_| Key { a: w[0].0, b: w[0].1 }));
            }
            (w, must("get_min_hashes", || mh.get_min_hashes(keys.into_iter())))
        };
        match sig {
            Some(s) => {
                let v: Vec<W> = at.iter().map(|i| W(*s.get(*i).unwrap_or(&0xdead))).collect();
                ev! {"ev": "seq", "k": k, "n": s.len(), "items": words(&ws), "at": at, "v": v};
                // the similarity to a copy that differs in some of those places
                let mut t = s.clone();
                let odd: Vec<usize> = at.iter().copied().filter(|i| *i < t.len() && r.chance(1, 3)).collect();
                odd.iter().for_each(|i| t[*i] ^= r.word() | 1);
                let mh = MinHash::<Items, Key, Pick>::with_hashers(s.len(), picks(r.u64()));
                let ask = |a: &[u64], b: &[u64]| must("get_similarity_from_hashes", || mh.get_similarity_from_hashes(a, b)).map_or(-2, nano);
                ev! {"ev": "near", "k": s.len(), "odd": odd.len(), "r": ask(&s, &t), "back": ask(&t, &s), "self": ask(&s, &s)}
            }
            None => return,
        }
    }
}

pub fn simhash(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 10, run as u64);
    ev! {"ev": "run", "run": run};
    let sh = SimHash::<Items, Key, Pick>::with_hasher(picks(r.u64())[0]);
    for _ in 0..12 {
        let n = match r.below(6) {
            0 => 1,
            1 => 2,
            2 => r.range(0, 8),
            3 => r.range(9, 40),
            4 => 2 * r.range(1, 6),
            _ => r.range(100, 300),
        };
        let p = r.range(1, 9);
        let pool: Vec<u64> = (0..p).map(|_| r.word()).collect();
        let hs: Vec<u64> = match r.below(4) {
            0 => (0..n).map(|_| r.u64()).collect(),
            1 => (0..n).map(|i| if i % 2 == 0 { pool[0] } else { !pool[0] }).collect(),
            2 => vec![pool[0]; n],
            _ => (0..n).map(|_| *r.pick(&pool)).collect(),
        };
        let keys: Vec<Key> = hs.iter().enumerate().map(|(i, h)| Key { a: *h, b: i as u64 }).collect();
        match must("get_sim_hash", || sh.get_sim_hash(keys.into_iter())) {
            Some(s) => ev! {"ev": "vote", "hs": limbs(&hs), "r": W(s)},
            None => return,
        }
    }
    // few hashes, many occurrences
    if r.chance(1, 3) {
        let p = r.range(1, 5);
        let hs: Vec<u64> = (0..p).map(|_| r.word()).collect();
        let huge = r.chance(1, 30);
        let ns: Vec<usize> = (0..p)
            .map(|i| match r.below(4) {
                _ if huge && i == 0 => (1 << 24) + r.range(1, 9),
                0 => (1usize << r.range(6, 16)) + r.range(0, 2),
                1 => (1usize << r.range(7, 16)) - 1,
                _ => r.range(1, 40_000),
            })
            .collect();
        let blocks = huge || r.chance(1, 2);
        let mut bag: Vec<Key> = Vec::new();
        for (i, h) in hs.iter().enumerate() {
            bag.extend((0..ns[i]).map(|n| Key { a: *h, b: n as u64 }));
        }
        if !blocks {
            for i in (1..bag.len()).rev() {
                let j = r.below(i + 1);
                bag.swap(i, j);
            }
        }
        match must("get_sim_hash", || sh.get_sim_hash(bag.into_iter())) {
            Some(s) => ev! {"ev": "bag", "hs": limbs(&hs), "ns": ns, "r": W(s)},
            None => return,
        }
    }
    let (k0, k1) = (r.u64(), r.u64());
    let sp = SimHash::<ShingleIterator<str>, Vec<&str>>::with_hasher(SipHasherBuilder::from_seed(k0, k1));
    let words_pool = ["the", "cat", "sat", "on", "a", "mat"];
    let w = r.range(1, 3);
    let text: Vec<&str> = (0..r.range(w, 14)).map(|_| *r.pick(&words_pool)).collect();
    let hs: Vec<u64> = text.windows(w).map(|x| sip(k0, k1, &x.to_vec())).collect();
    match must("get_sim_hash", || sp.get_sim_hash(ShingleIterator::new(w, text.clone()))) {
        Some(s) => ev! {"ev": "vote", "hs": limbs(&hs), "r": W(s)},
        None => (),
    }
}

pub fn pairs(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 11, run as u64);
    ev! {"ev": "run", "run": run};
    let sh = SimHash::<Items, Key, Pick>::with_hasher(picks(r.u64())[0]);
    let n = match r.below(4) {
        0 => r.range(0, 4),
        _ => r.range(3, 12),
    };
    let n = match run % 48 {
        5 => r.range(24, 40),
        21 => r.range(41, 130),
        37 => r.range(131, 300),
        _ => n,
    };
    let base = r.word();
    let (big, far) = (run % 16 == 5, run % 48 == 21);
    let style = if far { *r.pick(&[4, 5, 8, 8]) } else if big { r.range(3, 7) } else { r.below(6) };
    let inputs: Vec<Vec<u64>> = (0..n)
        .map(|_| {
            let h = match style {
                0 => r.u64(),
                1 => base ^ (1 << r.below(64)),
                2 => base ^ (1 << (r.below(4) * 16)),
                3 => base.rotate_left(r.below(64) as u32),
                4 => *r.pick(&[base, !base, base ^ 1, base ^ (1 << 63)]),
                6 => base ^ (1 << r.below(64)) ^ (1 << r.below(64)),
                7 => r.u64(),
                8 => base,
                _ => r.below(6) as u64,
            };
            if r.chance(1, 8) {
                vec![h, r.u64(), r.u64()]
            } else {
                vec![h]
            }
        })
        .collect();
    let its = || inputs.iter().map(|b| b.iter().map(|h| Key { a: *h, b: 0 }).collect::<Vec<_>>().into_iter()).collect::<Vec<Items>>();
    let hs: Vec<u64> = match must("get_sim_hash", || its().into_iter().map(|i| sh.get_sim_hash(i)).collect()) {
        Some(h) => h,
        None => return,
    };
    for w in [if far { r.range(30, n + 3) } else if n > 40 { r.range(2, 6) } else { 2 }, r.range(2, 5), r.range(2, n + 3)].into_iter().take(if big { 1 } else { 3 }) {
        let res = guard(|| sh.report_similarities(w, its()));
        let ok = res.is_ok();
        let p: Vec<(usize, usize)> = res.unwrap_or_default().iter().map(|(a, b)| (a + 1, b + 1)).collect();
        if n > 12 {
            // with the order of the inputs under each rotation, for the specification to verify
            let orders: Vec<Vec<usize>> = (0..64)
                .map(|q| {
                    let mut o: Vec<usize> = (1..=n).collect();
                    o.sort_by_key(|i| (hs[i - 1].rotate_left(q), *i));
                    o
                })
                .collect();
            ev! {"ev": "pairs", "w": w, "hs": limbs(&hs), "ok": ok, "r": p, "orders": orders};
        } else {
            ev! {"ev": "pairs", "w": w, "hs": limbs(&hs), "ok": ok, "r": p, "orders": Vec::<Vec<usize>>::new()};
        }
    }
}

pub fn shingle(seed: u64, run: usize) {
    let mut r = Rng::new(seed, 12, run as u64);
    ev! {"ev": "run", "run": run};
    let pool: Vec<String> = (0..5).map(|i| format!("t{}", i)).collect();
    let long = run % 32 == 7;
    if run % 16 == 3 {
        // thousands of tokens: the i-th is i * step modulo kinds; thousands of items: ranges, given several times over
        for _ in 0..2 {
            let (n, step, kinds) = (*r.pick(&[1000usize, 4100, 9000, 30_000, 70_000]) + r.below(100), r.range(1, 40_000), r.range(2, 50_000));
            let w = if r.chance(1, 3) { r.range(100, 5000) } else { r.range(1, 9) };
            let mut want: Vec<usize> = (0..8).map(|_| r.below(n)).collect();
            want.extend([0, n.saturating_sub(w), n.saturating_sub(w + 1)].iter());
            let offsets = [0, w - 1, r.below(w), r.below(w)];
            let res = must("shingles", || {
                let tokens: Vec<String> = (0..n).map(|i| (i * step % kinds).to_string()).collect();
                let mut seen: Vec<Raw> = Vec::new();
                let mut count = 0usize;
                for (j, s) in ShingleIterator::new(w, tokens.iter().map(|t| t.as_str()).collect()).enumerate() {
                    count += 1;
                    if want.contains(&j) {
                        let at: Vec<(usize, usize)> = offsets.iter().filter(|o| **o < s.len()).map(|o| (*o, s[*o].parse().unwrap())).collect();
                        seen.push(obj! {"j": j, "len": s.len(), "at": at});
                    }
                    if count > n + 9 {
                        break;
                    }
                }
                (count, seen)
            });
            match res {
                Some((count, seen)) => ev! {"ev": "shl", "n": n, "step": step, "kinds": kinds, "w": w, "count": count, "seen": seen},
                None => return,
            }
            let side = |r: &mut Rng| {
                let n = if r.chance(1, 4) { r.below(10) } else { r.range(1000, 70_000) };
                (r.below(50_000), n, n * r.range(1, 3) - r.below(n / 3 + 1))
            };
            let (a, b) = (side(&mut r), side(&mut r));
            // n items from the first on, m of them in all, in an order of their own
            let list = |(lo, n, m): (usize, usize, usize)| (0..m.max(n)).map(move |i| lo + (if n % 7919 == 0 { i } else { i * 7919 }) % n);
            let both = must("jaccard", || (get_jaccard_similarity(list(a).collect::<Vec<_>>().into_iter(), list(b).collect::<Vec<_>>().into_iter()),
                get_jaccard_similarity(list(b).collect::<Vec<_>>().into_iter(), list(a).collect::<Vec<_>>().into_iter())));
            match both {
                Some((x, y)) => ev! {"ev": "jal", "a": (a.0, a.1), "b": (b.0, b.1), "r": nano(x), "back": nano(y)},
                None => return,
            }
        }
    }
    for turn in 0..6 {
        let n = if long && turn < 2 { r.range(100, 300) } else { r.range(0, 12) };
        let w = match r.below(6) {
            3 if long => r.range(30, 100),
            0 => n + r.range(1, 3),
            1 => n.max(1),
            2 => usize::MAX / 4,
            _ => r.range(1, 5),
        };
        let kinds = r.range(1, 5);
        let tok: Vec<usize> = (0..n).map(|_| r.below(kinds)).collect();
        let res = must("shingles", || {
            let mut it = ShingleIterator::new(w, tok.iter().map(|t| pool[*t].as_str()).collect());
            let mut out: Vec<Vec<String>> = Vec::new();
            while let Some(s) = it.next() {
                out.push(s.iter().map(|x| x.to_string()).collect());
                if out.len() > 400 {
                    break;
                }
            }
            let more = (0..4).filter(|_| it.next().is_some()).count();
            (out, more)
        });
        match res {
            Some((out, more)) => {
                let t: Vec<&String> = tok.iter().map(|t| &pool[*t]).collect();
                ev! {"ev": "shi", "tokens": t, "w": w.min(1_000_000), "out": out, "more": more}
            }
            None => return,
        }
        let steps = must("shingles", || {
            let it = ShingleIterator::new(w, tok.iter().map(|t| pool[*t].as_str()).collect());
            walk(&mut r, it, n, |s| s.iter().map(|x| x.to_string()).collect::<Vec<String>>())
        });
        match steps {
            Some(steps) => {
                let t: Vec<&String> = tok.iter().map(|t| &pool[*t]).collect();
                ev! {"ev": "walk", "tokens": t, "w": w.min(1_000_000), "steps": steps}
            }
            None => return,
        }
        let most = if long && turn < 2 { 700 } else { 20 };
        let span = r.range(1, most + most / 2);
        let base = r.below(10);
        let m = r.range(0, most);
        let a: Vec<usize> = (0..m).map(|_| r.below(span)).collect();
        let m = r.range(0, most);
        let b: Vec<usize> = (0..m).map(|_| base + r.below(span)).collect();
        let both = must("jaccard", || {
            (get_jaccard_similarity(a.clone().into_iter(), b.clone().into_iter()), get_jaccard_similarity(b.clone().into_iter(), a.clone().into_iter()))
        });
        match both {
            Some((x, y)) => ev! {"ev": "jac", "a": a, "b": b, "r": nano(x), "back": nano(y)},
            None => return,
        }
    }
}

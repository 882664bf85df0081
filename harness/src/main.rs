//! Drives the real collections and records what the public API answers, one JSON line per call.
#![allow(clippy::too_many_arguments)]
mod accuracy;
mod bits;
mod bloom;
mod cms;
mod copies;
mod cuckoo;
mod hll;
mod many;
mod quotient;
mod runs;
mod sim;
mod size;
mod stream;
mod util;
mod wide;

fn arg(name: &str, default: &str) -> String {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned()).unwrap_or_else(|| default.to_string())
}

fn main() {
    let family = std::env::args().nth(1).expect("family");
    let seed: u64 = arg("--seed", "1").parse().expect("seed");
    let from: usize = arg("--from", "0").parse().expect("from");
    let to: usize = arg("--to", "1").parse().expect("to");
    let out = arg("--out", "/dev/stdout");
    let script = arg("--script", "");
    let flush = std::env::args().any(|x| x == "--flush");
    std::panic::set_hook(Box::new(|_| {}));
    util::open(&out, flush);
    util::set_swap(std::env::args().any(|x| x == "--swap"));
    util::watchdog(20.0, 150.0);
    if script.is_empty() {
        for run in from..to {
            match family.as_str() {
                "bloom" => bloom::record(seed, run),
                "sbloom" => bloom::record_scalable(seed, run),
                "cuckoo" => cuckoo::record(seed, run),
                "quotient" => quotient::record(seed, run),
                "cms" => cms::record(seed, run),
                "hll" => hll::record(seed, run),
                "accuracy" => accuracy::record(seed, run),
                "mhll" => hll::record_many(seed, run),
                "minhash" => sim::minhash(seed, run),
                "hashes" => sim::hashes(seed, run),
                "simhash" => sim::simhash(seed, run),
                "pairs" => sim::pairs(seed, run),
                "shingle" => sim::shingle(seed, run),
                "clone" => copies::record(copies::Mode::Clone, seed, run),
                "serde" => copies::record(copies::Mode::Serde, seed, run),
                "equal" => copies::record(copies::Mode::Equal, seed, run),
                "builder" => copies::builders(seed, run),
                "size" => size::record(seed, run),
                "bitvec" => bits::bits(seed, run),
                "bitstr" => bits::strings(seed, run),
                "lbits" => runs::bits(seed, run),
                "lstrs" => runs::strings(seed, run),
                "stream" => stream::record(seed, run),
                "streamseen" => stream::record_seen(seed, run),
                "streamlong" => stream::record_long(seed, run),
                "scuckoo" => cuckoo::record_scalable(seed, run),
                f if f.starts_with('m') => many::record(f, seed, run),
                f if f.starts_with('w') => wide::record(f, seed, run),
                f => panic!("unknown family {}", f),
            }
        }
    } else {
        // script file: lines `H <ints>` (new run), `K <a> <b>` (a key), `O <ints>` (an operation)
        let text = std::fs::read_to_string(&script).expect("script");
        let mut runs: Vec<(Vec<i64>, Vec<(u64, u64)>, Vec<Vec<i64>>)> = Vec::new();
        for line in text.lines() {
            let mut it = line.split_whitespace();
            match it.next() {
                Some("H") => runs.push((it.map(|x| x.parse().unwrap()).collect(), Vec::new(), Vec::new())),
                Some("K") => {
                    let v: Vec<u64> = it.map(|x| x.parse().unwrap()).collect();
                    runs.last_mut().unwrap().1.push((v[0], v[1]));
                }
                Some("O") => runs.last_mut().unwrap().2.push(it.map(|x| x.parse().unwrap()).collect()),
                _ => {}
            }
        }
        for (i, (h, k, o)) in runs.iter().enumerate() {
            if i < from || i >= to {
                continue;
            }
            match family.as_str() {
                "bloom" => bloom::replay(i, h, k, o),
                "sbloom" => bloom::replay_scalable(i, h, k, o),
                "cuckoo" => cuckoo::replay(i, h, k, o),
                "bitvec" => bits::replay_bits(i, o),
                "bitstr" => bits::replay_strings(i, h, o),
                "quotient" => quotient::replay(i, h, o),
                "cms" => cms::replay(i, h, k, o),
                "hll" => hll::replay(i, h, k, o),
                f => panic!("unknown family {}", f),
            }
        }
    }
    util::close();
}

//! Shared pieces of the native monitors: random source, report lines, independent BER.
#![allow(dead_code)]

use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        for _ in 0..4 {
            r.u64();
        }
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// 0..n-1
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn u8(&mut self) -> u8 {
        self.u64() as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// Any i64, widths are equally probable
    pub fn i64(&mut self) -> i64 {
        let v = self.u64() >> self.below(64);
        match self.below(4) {
            0 => (v as i64).wrapping_neg(),
            1 => !(v as i64),
            _ => v as i64,
        }
    }
    /// Mostly small
    pub fn size(&mut self) -> usize {
        match self.below(12) {
            0 => 0,
            1..=5 => self.range(1, 8),
            6..=8 => self.range(9, 40),
            9 => self.range(120, 135),
            10 => self.range(250, 262),
            _ => self.range(41, 700),
        }
    }
}

pub struct Mon {
    pub shard: u64,
    pub shards: u64,
    pub seed: u64,
    pub n: u64,
    pub mode: String,
    t0: Instant,
    budget: Duration,
    counts: BTreeMap<String, u64>,
    done: BTreeMap<String, u64>,
    samples: BTreeMap<String, u32>,
    sigs: HashSet<u64>,
    cases: u64,
    pub capped: bool,
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn esc(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r
}

impl Mon {
    /// args: mode seed shard shards n budget
    pub fn new() -> Self {
        let a: Vec<String> = std::env::args().collect();
        let p = |i: usize, d: u64| a.get(i).and_then(|x| x.parse::<f64>().ok()).map_or(d, |x| x as u64);
        Mon {
            mode: a.get(1).cloned().unwrap_or_default(),
            seed: p(2, 1),
            shard: p(3, 0),
            shards: p(4, 1).max(1),
            n: p(5, 1000),
            budget: Duration::from_secs(p(6, 60)),
            t0: Instant::now(),
            counts: BTreeMap::new(),
            done: BTreeMap::new(),
            samples: BTreeMap::new(),
            sigs: HashSet::new(),
            cases: 0,
            capped: false,
        }
    }
    pub fn rng(&self, kind: &str, index: u64) -> Rng {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in kind.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x0100_0000_01b3);
        }
        Rng::new(h ^ self.seed.wrapping_mul(0xff51_afd7_ed55_8ccd) ^ index.wrapping_mul(0xc4ce_b9fe_1a85_ec53))
    }
    pub fn mine(&self, i: u64) -> bool {
        i % self.shards == self.shard
    }
    /// Number the case. Returns false, if the time is over
    pub fn case(&mut self, kind: &str, index: u64) -> bool {
        if self.cases.is_multiple_of(1024) {
            println!("{{\"state\":\"{kind} {index}\"}}");
            if self.t0.elapsed() > self.budget {
                self.capped = true;
                return false;
            }
        }
        self.cases += 1;
        *self.done.entry(kind.to_string()).or_default() += 1;
        true
    }
    pub fn done(&mut self, kind: &str, n: u64) {
        *self.done.entry(kind.to_string()).or_default() += n;
    }
    pub fn state(&self, kind: &str, index: u64) {
        println!("{{\"state\":\"{kind} {index}\"}}");
    }
    pub fn over(&mut self) -> bool {
        if self.t0.elapsed() > self.budget {
            self.capped = true;
        }
        self.capped
    }
    pub fn count(&mut self, what: &str) {
        self.count_n(what, 1)
    }
    pub fn count_n(&mut self, what: &str, n: u64) {
        match self.counts.get_mut(what) {
            Some(x) => *x += n,
            None => {
                self.counts.insert(what.to_string(), n);
            }
        }
    }
    pub fn sig(&mut self, parts: &[u64]) {
        if self.sigs.len() > 3_000_000 {
            return;
        }
        let mut h = 0x1234_5678_9abc_def1u64;
        for p in parts {
            h = (h ^ p).wrapping_mul(0xff51_afd7_ed55_8ccd);
            h ^= h >> 29;
        }
        self.sigs.insert(h);
    }
    pub fn sample(&mut self, kind: &str, v: &str) {
        let n = self.samples.entry(kind.to_string()).or_default();
        if *n < 2 && self.shard == 0 {
            *n += 1;
            println!("{{\"sample\":\"{kind}\",\"v\":\"{}\"}}", esc(v));
        }
    }
    /// Report the violation and stop
    pub fn fail(&mut self, kind: &str, index: u64, msg: &str, detail: &[(&str, String)]) -> ! {
        let d: Vec<String> = detail.iter().map(|(k, v)| format!("\"{}\":\"{}\"", esc(k), esc(&v.chars().take(3000).collect::<String>()))).collect();
        println!("{{\"violation\":\"{kind}\",\"index\":{index},\"msg\":\"{}\",\"detail\":{{{}}}}}", esc(msg), d.join(","));
        self.flush();
        std::process::exit(0)
    }
    fn flush(&self) {
        for (k, n) in &self.done {
            println!("{{\"done\":\"{}\",\"n\":{n}}}", esc(k));
        }
        for (k, n) in &self.counts {
            println!("{{\"count\":\"{}\",\"n\":{n}}}", esc(k));
        }
        println!("{{\"distinct\":\"cases\",\"n\":{}}}", self.sigs.len());
    }
    pub fn finish(&self) {
        if self.capped {
            println!("{{\"capped\":true}}");
        }
        self.flush();
    }
}

// ---- independent BER

/// Minimal definite length
pub fn enc_len(n: usize) -> Vec<u8> {
    if n < 128 {
        return vec![n as u8];
    }
    let b: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
    let mut r = vec![0x80 | b.len() as u8];
    r.extend(b);
    r
}

pub fn tlv(tag: u8, content: &[u8]) -> Vec<u8> {
    let mut r = vec![tag];
    r.extend(enc_len(content.len()));
    r.extend_from_slice(content);
    r
}

/// Any of the legal length forms
pub fn tlv_any(rng: &mut Rng, tag: u8, content: &[u8]) -> Vec<u8> {
    if !rng.chance(4) {
        return tlv(tag, content);
    }
    let b: Vec<u8> = content.len().to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
    let pad = rng.below(4);
    let mut r = vec![tag, 0x80 | (b.len() + pad).max(1) as u8];
    r.extend(vec![0; (b.len() + pad).max(1) - b.len()]);
    r.extend(b);
    r.extend_from_slice(content);
    r
}

/// Minimal two's complement contents octets
pub fn int_content(v: i64) -> Vec<u8> {
    let b = v.to_be_bytes();
    let mut s = 0;
    while s < 7 && ((b[s] == 0 && b[s + 1] & 0x80 == 0) || (b[s] == 0xff && b[s + 1] & 0x80 != 0)) {
        s += 1;
    }
    b[s..].to_vec()
}

pub fn int(v: i64) -> Vec<u8> {
    tlv(2, &int_content(v))
}

pub fn sub_id(v: u64) -> Vec<u8> {
    let mut r = vec![(v & 0x7f) as u8];
    let mut v = v >> 7;
    while v > 0 {
        r.insert(0, (v & 0x7f) as u8 | 0x80);
        v >>= 7;
    }
    r
}

pub fn oid_content(subs: &[u64]) -> Vec<u8> {
    let mut r = sub_id(subs[0] * 40 + subs[1]);
    for s in &subs[2..] {
        r.extend(sub_id(*s));
    }
    r
}

pub fn rand_sub(rng: &mut Rng) -> u64 {
    match rng.below(6) {
        0..=2 => rng.below(128) as u64,
        3 => {
            // Next to the width boundary
            let w = [7u32, 14, 21, 28, 32][rng.below(5)];
            ((1u64 << w) + rng.below(5) as u64).saturating_sub(3).min(u32::MAX as u64)
        }
        _ => (rng.u64() as u32 >> rng.below(32)) as u64,
    }
}

pub fn rand_oid(rng: &mut Rng, n: usize) -> Vec<u64> {
    let mut r = vec![rng.below(3) as u64, rng.below(40) as u64];
    if !rng.chance(3) {
        r = vec![1, 3];
    }
    for _ in 0..n {
        r.push(rand_sub(rng));
    }
    r
}

pub enum Extent {
    /// Header is not complete
    Short,
    /// Indefinite length
    Indefinite,
    /// Total octets
    Octets(u128),
}

/// Declared extent of the element
pub fn extent(i: &[u8]) -> Extent {
    let mut p = 1;
    let Some(first) = i.first() else {
        return Extent::Short;
    };
    if first & 0x1f == 0x1f {
        loop {
            let Some(x) = i.get(p) else {
                return Extent::Short;
            };
            p += 1;
            if x & 0x80 == 0 {
                break;
            }
        }
    }
    let Some(n) = i.get(p) else {
        return Extent::Short;
    };
    p += 1;
    if n & 0x80 == 0 {
        return Extent::Octets(p as u128 + *n as u128);
    }
    if *n == 0x80 {
        return Extent::Indefinite;
    }
    let mut ln = 0u128;
    for _ in 0..n & 0x7f {
        let Some(x) = i.get(p) else {
            return Extent::Short;
        };
        p += 1;
        ln = (ln.min(u64::MAX as u128) << 8) | *x as u128;
    }
    Extent::Octets(p as u128 + ln)
}

//! Coverage counters of the build with `-Cpasses=sancov-module`. Without it there are none,
//! and everything looks the same.
#![allow(dead_code)]

use std::sync::Mutex;

static RANGES: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());

/// Called once per unit of compilation, before main
#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let r = (start as usize, stop as usize);
    if let Ok(mut v) = RANGES.lock() {
        if r.0 < r.1 && !v.contains(&r) {
            v.push(r);
        }
    }
}

pub struct Cov {
    ranges: Vec<(usize, usize)>,
    /// Classes of the counts which have been seen, per counter
    seen: Vec<u8>,
    pub edges: u64,
    pub features: u64,
}

impl Cov {
    pub fn new() -> Self {
        let ranges = RANGES.lock().map(|x| x.clone()).unwrap_or_default();
        let n = ranges.iter().map(|x| x.1 - x.0).sum();
        Cov { ranges, seen: vec![0; n], edges: 0, features: 0 }
    }
    pub fn len(&self) -> usize {
        self.seen.len()
    }
    pub fn reset(&self) {
        for (a, b) in &self.ranges {
            unsafe { std::ptr::write_bytes(*a as *mut u8, 0, b - a) };
        }
    }
    /// Number of the features which are new
    pub fn news(&mut self) -> u64 {
        let mut r = 0;
        let mut k = 0;
        for (a, b) in &self.ranges {
            let s = unsafe { std::slice::from_raw_parts(*a as *const u8, b - a) };
            for chunk in s.chunks(64) {
                if chunk.iter().any(|x| *x != 0) {
                    for (j, x) in chunk.iter().enumerate() {
                        let bit = match x {
                            0 => 0u8,
                            1 => 1,
                            2 => 2,
                            3 => 4,
                            4..=7 => 8,
                            8..=15 => 16,
                            16..=31 => 32,
                            32..=127 => 64,
                            _ => 128,
                        };
                        let old = self.seen[k + j];
                        if bit & !old != 0 {
                            if old == 0 {
                                self.edges += 1;
                            }
                            self.seen[k + j] = old | bit;
                            r += 1;
                        }
                    }
                }
                k += chunk.len();
            }
        }
        self.features += r;
        r
    }
}

// Shadow model of the message buffer. Used by the native monitor (under the address
// sanitizer) and by the interpreter (Miri), which builds src/buf alone.

/// Any of the operations, the arguments are what the model needs
#[derive(Clone, Debug)]
pub enum Op {
    U8(u8),
    Push(Vec<u8>),
    TagLen(u8, usize),
    Tagged(u8, Vec<u8>),
    Skip(usize),
    Reset,
    Bookmark(usize),
    Read,
    Write(u8),
    Ensure(usize),
    /// Fill the whole storage, as the receiver does, and read back
    Fill(u8, usize),
}

fn chunk(r: &mut Rng, n: usize) -> Vec<u8> {
    if cfg!(miri) && n > 32 { vec![r.u8(); n] } else { r.bytes(n) }
}

pub fn rand_op(r: &mut Rng, cap: usize, free: usize) -> Op {
    let near = |r: &mut Rng| -> usize {
        match r.below(8) {
            0..=3 if cfg!(miri) && !r.chance(8) => r.range(0, 12),
            0 => free,
            1 => free + 1,
            2 => free.saturating_sub(r.below(6)),
            3 => free + r.range(1, 300),
            4 => r.range(120, 132),
            5 => r.range(250, 262),
            _ => r.range(0, 40),
        }
    };
    match r.below(24) {
        0..=4 => Op::U8(r.u8()),
        5..=9 => {
            let n = near(r).min(cap + 300);
            Op::Push(chunk(r, n))
        }
        10..=12 => {
            let n = near(r);
            Op::TagLen(r.u8(), n.min(65535))
        }
        13..=16 => {
            let n = near(r).min(cap + 300);
            let n = if r.chance(3) { n.saturating_sub(r.below(5)) } else { n };
            Op::Tagged(r.u8(), chunk(r, n))
        }
        17 => Op::Skip(if r.chance(6) { near(r) } else { r.below(64) }),
        18 => {
            if r.chance(3) { Op::Reset } else { Op::Read }
        }
        19 => Op::Bookmark(r.below(4)),
        20 if cfg!(miri) && !r.chance(8) => Op::Read,
        20 => Op::Write(r.u8()),
        21 => {
            let n = near(r);
            Op::Ensure(n)
        }
        22 => {
            if r.chance(if cfg!(miri) { 60 } else { 8 }) {
                let n = r.range(0, cap);
                Op::Fill(r.u8(), n)
            } else {
                Op::Read
            }
        }
        _ => Op::Read,
    }
}

/// Octets of one operation. None: any values, but they must have been written
type Run = (Option<Vec<u8>>, usize);

pub struct Model {
    cap: usize,
    /// What data() must return, the latest goes last
    runs: Vec<Run>,
    size: usize,
    bookmark: Option<usize>,
    pub errors: u64,
    pub exposed: u64,
}

impl Model {
    pub fn new(cap: usize) -> Self {
        Model { cap, runs: vec![], size: 0, bookmark: None, errors: 0, exposed: 0 }
    }
    pub fn free(&self) -> usize {
        self.cap - self.size
    }
    fn prepend(&mut self, b: &[u8]) {
        self.runs.push((Some(b.to_vec()), b.len()));
        self.size += b.len();
    }
    fn observe(&mut self, data: &[u8]) -> Result<(), String> {
        if data.len() != self.size {
            return Err(format!("{} octets are exposed instead of {}", data.len(), self.size));
        }
        let mut at = 0;
        for (want, n) in self.runs.iter().rev() {
            let got = &data[at..at + n];
            match want {
                Some(w) if !cfg!(miri) => {
                    if got != w {
                        let i = got.iter().zip(w).position(|(x, y)| x != y).unwrap_or(0);
                        return Err(format!("octet {} is {:#x} instead of {:#x}", at + i, got[i], w[i]));
                    }
                }
                _ => {
                    // Reading is the point for the interpreter, which is slow
                    let mut i = 0;
                    while i < *n {
                        let g = std::hint::black_box(got[i]);
                        if let Some(w) = want
                            && g != w[i]
                        {
                            return Err(format!("octet {} is {g:#x} instead of {:#x}", at + i, w[i]));
                        }
                        i += if cfg!(miri) && i > 8 && i + 8 < *n { 1 + (n - i) / 8 } else { 1 };
                    }
                }
            }
            at += n;
        }
        self.exposed += self.size as u64;
        Ok(())
    }
    /// Result of the operation which pushes `b`
    fn pushed(&mut self, ok: bool, b: &[u8], buf: &Buffer) -> Result<(), String> {
        if ok != (b.len() <= self.free()) {
            return Err(format!("{} octets pushed: {ok}, {} are free", b.len(), self.free()));
        }
        if ok {
            self.prepend(b);
        } else {
            self.errors += 1;
            // Partially built: only the last octets of what was pushed may be there
            let n = buf.len().checked_sub(self.size).ok_or("shrinks on the error")?;
            if n > b.len() {
                return Err("grows on the error".to_string());
            }
            self.prepend(&b[b.len() - n..]);
        }
        Ok(())
    }
    /// Perform the operation and compare
    pub fn step(&mut self, buf: &mut Buffer, op: &Op) -> Result<(), String> {
        match op {
            Op::U8(x) => {
                let ok = buf.push_u8(*x).is_ok();
                self.pushed(ok, &[*x], buf)?;
            }
            Op::Push(x) => {
                let ok = buf.push(x).is_ok();
                self.pushed(ok, x, buf)?;
            }
            Op::TagLen(t, n) => {
                let ok = buf.push_tag_len(*t, *n).is_ok();
                let mut h = vec![*t];
                h.extend(enc_len(*n));
                self.pushed(ok, &h, buf)?;
            }
            Op::Tagged(t, x) => {
                let ok = buf.push_tagged(*t, x).is_ok();
                self.pushed(ok, &tlv(*t, x), buf)?;
            }
            Op::Skip(n) => {
                buf.skip(*n);
                let n = (*n).min(self.free());
                self.runs.push((None, n));
                self.size += n;
            }
            Op::Reset => {
                buf.reset();
                self.runs.clear();
                self.size = 0;
                self.bookmark = None;
            }
            Op::Bookmark(d) => {
                buf.set_bookmark(*d);
                // Measured from the end
                self.bookmark = self.size.checked_sub(*d);
            }
            Op::Read => {}
            Op::Write(x) => {
                let d = buf.data_mut();
                if d.len() != self.size {
                    return Err(format!("data_mut exposes {} octets instead of {}", d.len(), self.size));
                }
                d.fill(*x);
                let d: &mut [u8] = buf.as_mut();
                if d.len() != self.size {
                    return Err(format!("as_mut exposes {} octets instead of {}", d.len(), self.size));
                }
                if let Some(g) = d.last_mut() {
                    *g = !*x;
                    self.runs = vec![(Some(vec![!*x]), 1), (Some(vec![*x; self.size - 1]), self.size - 1)];
                }
            }
            Op::Ensure(n) => {
                if buf.ensure_size(*n).is_ok() != (*n <= self.free()) {
                    return Err(format!("ensure_size({n}) with {} free", self.free()));
                }
            }
            Op::Fill(x, n) => {
                let all: &mut [std::mem::MaybeUninit<u8>] = buf.as_mut();
                if all.len() != self.cap {
                    return Err(format!("storage of {} octets", all.len()));
                }
                for (i, c) in all.iter_mut().enumerate() {
                    c.write(x.wrapping_add(i as u8));
                }
                let s = buf.as_slice(*n);
                if s.len() != *n || s.iter().enumerate().any(|(i, c)| *c != x.wrapping_add(i as u8)) {
                    return Err("as_slice differs from what is written".to_string());
                }
                let v: Vec<u8> = (self.cap - self.size..self.cap).map(|i| x.wrapping_add(i as u8)).collect();
                self.runs = vec![(Some(v), self.size)];
            }
        }
        if buf.len() != self.size || buf.free() != self.free() || buf.is_empty() != (self.size == 0) || buf.is_full() != (self.free() == 0) {
            return Err(format!("len {} free {} empty {} full {} with {} octets", buf.len(), buf.free(), buf.is_empty(), buf.is_full(), self.size));
        }
        if let Some(b) = self.bookmark {
            let at = self.size - b;
            if buf.get_bookmark() != at {
                return Err(format!("bookmark is at {} instead of {at}", buf.get_bookmark()));
            }
        }
        self.observe(buf.data())
    }
}

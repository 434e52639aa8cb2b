//! C17: the buffer against the shadow model.
#[path = "../mon.rs"]
mod mon;

use gufo_snmp::buf::{Buffer, get_buffer_pool};
use mon::*;

include!("../bufmodel.rs");

/// Lack of space is the error, never the panic
fn guarded(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(Err("the operation panics".to_string()))
}

/// Random sequences; the same one upon two storages with different rubbish
fn ops(m: &mut Mon) {
    let cap = Buffer::default().free();
    for i in 0..m.n {
        if !m.mine(i) {
            continue;
        }
        if !m.case("ops", i) {
            break;
        }
        let mut r = m.rng("ops", i);
        let mut bufs = [Box::new(Buffer::default()), Box::new(Buffer::default())];
        for (b, x) in bufs.iter_mut().zip([0x5au8, 0xa5]) {
            let s: &mut [std::mem::MaybeUninit<u8>] = b.as_mut().as_mut();
            for c in s.iter_mut() {
                c.write(x);
            }
        }
        let mut models = [Model::new(cap), Model::new(cap)];
        let steps = if r.chance(4) { r.range(40, 120) } else { r.range(1, 40) };
        let mut trace: Vec<Op> = vec![];
        // Start from an almost full one sometimes
        if r.chance(3) {
            let n = cap - r.below(300);
            trace.push(Op::Push(r.bytes(n)));
        }
        for _ in 0..steps {
            trace.push(Op::Read);
        }
        let n = trace.len();
        let mut h = 0u64;
        for k in 0..n {
            if let Op::Read = trace[k] {
                trace[k] = rand_op(&mut r, cap, models[0].free());
            }
            for j in 0..2 {
                if let Err(e) = guarded(|| models[j].step(&mut bufs[j], &trace[k])) {
                    let t = format!("{:?}", &trace[..=k]);
                    let t = t[t.len().saturating_sub(2500)..].to_string();
                    m.fail("ops", i, &format!("buffer differs from the model: {e}"), &[("operations", t)]);
                }
            }
            // What is exposed may not depend on what was there
            if bufs[0].data() != bufs[1].data() {
                let t = format!("{:?}", &trace[..=k]);
                let t = t[t.len().saturating_sub(2500)..].to_string();
                m.fail("ops", i, "octets which were never written are exposed", &[("operations", t)]);
            }
            let d = std::mem::discriminant(&trace[k]);
            h = h.wrapping_mul(31).wrapping_add(format!("{d:?}").len() as u64 + models[0].free() as u64);
            m.count("buffer operations");
        }
        m.count_n("operations refused for the lack of space", models[0].errors);
        m.count_n("exposed octets compared", models[0].exposed);
        m.sig(&[1, h]);
        if i == 0 {
            m.sample("ops", &format!("{:?}", &trace[..3.min(n)]).chars().take(600).collect::<String>());
        }
    }
}

/// Each amount of free space with each operation around it
fn edges(m: &mut Mon) {
    let cap = Buffer::default().free();
    let mut idx = 0u64;
    for free in 0..=cap {
        if !m.mine(free as u64) {
            continue;
        }
        let interesting = free <= 300 || free + 300 > cap || free % 61 == 0;
        if !interesting {
            continue;
        }
        let fill = vec![0x11u8; cap - free];
        let mut list = vec![];
        for d in -5i64..=5 {
            let n = (free as i64 + d).max(0) as usize;
            list.push(Op::Push(vec![0x22; n]));
            list.push(Op::Tagged(4, vec![0x33; n]));
            list.push(Op::Skip(n));
            list.push(Op::Ensure(n));
        }
        for v in [0usize, 1, 126, 127, 128, 129, 254, 255, 256, 257, 4079, 4080, 32767, 65535] {
            list.push(Op::TagLen(0x30, v));
        }
        list.push(Op::U8(0x44));
        list.push(Op::Bookmark(2));
        for op in list {
            idx += 1;
            if !m.case("edges", idx) {
                return;
            }
            let mut b = Box::new(Buffer::default());
            let mut model = Model::new(cap);
            for o in [Op::Push(fill.clone()), op.clone(), Op::U8(1), Op::Skip(1), Op::Read, Op::Reset, Op::U8(7)] {
                if let Err(e) = guarded(|| model.step(&mut b, &o)) {
                    let t = format!("{op:?}");
                    m.fail("edges", idx, &format!("buffer differs from the model: {e}"), &[("free", free.to_string()), ("operation", t.chars().take(200).collect())]);
                }
            }
            m.sig(&[2, free as u64, idx]);
        }
        m.count("amounts of free space");
    }
}

/// Handles of the pool are exclusive and empty
fn pool(m: &mut Mon) {
    let threads = 6;
    for i in 0..m.n {
        if !m.mine(i) {
            continue;
        }
        if !m.case("pool", i) {
            break;
        }
        let seed = m.rng("pool", i).u64();
        let res: Vec<Result<u64, String>> = std::thread::scope(|s| {
            (0..threads)
                .map(|t| {
                    s.spawn(move || {
                        let mut r = Rng::new(seed ^ (t as u64) << 40);
                        let mut n = 0;
                        for _ in 0..200 {
                            let mut a = get_buffer_pool().acquire();
                            let mut b = r.chance(3).then(|| get_buffer_pool().acquire());
                            for (k, h) in [Some(&mut a), b.as_mut()].into_iter().flatten().enumerate() {
                                let buf = h.as_mut();
                                if !buf.is_empty() {
                                    return Err("acquired buffer is not empty".to_string());
                                }
                                let size = r.range(1, 300);
                                let v = vec![(t * 2 + k) as u8; size];
                                buf.push(&v).map_err(|e| format!("{e:?}"))?;
                                if r.chance(4) {
                                    std::thread::yield_now();
                                }
                                if buf.data() != v {
                                    return Err("buffer is changed by someone else".to_string());
                                }
                                n += 1;
                            }
                            if let Some(h) = b.as_mut()
                                && h.as_mut().data().iter().any(|x| *x != (t * 2 + 1) as u8)
                            {
                                return Err("two handles share the storage".to_string());
                            }
                            if a.as_mut().data().iter().any(|x| *x != (t * 2) as u8) {
                                return Err("two handles share the storage".to_string());
                            }
                        }
                        Ok(n)
                    })
                })
                .collect::<Vec<_>>()
                .into_iter()
                .map(|x| x.join().unwrap_or(Err("panic".to_string())))
                .collect()
        });
        for x in res {
            match x {
                Ok(n) => m.count_n("buffers of the pool used by concurrent threads", n),
                Err(e) => m.fail("pool", i, &e, &[]),
            }
        }
        m.sig(&[3, seed]);
    }
}

fn main() {
    let mut m = Mon::new();
    match m.mode.as_str() {
        "ops" => ops(&mut m),
        "edges" => edges(&mut m),
        "pool" => pool(&mut m),
        x => panic!("mode {x}"),
    }
    m.finish();
}

//! C17: uninitialized reads, out of bounds pointers, aliasing and races of src/buf.
#![allow(dead_code, unused_imports)]

mod error {
    #[derive(Debug)]
    pub enum SnmpError {
        Incomplete,
        UnexpectedTag,
        InvalidTagFormat,
        InvalidPdu,
        InvalidData,
        InvalidKey,
        TrailingData,
        OutOfBuffer,
        NotImplemented,
    }
    pub type SnmpResult<T> = Result<T, SnmpError>;
}
mod ber {
    pub const TAG_OCTET_STRING: u8 = 4;
}
#[path = "/repo/src/buf/mod.rs"]
mod buf;
#[path = "../../harness/src/mon.rs"]
mod mon;

use buf::{Buffer, get_buffer_pool};
use mon::*;

include!("../../harness/src/bufmodel.rs");

fn ops(m: &mut Mon) {
    let cap = Buffer::default().free();
    for i in 0..m.n {
        if !m.mine(i) {
            continue;
        }
        if m.over() {
            break;
        }
        m.state("miri", i);
        let mut r = m.rng("miri", i);
        let mut b = Box::new(Buffer::default());
        let mut model = Model::new(cap);
        let steps = r.range(2, 30);
        let mut trace: Vec<Op> = vec![];
        if r.chance(4) {
            let n = cap - r.below(300);
            trace.push(Op::Push(vec![7; n]));
        }
        for k in 0..steps {
            if k >= trace.len() {
                let o = rand_op(&mut r, cap, model.free());
                trace.push(o);
            }
            if let Err(e) = model.step(&mut b, &trace[k]) {
                let t = format!("{trace:?}");
                m.fail("miri", i, &format!("buffer differs from the model: {e}"), &[("operations", t[t.len().saturating_sub(2500)..].to_string())]);
            }
            m.count("operations interpreted by Miri");
        }
        m.done("miri", 1);
        m.sig(&[i]);
    }
}

fn pool(m: &mut Mon) {
    for i in 0..m.n {
        if !m.mine(i) {
            continue;
        }
        if m.over() {
            break;
        }
        m.state("miri-pool", i);
        let hs: Vec<_> = (0..3u8)
            .map(|t| {
                std::thread::spawn(move || {
                    for k in 0..4u8 {
                        let mut h = get_buffer_pool().acquire();
                        let b = h.as_mut();
                        assert!(b.is_empty());
                        b.push(&[t, k, t]).unwrap();
                        b.push_tag_len(t, 200).unwrap();
                        b.skip(2);
                        std::thread::yield_now();
                        let d = b.data().to_vec();
                        assert_eq!(&d[2..], &[t, 0x81, 200, t, k, t]);
                        assert_eq!(&d[..2], &b.data()[..2]);
                    }
                })
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                m.fail("miri-pool", i, "buffer of the pool is shared", &[]);
            }
        }
        m.done("miri-pool", 1);
        m.count_n("pool buffers used by threads under Miri", 12);
        m.sig(&[i]);
    }
}

fn main() {
    let mut m = Mon::new();
    match m.mode.as_str() {
        "ops" => ops(&mut m),
        "pool" => pool(&mut m),
        x => panic!("mode {x}"),
    }
    m.finish();
}

//! C16: the decoders read exactly the declared extent. Also: no panics (C01).
#[path = "../cov.rs"]
mod cov;
#[path = "../mon.rs"]
mod mon;

use gufo_snmp::ber::*;
use gufo_snmp::buf::Buffer;
use gufo_snmp::error::SnmpError;
use gufo_snmp::snmp::get::SnmpGet;
use gufo_snmp::snmp::getbulk::SnmpGetBulk;
use gufo_snmp::snmp::getresponse::SnmpGetResponse;
use gufo_snmp::snmp::msg::v3::{MsgData, ScopedPdu, UsmParameters};
use gufo_snmp::snmp::msg::{SnmpPdu, SnmpV1Message, SnmpV2cMessage, SnmpV3Message};
use gufo_snmp::snmp::op::{OpGetMany, PyOp};
use gufo_snmp::snmp::value::SnmpValue;
use mon::*;
use nom::IResult;
use pyo3::prelude::*;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// Outcome: what is decoded and how much is left
type Out = Result<(String, usize), ()>;

fn shown<'py, T>(py: Python<'py>, v: T) -> String
where
    T: IntoPyObject<'py, Error = SnmpError>,
    T::Output: Into<Bound<'py, PyAny>>,
{
    match v.into_pyobject(py) {
        Ok(x) => {
            let x: Bound<'py, PyAny> = x.into();
            let t = x.get_type().name().map(|x| x.to_string()).unwrap_or_default();
            format!("{t} {}", x.repr().map(|x| x.to_string()).unwrap_or_default())
        }
        Err(e) => format!("error {e:?}"),
    }
}

fn out<'a, T>(r: IResult<&'a [u8], T, SnmpError>, i: &'a [u8], f: impl FnOnce(T) -> String) -> Out {
    match r {
        Ok((rest, v)) => {
            // The rest is a suffix of the input, literally
            let end = i.as_ptr() as usize + i.len();
            let s = f(v);
            if rest.as_ptr() as usize + rest.len() != end && !rest.is_empty() {
                return Ok((format!("{s} (the rest is not the end of the input)"), rest.len()));
            }
            Ok((s, rest.len()))
        }
        Err(_) => Err(()),
    }
}

fn pdu_shown(py: Python<'_>, pdu: &SnmpPdu) -> String {
    match pdu {
        SnmpPdu::GetRequest(x) => format!("get {} {:?}", x.request_id, x.vars),
        SnmpPdu::GetNextRequest(x) => format!("getnext {} {:?}", x.request_id, x.vars),
        SnmpPdu::GetBulkRequest(_) => {
            let mut b = Buffer::default();
            let r = pdu.push_ber(&mut b).is_ok();
            format!("getbulk {r} {}", hex(b.data()))
        }
        SnmpPdu::GetResponse(_) => match OpGetMany::to_python(pdu, None, py) {
            Ok(x) => format!("response {}", x.repr().map(|x| x.to_string()).unwrap_or_default()),
            Err(e) => format!("response {e}"),
        },
        SnmpPdu::Report(x) => format!("report {}", hex(x.0)),
    }
}

/// Decoders which have the (rest, value) interface
const ELEMENTS: [&str; 20] = [
    "value", "bool", "int", "null", "oid", "objectdescriptor", "octetstring", "real", "relative oid", "ipaddress", "counter32", "gauge32", "timeticks", "opaque",
    "counter64", "uinteger32", "sequence", "option", "header", "pdu",
];

fn element(py: Python<'_>, which: usize, i: &[u8]) -> Out {
    match which {
        0 => out(SnmpValue::from_ber(i), i, |v| {
            let k = match &v {
                SnmpValue::NoSuchObject => "noSuchObject",
                SnmpValue::NoSuchInstance => "noSuchInstance",
                SnmpValue::EndOfMibView => "endOfMibView",
                _ => "",
            };
            format!("{k} {}", shown(py, &v))
        }),
        1 => out(SnmpBool::from_ber(i), i, |v| shown(py, &v)),
        2 => out(SnmpInt::from_ber(i), i, |v| shown(py, &v)),
        3 => out(SnmpNull::from_ber(i), i, |_| String::new()),
        4 => out(SnmpOid::from_ber(i), i, |v| format!("{v:?} {}", shown(py, &v))),
        5 => out(SnmpObjectDescriptor::from_ber(i), i, |v| shown(py, &v)),
        6 => out(SnmpOctetString::from_ber(i), i, |v| shown(py, &v)),
        7 => out(SnmpReal::from_ber(i), i, |v| {
            let s = shown(py, &v);
            let f: f64 = v.into();
            format!("{s} {:x}", f.to_bits())
        }),
        8 => out(SnmpRelativeOid::from_ber(i), i, |v| format!("{v:?}")),
        9 => out(SnmpIpAddress::from_ber(i), i, |v| shown(py, &v)),
        10 => out(SnmpCounter32::from_ber(i), i, |v| shown(py, &v)),
        11 => out(SnmpGauge32::from_ber(i), i, |v| shown(py, &v)),
        12 => out(SnmpTimeTicks::from_ber(i), i, |v| shown(py, &v)),
        13 => out(SnmpOpaque::from_ber(i), i, |v| shown(py, &v)),
        14 => out(SnmpCounter64::from_ber(i), i, |v| shown(py, &v)),
        15 => out(SnmpUInteger32::from_ber(i), i, |v| shown(py, &v)),
        16 => out(SnmpSequence::from_ber(i), i, |_| String::new()),
        17 => out(SnmpOption::from_ber(i), i, |v| format!("{} {}", v.tag, hex(v.value))),
        // Header: the contents are not consumed
        18 => match BerHeader::from_ber(i) {
            Ok((rest, h)) if rest.len() >= h.length => Ok((format!("{h:?}"), rest.len() - h.length)),
            // It is for the callers to look at
            Ok(_) => Err(()),
            Err(_) => Err(()),
        },
        _ => match SnmpPdu::try_from(i) {
            // Either refuses the rest or ignores it
            Ok(p) => Ok((pdu_shown(py, &p), 0)),
            Err(_) => Err(()),
        },
    }
}

/// Layers, which take the whole datagram
const MESSAGES: [&str; 3] = ["v1", "v2c", "v3"];

fn message(py: Python<'_>, which: usize, i: &[u8]) -> Result<String, ()> {
    Ok(match which {
        0 => {
            let m = SnmpV1Message::try_from(i).map_err(|_| ())?;
            format!("{} {}", hex(m.community), pdu_shown(py, &m.pdu))
        }
        1 => {
            let m = SnmpV2cMessage::try_from(i).map_err(|_| ())?;
            format!("{} {}", hex(m.community), pdu_shown(py, &m.pdu))
        }
        _ => {
            let m = SnmpV3Message::try_from(i).map_err(|_| ())?;
            let d = match &m.data {
                MsgData::Encrypted(e) => format!("encrypted {}", hex(e)),
                MsgData::Plaintext(s) => format!("{} {}", hex(s.engine_id), pdu_shown(py, &s.pdu)),
            };
            format!(
                "{} {}{}{} {} {} {} {} {} {} {d}",
                m.msg_id,
                m.flag_auth,
                m.flag_priv,
                m.flag_report,
                hex(m.usm.engine_id),
                m.usm.engine_boots,
                m.usm.engine_time,
                hex(m.usm.user_name),
                hex(m.usm.auth_params),
                hex(m.usm.privacy_params)
            )
        }
    })
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()
    })
}

/// The relation between the decoding of y and of its first declared octets
fn relation(m: &mut Mon, py: Python<'_>, kind: &str, index: u64, which: usize, y: &[u8]) -> bool {
    let name = ELEMENTS[which];
    // Exact-sized heap copies, so the sanitizer sees any excess
    let y: Box<[u8]> = y.into();
    let full = match guarded(|| element(py, which, &y)) {
        Ok(x) => x,
        Err(e) => m.fail(kind, index, &format!("{name}: decoder panics instead of the rejection: {e}"), &[("octets", hex(&y))]),
    };
    let ext = match extent(&y) {
        Extent::Indefinite => return false,
        Extent::Octets(n) if n <= y.len() as u128 => n as usize,
        _ => {
            if let Ok((v, left)) = full {
                m.fail(kind, index, &format!("{name}: element which is not complete is decoded"), &[("octets", hex(&y)), ("value", v), ("left", left.to_string())]);
            }
            m.count("incomplete elements rejected");
            return false;
        }
    };
    let alone: Box<[u8]> = y[..ext].into();
    let one = match guarded(|| element(py, which, &alone)) {
        Ok(x) => x,
        Err(e) => m.fail(kind, index, &format!("{name}: decoder panics instead of the rejection: {e}"), &[("octets", hex(&alone))]),
    };
    match (&one, &full) {
        (Ok((v, left)), _) if *left != 0 => m.fail(kind, index, &format!("{name}: octets of the element are left"), &[("octets", hex(&alone)), ("value", v.clone()), ("left", left.to_string())]),
        (Ok((v1, _)), Ok((v2, left))) => {
            let want = if name == "pdu" { 0 } else { y.len() - ext };
            if v1 != v2 || *left != want {
                m.fail(
                    kind,
                    index,
                    &format!("{name}: decoding depends on what follows the element"),
                    &[("element", hex(&alone)), ("followed by", hex(&y[ext..])), ("alone", v1.clone()), ("followed", v2.clone()), ("left", left.to_string())],
                );
            }
            m.count("elements decoded with something after them");
            true
        }
        (Ok((v1, _)), Err(())) => {
            if name == "pdu" {
                return false;
            }
            m.fail(
                kind,
                index,
                &format!("{name}: element is rejected because of what follows it"),
                &[("element", hex(&alone)), ("followed by", hex(&y[ext..])), ("alone", v1.clone())],
            )
        }
        (Err(()), Ok((v2, left))) => {
            if ext < 3 {
                // Too short elements are refused by the size of the input. What follows a few
                // octets of any kind must not matter then.
                for t in [[0u8; 16], [0xff; 16], [b'1'; 16], [0x80; 16], *b"\x02\x01\x05\x30\x03abc\x04\x02de\x05\x00\x41\x00"] {
                    let mut z = alone.to_vec();
                    z.extend_from_slice(&t);
                    let z: Box<[u8]> = z.into();
                    let other = match guarded(|| element(py, which, &z)) {
                        Ok(x) => x,
                        Err(e) => m.fail(kind, index, &format!("{name}: decoder panics instead of the rejection: {e}"), &[("octets", hex(&z))]),
                    };
                    let shown = match &other {
                        Ok((v, _)) => v.clone(),
                        Err(()) => "rejection".into(),
                    };
                    let fits = match &other {
                        Ok((v, l)) => v == v2 && (name == "pdu" || (*l == t.len() && *left == y.len() - ext)),
                        Err(()) => name == "pdu",
                    };
                    if !fits {
                        m.fail(
                            kind,
                            index,
                            &format!("{name}: decoding depends on what follows the element"),
                            &[("element", hex(&alone)), ("followed by", hex(&y[ext..])), ("value", v2.clone()), ("left", left.to_string()), ("otherwise followed by", hex(&t)), ("other value", shown)],
                        );
                    }
                }
                m.count("elements of two octets, followed in other ways");
                return true;
            }
            m.fail(
                kind,
                index,
                &format!("{name}: element is not decodable alone, but is when something follows"),
                &[("element", hex(&alone)), ("followed by", hex(&y[ext..])), ("followed", v2.clone()), ("left", left.to_string())],
            )
        }
        (Err(()), Err(())) => {
            m.count("elements rejected both alone and followed");
            false
        }
    }
}

fn suffix(r: &mut Rng, x: &[u8]) -> Vec<u8> {
    match r.below(9) {
        0 => vec![],
        1 => vec![r.u8()],
        2 => {
            let n = r.range(1, 4);
            vec![*r.pick(&[0u8, 0xff, 0x80, 0x7f, 0x30, 0x31, 0x2e]); n]
        }
        3 => {
            let n = r.range(1, 40);
            r.bytes(n)
        }
        4 => x.to_vec(),
        5 => value(r),
        6 => tlv(5, &[]),
        7 => {
            // Could be taken as the continuation of the number or of the text
            let n = r.range(1, 12);
            (0..n).map(|_| *r.pick(b"0123456789eE.+-, ")).collect()
        }
        _ => {
            let n = r.range(1, 12);
            let mut v = r.bytes(n);
            for x in v.iter_mut() {
                if !r.chance(5) {
                    *x |= 0x80;
                }
            }
            v
        }
    }
}

fn real_content(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => vec![],
        1 => vec![*r.pick(&[0x40u8, 0x41, 0x42, 0x43, 0x44, 0x7f])],
        2 | 3 => {
            let mut v = vec![r.below(4) as u8];
            let n = r.range(0, 12);
            v.extend((0..n).map(|_| *r.pick(b"0123456789eE.+- ,")));
            v
        }
        4 => {
            let mut v = vec![*r.pick(&[1u8, 2, 3])];
            let a = r.below(100000);
            v.extend(match v[0] {
                1 => format!("{a}"),
                2 => format!("{a}.{}", r.below(1000)),
                _ => format!("{a}.{}E{}", r.below(1000), r.below(40) as i32 - 20),
            }.bytes());
            v
        }
        _ => {
            let f = 0x80 | (r.u8() & 0x7f);
            let mut v = vec![f];
            let ln = match f & 3 {
                3 => {
                    let n = r.range(0, 9);
                    v.push(n as u8);
                    n
                }
                n => n as usize + 1,
            };
            // Reasonable exponents mostly
            let e = if r.chance(2) { (r.below(200) as i64 - 100) as i128 } else { r.i64() as i128 };
            let e = e.to_be_bytes();
            v.extend(&e[e.len() - ln.min(16)..]);
            let n = r.range(0, 10);
            v.extend(r.bytes(n));
            v
        }
    }
}

fn raw_oid(r: &mut Rng) -> Vec<u8> {
    let n = r.range(0, 14);
    let mut c = oid_content(&rand_oid(r, n));
    if r.chance(12) && !c.is_empty() {
        // Incomplete last sub-identifier
        let n = c.len();
        c[n - 1] |= 0x80;
    }
    c
}

/// Any element which may be the value of a variable
fn value(r: &mut Rng) -> Vec<u8> {
    let (tag, c) = match r.below(18) {
        0 => (1, {
            let n = if r.chance(6) { r.below(3) } else { 1 };
            r.bytes(n)
        }),
        1 | 2 => (2, {
            let n = r.range(0, 9);
            if r.chance(2) { int_content(r.i64()) } else { r.bytes(n) }
        }),
        3 => (4, {
            let n = r.size();
            r.bytes(n)
        }),
        4 => (5, vec![]),
        5 => (6, raw_oid(r)),
        6 => (7, {
            let n = r.range(0, 20);
            r.bytes(n)
        }),
        7..=10 => (9, real_content(r)),
        11 => (0x40, {
            let n = if r.chance(6) { r.below(7) } else { 4 };
            r.bytes(n)
        }),
        12 => (*r.pick(&[0x41u8, 0x42, 0x43, 0x47]), {
            let n = r.range(0, 6);
            r.bytes(n)
        }),
        13 => (0x46, {
            let n = r.range(0, 10);
            r.bytes(n)
        }),
        14 => (0x44, {
            let n = r.range(0, 30);
            r.bytes(n)
        }),
        15 => (*r.pick(&[0x80u8, 0x81, 0x82]), {
            let n = if r.chance(4) { r.below(5) } else { 0 };
            r.bytes(n)
        }),
        16 => (0x0d, {
            let n = r.range(1, 6);
            r.bytes(n)
        }),
        _ => (r.u8(), {
            let n = r.range(0, 6);
            r.bytes(n)
        }),
    };
    tlv_any(r, tag, &c)
}

const NATURAL: [(u8, usize); 20] = [
    (1, 1), (2, 2), (5, 3), (6, 4), (7, 5), (4, 6), (9, 7), (0x0d, 8), (0x40, 9), (0x41, 10), (0x42, 11), (0x43, 12), (0x44, 13), (0x46, 14), (0x47, 15), (0x30, 16),
    (0xa0, 17), (0xa2, 19), (0xa5, 19), (0xa1, 19),
];

/// Every tag x length octet x two contents octets x a few more
fn small(m: &mut Mon, py: Python<'_>) {
    let tails: [&[u8]; 4] = [&[], &[0], &[0xff, 0x31], &[0x30, 0x03, 0x02, 0x01, 0x05]];
    let mut n = 0u64;
    for &(tag, which) in NATURAL.iter().filter(|x| x.1 < 17) {
        for ln in 0..=4u8 {
            for hi in 0..=255u8 {
                if !m.mine(n) {
                    n += 1;
                    continue;
                }
                n += 1;
                m.state("small", n);
                if m.over() {
                    return;
                }
                for lo in 0..=255u8 {
                    for (k, t) in tails.iter().enumerate() {
                        let mut y = vec![tag, ln, hi, lo];
                        y.extend_from_slice(t);
                        for w in [which, 0] {
                            if relation(m, py, "small", n, w, &y) {
                                m.sig(&[1, tag as u64, ln as u64, hi as u64, lo as u64, k as u64]);
                            }
                        }
                    }
                }
                m.done("small", 256 * tails.len() as u64 * 2);
            }
        }
    }
}

fn elements(m: &mut Mon, py: Python<'_>) {
    for i in 0..m.n {
        if !m.mine(i) {
            continue;
        }
        if !m.case("elements", i) {
            break;
        }
        let mut r = m.rng("elements", i);
        let x = match r.below(12) {
            0 => {
                let c: Vec<u8> = (0..r.range(0, 3)).flat_map(|_| value(&mut r)).collect();
                let t = *r.pick(&[0x30u8, 0xa0, 0xa1, 0xa2, 0xa5, 0xa8, 0x31, 0x70]);
                tlv_any(&mut r, t, &c)
            }
            1 | 2 => pdu(&mut r).ser(),
            3 => {
                // Long form of the tag
                let n = r.range(0, 5);
                let c = r.bytes(n);
                let mut v = vec![r.u8() | 0x1f];
                for _ in 0..r.below(3) {
                    v.push(r.u8() | 0x80);
                }
                v.push(r.u8() & 0x7f);
                v.extend(enc_len(c.len()));
                v.extend(c);
                v
            }
            _ => value(&mut r),
        };
        let mut y = x.clone();
        // Cut or damage it sometimes
        match r.below(8) {
            0 if y.len() > 1 => y.truncate(r.range(1, y.len() - 1)),
            1 => {
                let k = r.below(y.len().min(4));
                y[k] = r.u8();
            }
            _ => {}
        }
        y.extend(suffix(&mut r, &x));
        let tag = y[0];
        let mut ws = vec![0, 18];
        ws.extend(NATURAL.iter().filter(|t| t.0 == tag).map(|t| t.1));
        if tag & 0x20 != 0 {
            ws.extend([17, 19, 16]);
        }
        ws.push(r.below(ELEMENTS.len()));
        for w in ws {
            if relation(m, py, "elements", i, w, &y) {
                m.sig(&[2, w as u64, y.iter().fold(y.len() as u64, |a, b| a.wrapping_mul(257).wrapping_add(*b as u64))]);
            }
        }
        if i % 1000 == 0 {
            m.sample("elements", &format!("{} then {}", hex(&x), hex(&y[x.len().min(y.len())..])));
        }
    }
}

// ---- trees, for the messages

#[derive(Clone)]
enum Node {
    Leaf(u8, Vec<u8>),
    Cons(u8, Vec<Node>),
    /// Contents are not looked into by the decoder
    Opaque(u8, Vec<u8>),
    /// An element written as it is
    Raw(Vec<u8>),
}

impl Node {
    fn ser(&self) -> Vec<u8> {
        match self {
            Node::Leaf(t, c) | Node::Opaque(t, c) => tlv(*t, c),
            Node::Cons(t, c) => tlv(*t, &c.iter().flat_map(|x| x.ser()).collect::<Vec<_>>()),
            Node::Raw(x) => x.clone(),
        }
    }
}

/// Position of an element: start, header's size, contents' size, the end of the enclosing element
struct Place {
    start: usize,
    hdr: usize,
    len: usize,
    outer: usize,
    depth: usize,
}

fn places(n: &Node, at: usize, outer: usize, depth: usize, r: &mut Vec<Place>) -> usize {
    let s = n.ser();
    let hdr = match n {
        Node::Raw(x) => {
            if x[1] & 0x80 == 0 {
                2
            } else {
                2 + (x[1] & 0x7f) as usize
            }
        }
        Node::Leaf(_, c) | Node::Opaque(_, c) => s.len() - c.len(),
        Node::Cons(_, c) => s.len() - c.iter().map(|x| x.ser().len()).sum::<usize>(),
    };
    r.push(Place { start: at, hdr, len: s.len() - hdr, outer, depth });
    if let Node::Cons(_, c) = n {
        let mut p = at + hdr;
        for x in c {
            p = places(x, p, at + s.len(), depth + 1, r);
        }
    }
    at + s.len()
}

fn good_value(r: &mut Rng) -> Vec<u8> {
    loop {
        let v = value(r);
        if v[0] & 0x1f != 0x1f && v[0] & 0x20 == 0 && matches!(SnmpValue::from_ber(&v), Ok((rest, _)) if rest.is_empty()) {
            return v;
        }
    }
}

fn pdu(r: &mut Rng) -> Node {
    let int = |v: i64| Node::Leaf(2, int_content(v));
    let op = *r.pick(&[0xa2u8, 0xa2, 0xa2, 0xa2, 0xa0, 0xa1, 0xa5, 0xa8]);
    let n = r.below(5);
    let mut vars = vec![];
    for k in 0..n {
        let w = r.range(1, 12);
        let oid = oid_content(&rand_oid(r, w));
        let rel = op == 0xa2 && k > 0 && r.chance(6);
        let name = if rel { Node::Leaf(0x0d, vec![r.u8() & 0x7f]) } else { Node::Leaf(6, oid) };
        let v = if op == 0xa2 { Node::Raw(good_value(r)) } else { Node::Leaf(5, vec![]) };
        vars.push(Node::Cons(0x30, vec![name, v]));
    }
    if op == 0xa8 {
        let c: Vec<u8> = Node::Cons(0x30, vars).ser();
        return Node::Opaque(0xa8, [tlv(2, &int_content(r.i64())), tlv(2, &[0]), tlv(2, &[0]), c].concat());
    }
    let zero = op == 0xa0 || op == 0xa1;
    Node::Cons(
        op,
        vec![
            int(r.i64()),
            int(if zero { 0 } else { r.below(20) as i64 }),
            int(if zero { 0 } else { r.below(20) as i64 }),
            Node::Cons(0x30, vars),
        ],
    )
}

fn msg(r: &mut Rng, which: usize) -> Node {
    let int = |v: i64| Node::Leaf(2, int_content(v));
    let mut os = |max: usize| {
        let n = r.below(max + 1);
        Node::Leaf(4, r.bytes(n))
    };
    if which < 2 {
        let c = os(20);
        return Node::Cons(0x30, vec![int(which as i64), c, pdu(r)]);
    }
    let (e, u, a, p, ctx, name) = (os(32), os(20), os(12), os(8), os(32), os(3));
    let usm = Node::Cons(4, vec![Node::Cons(0x30, vec![e, int(r.i64()), int(r.i64()), u, a, p])]);
    let glob = Node::Cons(0x30, vec![int(r.i64()), int(r.below(70000) as i64), Node::Leaf(4, vec![r.u8()]), int(3)]);
    let data = if r.chance(4) {
        let n = r.below(64);
        Node::Opaque(4, r.bytes(n))
    } else {
        Node::Cons(0x30, vec![ctx, name, pdu(r)])
    };
    Node::Cons(0x30, vec![int(3), glob, usm, data])
}

fn msgs(m: &mut Mon, py: Python<'_>) {
    for i in 0..m.n {
        if !m.mine(i) {
            continue;
        }
        if !m.case("messages", i) {
            break;
        }
        let mut r = m.rng("messages", i);
        let which = r.below(3);
        let tree = msg(&mut r, which);
        let x: Box<[u8]> = tree.ser().into();
        let name = MESSAGES[which];
        let dec = |m: &mut Mon, b: &[u8]| -> Result<String, ()> {
            let b: Box<[u8]> = b.into();
            match guarded(|| message(py, which, &b)) {
                Ok(v) => v,
                Err(e) => m.fail("messages", i, &format!("{name}: decoder panics instead of the rejection: {e}"), &[("octets", hex(&b))]),
            }
        };
        let Ok(base) = dec(m, &x) else {
            // Relative names may be not applicable
            m.count("messages rejected as they are");
            continue;
        };
        m.count("messages decoded");
        m.sig(&[3, which as u64, x.iter().fold(x.len() as u64, |a, b| a.wrapping_mul(257).wrapping_add(*b as u64))]);
        // Something after the message
        for _ in 0..3 {
            let mut s = suffix(&mut r, &x);
            if s.is_empty() {
                s.push(0);
            }
            let mut y = x.to_vec();
            y.extend(&s);
            if dec(m, &y).is_ok() {
                m.fail("messages", i, &format!("{name}: octets after the message are ignored"), &[("message", hex(&x)), ("then", hex(&s))]);
            }
            m.count("messages with something after them rejected");
        }
        // Every truncation, or some of them
        let step = if x.len() < 80 || i % 16 == 0 { 1 } else { r.range(1, 9) };
        for cut in (0..x.len()).step_by(step) {
            if dec(m, &x[..cut]).is_ok() {
                m.fail("messages", i, &format!("{name}: truncated message is decoded"), &[("message", hex(&x[..cut]))]);
            }
        }
        m.count("truncated messages rejected");
        // Lengths past the enclosing element
        let mut ps = vec![];
        places(&tree, 0, x.len(), 0, &mut ps);
        for p in &ps {
            let room = p.outer - (p.start + p.hdr + p.len);
            for _ in 0..4 {
                let mut y = x.to_vec();
                // Something to read beyond, which is out of the message for the top level only
                if p.hdr == 2 && r.chance(2) {
                    let k = p.len + room + r.range(1, 12);
                    if k > 127 {
                        continue;
                    }
                    y[p.start + 1] = k as u8;
                } else if p.hdr > 2 {
                    let k = p.len + room + if r.chance(2) { r.range(1, 12) } else { r.range(1, 3000) };
                    let w = p.hdr - 2;
                    if w > 8 || (w < 8 && k >> (8 * w) != 0) {
                        continue;
                    }
                    let k = (k as u64).to_be_bytes();
                    y[p.start + 2..p.start + p.hdr].copy_from_slice(&k[8 - w..]);
                } else {
                    // The header in the long form takes the place of a part of the contents
                    let w = r.range(1, 4);
                    if p.len < w {
                        continue;
                    }
                    let left = p.len - w + room;
                    let k = left + r.range(1, 12);
                    if w < 8 && k >> (8 * w) != 0 {
                        continue;
                    }
                    let b = (k as u64).to_be_bytes();
                    y[p.start + 1] = 0x80 | w as u8;
                    y[p.start + 2..p.start + 2 + w].copy_from_slice(&b[8 - w..]);
                }
                if let Ok(v) = dec(m, &y) {
                    m.fail(
                        "messages",
                        i,
                        &format!("{name}: element longer than the enclosing one is decoded"),
                        &[("message", hex(&x)), ("tampered", hex(&y)), ("at", p.start.to_string()), ("value", v), ("before", base.clone())],
                    );
                }
                m.count("elements past the enclosing one rejected");
                m.sig(&[4, which as u64, p.depth as u64, p.start as u64, room as u64, y[p.start + 1] as u64]);
            }
        }
    }
}

/// The same value is decoded in every place of the list
fn varbinds(m: &mut Mon, py: Python<'_>) {
    for i in 0..m.n {
        if !m.mine(i) {
            continue;
        }
        if !m.case("varbinds", i) {
            break;
        }
        let mut r = m.rng("varbinds", i);
        let n = r.range(1, 5);
        let values: Vec<Vec<u8>> = (0..n).map(|_| good_value(&mut r)).collect();
        let vars: Vec<Node> = values
            .iter()
            .enumerate()
            .map(|(k, v)| {
                let name = [oid_content(&rand_oid(&mut r, 3)), vec![k as u8]].concat();
                Node::Cons(0x30, vec![Node::Leaf(6, name), Node::Raw(v.clone())])
            })
            .collect();
        let p = Node::Cons(0xa2, vec![Node::Leaf(2, int_content(r.i64())), Node::Leaf(2, vec![0]), Node::Leaf(2, vec![0]), Node::Cons(0x30, vars)]);
        let x: Box<[u8]> = p.ser().into();
        let r = guarded(|| {
            let Ok(p) = SnmpPdu::try_from(&x[..]) else {
                return Err("the list is refused".to_string());
            };
            let Some(resp) = p.as_getresponse() else {
                return Err("not a response".to_string());
            };
            // The values are not accessible, but the dictionary is
            let _ = resp;
            let d = OpGetMany::to_python(&p, None, py).map_err(|e| format!("{e}"))?;
            let items = d.call_method0("values").and_then(|x| py.import("builtins")?.getattr("list")?.call1((x,))).map_err(|e| format!("{e}"))?;
            let mut got = vec![];
            for v in items.try_iter().map_err(|e| format!("{e}"))? {
                let v = v.map_err(|e| format!("{e}"))?;
                got.push(format!("{} {}", v.get_type().name().map(|x| x.to_string()).unwrap_or_default(), v.repr().map(|x| x.to_string()).unwrap_or_default()));
            }
            let mut want = vec![];
            for v in &values {
                let b: Box<[u8]> = v.as_slice().into();
                match SnmpValue::from_ber(&b) {
                    Ok((_, SnmpValue::Null | SnmpValue::NoSuchObject | SnmpValue::NoSuchInstance | SnmpValue::EndOfMibView)) => {}
                    Ok((_, v)) => want.push(shown(py, &v)),
                    Err(_) => return Err("value is refused".to_string()),
                }
            }
            if got != want { Err(format!("delivered {got:?}, alone {want:?}")) } else { Ok(got.len()) }
        });
        match r {
            Ok(Ok(k)) => {
                m.count_n("values compared with the same ones decoded alone", k as u64);
                m.sig(&[5, x.iter().fold(x.len() as u64, |a, b| a.wrapping_mul(257).wrapping_add(*b as u64))]);
            }
            Ok(Err(e)) | Err(e) => {
                // Conversion errors stop the whole reply
                if e.starts_with("delivered") || !e.contains("nvalid") {
                    m.fail("varbinds", i, &format!("value depends on its place: {e}"), &[("pdu", hex(&x))]);
                }
                m.count("replies which are not convertible");
            }
        }
    }
}

/// Nothing panics, whatever is given
fn garbage(m: &mut Mon, py: Python<'_>) {
    for i in 0..m.n {
        if !m.mine(i) {
            continue;
        }
        if !m.case("garbage", i) {
            break;
        }
        let mut r = m.rng("garbage", i);
        let which = r.below(3);
        let mut y = msg(&mut r, which).ser();
        for _ in 0..r.range(1, 4) {
            if y.is_empty() {
                break;
            }
            let k = r.below(y.len());
            match r.below(6) {
                0 => y[k] = r.u8(),
                1 => y[k] ^= 1 << r.below(8),
                2 => {
                    y.truncate(k);
                }
                3 => {
                    let b = r.u8();
                    y.insert(k, b);
                }
                4 => {
                    y.remove(k);
                }
                _ => {
                    let v = value(&mut r);
                    let e = (k + v.len()).min(y.len());
                    y.splice(k..e, v);
                }
            }
        }
        let y: Box<[u8]> = y.into();
        let res = guarded(|| {
            let mut ok = 0u64;
            for w in 0..3 {
                ok = ok << 1 | message(py, w, &y).is_ok() as u64;
            }
            for w in [0usize, 17, 19] {
                let _ = element(py, w, &y);
            }
            let _ = UsmParameters::try_from(&y[..]);
            let _ = ScopedPdu::try_from(&y[..]);
            let _ = SnmpGet::try_from(&y[..]);
            let _ = SnmpGetBulk::try_from(&y[..]);
            let _ = SnmpGetResponse::try_from(&y[..]);
            ok
        });
        match res {
            Ok(ok) => {
                m.count(if ok == 0 { "damaged messages rejected" } else { "damaged messages still decodable" });
                m.sig(&[6, which as u64, ok, y.iter().fold(y.len() as u64, |a, b| a.wrapping_mul(257).wrapping_add(*b as u64))]);
            }
            Err(e) => m.fail("garbage", i, &format!("decoder panics: {e}"), &[("octets", hex(&y))]),
        }
    }
}

// ---- coverage-guided

thread_local! {
    /// Indefinite length has been met: no judgement
    static INDEFINITE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Contents of the element, what follows it. None: the element does not fit
fn split(i: &[u8]) -> Option<(&[u8], &[u8])> {
    match extent(i) {
        Extent::Octets(n) if n <= i.len() as u128 => {
            let n = n as usize;
            let (_, hdr) = header_size(i)?;
            Some((&i[hdr..n], &i[n..]))
        }
        Extent::Indefinite => {
            INDEFINITE.set(true);
            None
        }
        _ => None,
    }
}

/// Length of the identifier, of the whole header
fn header_size(i: &[u8]) -> Option<(usize, usize)> {
    let mut p = 1;
    if i.first()? & 0x1f == 0x1f {
        while i.get(p)? & 0x80 != 0 {
            p += 1;
        }
        p += 1;
    }
    let n = *i.get(p)?;
    Some((p, p + 1 + if n & 0x80 == 0 { 0 } else { (n & 0x7f) as usize }))
}

/// All elements up to the end
fn all(mut i: &[u8]) -> Option<Vec<&[u8]>> {
    let mut r = vec![];
    while !i.is_empty() {
        let (_, rest) = split(i)?;
        r.push(&i[..i.len() - rest.len()]);
        i = rest;
    }
    Some(r)
}

/// First n elements
fn firsts(mut i: &[u8], n: usize) -> Option<Vec<&[u8]>> {
    let mut r = vec![];
    for _ in 0..n {
        let (c, rest) = split(i)?;
        r.push(c);
        i = rest;
    }
    Some(r)
}

fn number(c: &[u8]) -> Option<i64> {
    if c.is_empty() || c.len() > 8 {
        return None;
    }
    let mut v = if c[0] & 0x80 != 0 { -1i64 } else { 0 };
    for x in c {
        v = v << 8 | *x as i64;
    }
    Some(v)
}

/// Message which is accepted is to have each field in its place, within the enclosing one
fn fields(which: usize, y: &[u8]) -> Result<Vec<(&'static str, String)>, &'static str> {
    let (top, rest) = split(y).ok_or("message is not complete")?;
    if !rest.is_empty() {
        return Err("octets after the message are ignored");
    }
    let mut r = vec![];
    let pdu = |p: &[u8]| -> Result<(), &'static str> {
        let (c, _) = split(p).ok_or("PDU runs past the enclosing element")?;
        if p[0] & 0x1f == 8 {
            return Ok(());
        }
        let c = firsts(c, 4).ok_or("field of the PDU runs past it")?;
        for v in all(c[3]).ok_or("variable runs past the list")? {
            let (v, _) = split(v).ok_or("variable runs past the list")?;
            firsts(v, 2).ok_or("name or value runs past the variable")?;
        }
        Ok(())
    };
    if which < 2 {
        let f = firsts(top, 3).ok_or("field of the message runs past it")?;
        r.push(("community", hex(f[1])));
        let (_, r1) = split(top).ok_or("")?;
        let (_, r2) = split(r1).ok_or("")?;
        pdu(r2)?;
        return Ok(r);
    }
    let f = firsts(top, 4).ok_or("field of the message runs past it")?;
    let g = firsts(f[1], 4).ok_or("field of the header runs past it")?;
    if let Some(n) = number(g[0]) {
        r.push(("message id", n.to_string()));
    }
    let (s, _) = split(f[2]).ok_or("security parameters run past the enclosing element")?;
    let s = firsts(s, 6).ok_or("security parameter runs past the enclosing element")?;
    r.push(("engine id", hex(s[0])));
    if let Some(n) = number(s[1]) {
        r.push(("boots", n.to_string()));
    }
    if let Some(n) = number(s[2]) {
        r.push(("time", n.to_string()));
    }
    r.push(("user", hex(s[3])));
    r.push(("auth", hex(s[4])));
    r.push(("priv", hex(s[5])));
    let mut t = top;
    for _ in 0..3 {
        t = split(t).ok_or("")?.1;
    }
    if t[0] & 0x1f == 4 {
        r.push(("encrypted", hex(f[3])));
    } else {
        let d = firsts(f[3], 3).ok_or("field of the scoped PDU runs past it")?;
        r.push(("context engine", hex(d[0])));
        let mut t = f[3];
        for _ in 0..2 {
            t = split(t).ok_or("")?.1;
        }
        pdu(t)?;
    }
    Ok(r)
}

fn decoded(which: usize, y: &[u8]) -> Option<Vec<(&'static str, String)>> {
    Some(match which {
        0 => vec![("community", hex(SnmpV1Message::try_from(y).ok()?.community))],
        1 => vec![("community", hex(SnmpV2cMessage::try_from(y).ok()?.community))],
        _ => {
            let m = SnmpV3Message::try_from(y).ok()?;
            let mut r = vec![
                ("message id", m.msg_id.to_string()),
                ("engine id", hex(m.usm.engine_id)),
                ("boots", m.usm.engine_boots.to_string()),
                ("time", m.usm.engine_time.to_string()),
                ("user", hex(m.usm.user_name)),
                ("auth", hex(m.usm.auth_params)),
                ("priv", hex(m.usm.privacy_params)),
            ];
            match &m.data {
                MsgData::Encrypted(e) => r.push(("encrypted", hex(e))),
                MsgData::Plaintext(s) => r.push(("context engine", hex(s.engine_id))),
            }
            r
        }
    })
}

/// Tree of anything: damaged parts are leaves
fn tree(i: &[u8], depth: usize) -> Vec<Node> {
    let mut r = vec![];
    let mut i = i;
    while !i.is_empty() {
        let Some((c, rest)) = split(i) else {
            r.push(Node::Raw(i.to_vec()));
            break;
        };
        let (tl, _) = header_size(i).unwrap_or((1, 2));
        let e = &i[..i.len() - rest.len()];
        let inner = if depth < 8 && tl == 1 && c.len() > 1 && (i[0] & 0x20 != 0 || (i[0] == 4 && c[0] == 0x30)) { all(c).is_some() } else { false };
        if inner {
            r.push(Node::Cons(i[0], tree(c, depth + 1)));
        } else if tl == 1 {
            r.push(Node::Leaf(i[0], c.to_vec()));
        } else {
            r.push(Node::Raw(e.to_vec()));
        }
        i = rest;
    }
    r
}

fn count(n: &Node) -> usize {
    1 + if let Node::Cons(_, c) = n { c.iter().map(count).sum() } else { 0 }
}

/// Do something with k-th node
fn at(n: &mut Vec<Node>, k: &mut usize, f: &mut dyn FnMut(&mut Vec<Node>, usize)) -> bool {
    for j in 0..n.len() {
        if *k == 0 {
            f(n, j);
            return true;
        }
        *k -= 1;
        if let Node::Cons(_, c) = &mut n[j] {
            if at(c, k, f) {
                return true;
            }
        }
    }
    false
}

fn structured(r: &mut Rng, y: &[u8], other: &[u8]) -> Vec<u8> {
    let mut t = tree(y, 0);
    let total: usize = t.iter().map(count).sum();
    if total == 0 {
        return y.to_vec();
    }
    let mut k = r.below(total);
    let what = r.below(9);
    let v = value(r);
    let o = tree(other, 0);
    let ototal: usize = o.iter().map(count).sum();
    let ok = r.below(ototal.max(1));
    let bytes = {
        let n = r.size().min(300);
        r.bytes(n)
    };
    let b = r.u8();
    let pos = r.u64() as usize;
    let num = r.i64();
    at(&mut t, &mut k, &mut |v0, j| match what {
        0 => v0[j] = Node::Raw(v.clone()),
        1 => {
            let x = v0[j].clone();
            v0.insert(j, x);
        }
        2 => {
            v0.remove(j);
        }
        3 | 4 => {
            // Something of the other one
            let mut o2 = o.clone();
            let mut k2 = ok;
            let mut got = None;
            at(&mut o2, &mut k2, &mut |w, i| got = Some(w[i].clone()));
            if let Some(g) = got {
                v0[j] = g;
            }
        }
        5 => match &mut v0[j] {
            Node::Leaf(_, c) => *c = bytes.clone(),
            Node::Cons(t, _) => *t = b,
            _ => {}
        },
        6 => match &mut v0[j] {
            Node::Leaf(_, c) if !c.is_empty() => {
                let p = pos % c.len();
                c[p] = b;
            }
            Node::Leaf(t, _) | Node::Cons(t, _) => *t ^= 1 << (pos % 8),
            _ => {}
        },
        7 => {
            if let Node::Leaf(_, c) = &mut v0[j] {
                *c = int_content(num);
            }
        }
        _ => {
            let n = v0.len();
            v0.swap(j, pos % n);
        }
    });
    t.iter().flat_map(|x| x.ser()).collect()
}

fn mutate(r: &mut Rng, y: &[u8], other: &[u8]) -> Vec<u8> {
    let mut y = y.to_vec();
    for _ in 0..r.range(1, 4) {
        if r.chance(2) {
            y = structured(r, &y, other);
            continue;
        }
        if y.is_empty() {
            y.push(r.u8());
        }
        let k = r.below(y.len());
        match r.below(9) {
            0 => y[k] = r.u8(),
            1 => y[k] ^= 1 << r.below(8),
            2 => y.truncate(k),
            3 => {
                let b = r.u8();
                y.insert(k, b);
            }
            4 => {
                y.remove(k);
            }
            5 => y[k] = *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 8, 9, 0x30, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0xa2, 0xa8, 0xfe, 0xff]),
            6 => y[k] = y[k].wrapping_add(r.range(0, 8) as u8).wrapping_sub(4),
            7 => {
                let e = r.range(k, y.len());
                let c = y[k..e].to_vec();
                let p = r.below(y.len());
                y.splice(p..p, c);
            }
            _ => {
                let e = r.range(k, y.len());
                y.drain(k..e);
            }
        }
    }
    y.truncate(4096);
    y
}

fn grow(m: &mut Mon, py: Python<'_>) {
    let mut c = cov::Cov::new();
    let mut pool: Vec<Box<[u8]>> = vec![];
    let kind = "grow";
    for i in 0..m.n {
        if !m.mine(i) {
            continue;
        }
        if !m.case(kind, i) {
            break;
        }
        let mut r = m.rng(kind, i);
        let y = if pool.len() < 16 || r.chance(50) {
            match r.below(3) {
                0 => value(&mut r),
                _ => {
                    let w = r.below(3);
                    msg(&mut r, w).ser()
                }
            }
        } else {
            let recent = r.chance(2);
            let n = pool.len();
            let pick = |r: &mut Rng| if recent { n - 1 - r.below(n.min(40)) } else { r.below(n) };
            let (a, b) = (pick(&mut r), pick(&mut r));
            mutate(&mut r, &pool[a], &pool[b])
        };
        let y: Box<[u8]> = y.into();
        c.reset();
        let res = guarded(|| {
            let mut ok = 0usize;
            for w in 0..3 {
                ok |= (message(py, w, &y).is_ok() as usize) << w;
            }
            for w in [0usize, 17, 19] {
                let _ = element(py, w, &y);
            }
            ok
        });
        let ok = match res {
            Ok(x) => x,
            Err(e) => m.fail(kind, i, &format!("decoder panics: {e}"), &[("octets", hex(&y))]),
        };
        let news = c.news();
        if c.len() == 0 && i % 64 == m.shard {
            // No counters in this build
            pool.push(y.clone());
            if pool.len() > 4000 {
                pool.clear();
            }
        }
        // Interpretation
        for w in 0..3 {
            if ok >> w & 1 != 0 {
                m.count("messages decoded");
                let got = decoded(w, &y).unwrap_or_default();
                INDEFINITE.set(false);
                let f = fields(w, &y);
                if INDEFINITE.get() {
                    continue;
                }
                match f {
                    Err(e) => m.fail(kind, i, &format!("{}: {e}, and the message is decoded", MESSAGES[w]), &[("octets", hex(&y))]),
                    Ok(want) => {
                        for (k, v) in &want {
                            if !got.iter().any(|(a, b)| a == k && b == v) {
                                m.fail(
                                    kind,
                                    i,
                                    &format!("{}: {k} is not what is in its place", MESSAGES[w]),
                                    &[("octets", hex(&y)), ("place", v.clone()), ("decoded", format!("{got:?}"))],
                                );
                            }
                        }
                        m.count_n("fields compared with the octets in their places", want.len() as u64);
                    }
                }
            }
        }
        if news == 0 {
            continue;
        }
        m.sig(&[7, y.iter().fold(y.len() as u64, |a, b| a.wrapping_mul(257).wrapping_add(*b as u64))]);
        m.count("inputs with new coverage");
        m.sample(kind, &hex(&y[..y.len().min(200)]));
        pool.push(y.clone());
        let tag = y.first().copied().unwrap_or(0);
        let mut ws = vec![0, 18];
        ws.extend(NATURAL.iter().filter(|t| t.0 == tag).map(|t| t.1));
        if tag & 0x20 != 0 {
            ws.extend([16, 19]);
        }
        let mut z = y.to_vec();
        z.extend(suffix(&mut r, &y));
        for w in ws {
            relation(m, py, kind, i, w, &y);
            relation(m, py, kind, i, w, &z);
        }
        if ok != 0 {
            for cut in 0..y.len() {
                let b: Box<[u8]> = y[..cut].into();
                match guarded(|| (0..3).any(|w| message(py, w, &b).is_ok())) {
                    Ok(true) => m.fail(kind, i, "truncated message is decoded", &[("message", hex(&b))]),
                    Ok(false) => {}
                    Err(e) => m.fail(kind, i, &format!("decoder panics instead of the rejection: {e}"), &[("octets", hex(&b))]),
                }
            }
        }
    }
    m.count_n("coverage: edges of the code reached by the decoders, each shard", c.edges);
    m.count_n("coverage: edges with different counts, each shard", c.features);
    m.count_n("coverage: counters, each shard", c.len() as u64);
    if c.len() == 0 {
        m.count("no coverage counters in this build");
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    pyo3::prepare_freethreaded_python();
    let mut m = Mon::new();
    Python::with_gil(|py| match m.mode.as_str() {
        "small" => small(&mut m, py),
        "elements" => elements(&mut m, py),
        "messages" => msgs(&mut m, py),
        "varbinds" => varbinds(&mut m, py),
        "garbage" => garbage(&mut m, py),
        "grow" => grow(&mut m, py),
        x => panic!("mode {x}"),
    });
    m.finish();
}

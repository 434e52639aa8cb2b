//! C15: encode(x) is the minimal form, decode(encode(x)) == x and nothing is left.
#[path = "../mon.rs"]
mod mon;

use gufo_snmp::ber::{BerDecoder, BerEncoder, SnmpInt, SnmpNull, SnmpOctetString, SnmpOid};
use gufo_snmp::buf::Buffer;
use gufo_snmp::snmp::get::SnmpGet;
use gufo_snmp::snmp::getbulk::SnmpGetBulk;
use gufo_snmp::snmp::msg::v3::{MsgData, ScopedPdu, UsmParameters};
use gufo_snmp::snmp::msg::{SnmpPdu, SnmpV1Message, SnmpV2cMessage, SnmpV3Message};
use mon::*;

fn check_int(m: &mut Mon, buf: &mut Buffer, v: i64, idx: u64) {
    buf.reset();
    let x: SnmpInt = v.into();
    if x.push_ber(buf).is_err() {
        m.fail("ints", idx, "INTEGER is not encoded", &[("value", v.to_string())]);
    }
    let c = int_content(v);
    let d = buf.data();
    if d.len() != c.len() + 2 || d[0] != 2 || d[1] as usize != c.len() || d[2..] != c[..] {
        let d = hex(d);
        m.fail("ints", idx, "INTEGER is not in the minimal form", &[("value", v.to_string()), ("got", d), ("expected", hex(&int(v)))]);
    }
    match SnmpInt::from_ber(d) {
        Ok((rest, r)) => {
            let n = rest.len();
            let r: i64 = r.into();
            if r != v || n != 0 {
                let d = hex(d);
                m.fail("ints", idx, "INTEGER is not decoded back", &[("value", v.to_string()), ("octets", d), ("got", r.to_string()), ("left", n.to_string())]);
            }
        }
        Err(_) => {
            let d = hex(d);
            m.fail("ints", idx, "own INTEGER is refused", &[("value", v.to_string()), ("octets", d)]);
        }
    }
}

fn ints(m: &mut Mon) {
    let mut buf = Buffer::default();
    // Every value of 1..3 contents octets
    let (lo, hi) = (-(1i64 << 23), 1i64 << 23);
    let span = (hi - lo) / m.shards as i64;
    let from = lo + span * m.shard as i64;
    let to = if m.shard + 1 == m.shards { hi } else { from + span };
    for v in from..to {
        check_int(m, &mut buf, v, 0);
        if v & 0x7ffff == 0 {
            m.state("ints", 0);
        }
    }
    m.done("ints", (to - from) as u64);
    m.count_n("integers: 1..3 contents octets, exhaustive", (to - from) as u64);
    m.sig(&[1, m.shard]);
    // Neighbourhoods of the boundaries
    let mut n = 0u64;
    for k in 1..=8u32 {
        for p in [8 * k - 1, 8 * k] {
            for neg in [false, true] {
                if !m.mine((k * 4 + (p & 1) * 2 + neg as u32) as u64) {
                    continue;
                }
                let c = if neg { -(1i128 << p) } else { 1i128 << p };
                for d in -65536i128..=65536 {
                    let v = c + d;
                    if let Ok(v) = i64::try_from(v) {
                        check_int(m, &mut buf, v, 1);
                        n += 1;
                    }
                }
                m.state("ints", 1);
                m.sig(&[2, p as u64, neg as u64]);
            }
        }
    }
    m.done("ints", n);
    m.count_n("integers: neighbourhoods of the boundaries", n);
    // Anything else
    let total = m.n;
    let mut r = m.rng("ints", m.shard);
    for i in 0..total {
        let v = r.i64();
        check_int(m, &mut buf, v, 2);
        if i & 0xfffff == 0 {
            m.state("ints", 2);
            if m.over() {
                break;
            }
        }
        m.done("ints", 1);
        if i < 200_000 {
            m.sig(&[3, v as u64]);
        }
    }
    m.count_n("integers: random", total);
    m.sample("ints", &format!("{} -> {}", -32767, hex(&int(-32767))));
}

fn dotted(subs: &[u64]) -> String {
    subs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")
}

fn oids(m: &mut Mon) {
    let mut buf = Buffer::default();
    if m.shard == 0 {
        SnmpNull {}.push_ber(&mut buf).ok();
        if buf.data() != [5, 0] || !matches!(SnmpNull::from_ber(buf.data()), Ok((rest, _)) if rest.is_empty()) {
            m.fail("oids", 0, "NULL", &[]);
        }
    }
    for i in 0..m.n {
        if !m.mine(i) {
            continue;
        }
        if !m.case("oids", i) {
            break;
        }
        let mut r = m.rng("oids", i);
        // Every root, every second arc, then the others
        let subs = if i < 120 {
            vec![i / 40, i % 40]
        } else if i < 120 + 4 * 36 * 33 {
            // Every sub-identifier next to the boundaries
            let k = i - 120;
            let w = k % 33;
            let v = ((1u64 << w) as i64 + ((k / 33) % 36) as i64 - 18).clamp(0, u32::MAX as i64) as u64;
            match k / (33 * 36) {
                0 => vec![1, 3, v],
                1 => vec![1, 3, 6, v, 1],
                2 => vec![2, 39, v, v],
                _ => vec![0, 0, v, 0, v],
            }
        } else {
            let n = match r.below(8) {
                0 => 0,
                1 => r.range(100, 130),
                2 => r.range(240, 700),
                _ => r.range(1, 40),
            };
            rand_oid(&mut r, n)
        };
        let content = oid_content(&subs);
        let expected = tlv(6, &content);
        let text = dotted(&subs);
        for from_text in [false, true] {
            let oid = if from_text {
                match SnmpOid::try_from(text.as_str()) {
                    Ok(x) => x,
                    Err(_) => m.fail("oids", i, "correct OID is refused", &[("oid", text)]),
                }
            } else {
                SnmpOid::from(content.clone())
            };
            buf.reset();
            if oid.push_ber(&mut buf).is_err() {
                if expected.len() <= buf.free() + buf.len() {
                    m.fail("oids", i, "OID is not encoded", &[("oid", text)]);
                }
                continue;
            }
            if buf.data() != expected {
                m.fail("oids", i, "OID is not in the minimal form", &[("oid", text), ("got", hex(buf.data())), ("expected", hex(&expected))]);
            }
            match SnmpOid::from_ber(buf.data()) {
                Ok((rest, back)) => {
                    let s = String::try_from(&back).unwrap_or_default();
                    if !rest.is_empty() || back != oid || s != text {
                        m.fail("oids", i, "OID is not decoded back", &[("oid", text), ("got", s), ("left", hex(rest))]);
                    }
                }
                Err(_) => m.fail("oids", i, "own OID is refused", &[("oid", text), ("octets", hex(buf.data()))]),
            }
        }
        m.sig(&[4, subs.len() as u64, content.len() as u64, subs.iter().fold(0, |a, x| a.wrapping_mul(31).wrapping_add(*x))]);
        m.count("OIDs");
        if i == 5000 {
            m.sample("oids", &text);
        }
    }
}

fn octets(m: &mut Mon) {
    let cap = Buffer::default().free();
    let mut r = m.rng("octets", 0);
    for n in 0..=cap + 8 {
        if !m.mine(n as u64) {
            continue;
        }
        if !m.case("octets", n as u64) {
            break;
        }
        let data = r.bytes(n);
        let expected = tlv(4, &data);
        let mut buf = Buffer::default();
        let ok = buf.push_tagged(4, &data).is_ok();
        if ok != (expected.len() <= cap) {
            m.fail("octets", n as u64, "OCTET STRING which fits is refused, or the other is not", &[("size", n.to_string())]);
        }
        if !ok {
            continue;
        }
        if buf.data() != expected {
            m.fail("octets", n as u64, "OCTET STRING is not in the minimal form", &[("size", n.to_string()), ("got", hex(&buf.data()[..8.min(buf.len())]))]);
        }
        match SnmpOctetString::from_ber(buf.data()) {
            Ok((rest, _)) if rest.is_empty() => {}
            _ => m.fail("octets", n as u64, "own OCTET STRING is not decoded back", &[("size", n.to_string())]),
        }
        m.sig(&[5, n as u64]);
        m.count("OCTET STRING sizes");
    }
}

struct Req {
    op: u8,
    request_id: i64,
    non_repeaters: i64,
    max_repetitions: i64,
    oids: Vec<Vec<u8>>,
}

impl Req {
    fn ber(&self) -> Vec<u8> {
        let mut vb = vec![];
        for o in &self.oids {
            let mut x = tlv(6, o);
            x.extend([5, 0]);
            vb.extend(tlv(0x30, &x));
        }
        let mut c = int(self.request_id);
        c.extend(int(self.non_repeaters));
        c.extend(int(self.max_repetitions));
        c.extend(tlv(0x30, &vb));
        tlv(self.op, &c)
    }
    fn pdu(&self) -> Option<SnmpPdu<'static>> {
        let vars = || self.oids.iter().map(|x| SnmpOid::from(x.clone())).collect();
        Some(match self.op {
            0xa0 => SnmpPdu::GetRequest(SnmpGet { request_id: self.request_id, vars: vars() }),
            0xa1 => SnmpPdu::GetNextRequest(SnmpGet { request_id: self.request_id, vars: vars() }),
            _ => {
                // The fields are private, so build it by the decoder
                let b: &'static [u8] = Box::leak(self.ber().into_boxed_slice());
                let h = match extent(b) {
                    Extent::Octets(_) if b[1] & 0x80 == 0 => 2,
                    _ => 2 + (b[1] & 0x7f) as usize,
                };
                SnmpPdu::GetBulkRequest(SnmpGetBulk::try_from(&b[h..]).ok()?)
            }
        })
    }
    /// The only thing available to compare is what the encoder makes of it
    fn same(&self, pdu: &SnmpPdu) -> Result<(), String> {
        let (op, id, vars) = match pdu {
            SnmpPdu::GetRequest(x) => (0xa0, Some(x.request_id), Some(&x.vars)),
            SnmpPdu::GetNextRequest(x) => (0xa1, Some(x.request_id), Some(&x.vars)),
            SnmpPdu::GetBulkRequest(_) => (0xa5, None, None),
            _ => return Err("type of the PDU differs".into()),
        };
        if op != self.op {
            return Err("type of the PDU differs".into());
        }
        if let Some(id) = id
            && id != self.request_id
        {
            return Err(format!("request-id {id}"));
        }
        if let Some(vars) = vars {
            let want: Vec<SnmpOid> = self.oids.iter().map(|x| SnmpOid::from(x.clone())).collect();
            if *vars != want {
                return Err("OIDs differ".into());
            }
        }
        let mut b = Buffer::default();
        if pdu.push_ber(&mut b).is_err() || b.data() != self.ber() {
            return Err("decoded PDU is encoded in another way".into());
        }
        Ok(())
    }
}

fn rand_req(r: &mut Rng) -> Req {
    let op = *r.pick(&[0xa0u8, 0xa1, 0xa5]);
    let n = match r.below(10) {
        0 => 0,
        1..=5 => 1,
        6..=8 => r.range(2, 12),
        _ => r.range(13, 400),
    };
    let width = *r.pick(&[1usize, 8, 20, 60]);
    let oids = (0..n)
        .map(|_| {
            let k = r.below(width + 1);
            oid_content(&rand_oid(r, k))
        })
        .collect();
    let bulk = op == 0xa5;
    Req {
        op,
        request_id: r.i64(),
        non_repeaters: if bulk { r.i64() } else { 0 },
        max_repetitions: if bulk { r.i64() } else { 0 },
        oids,
    }
}

/// Value of the n-th INTEGER of msgGlobalData
fn max_size(b: &[u8]) -> Option<i64> {
    let hl = |i: &[u8]| if i[1] & 0x80 == 0 { (2, i[1] as usize) } else { (2 + (i[1] & 0x7f) as usize, 0) };
    let (h, _) = hl(b);
    let b = b.get(h + 3..)?; // version
    let (h, _) = hl(b);
    let b = b.get(h..)?;
    let b = b.get(2 + hl(b).1..)?; // msgID
    let (h, n) = hl(b);
    let c = b.get(h..h + n)?;
    Some(c.iter().fold(0, |a, x| (a << 8) | *x as i64))
}

fn messages(m: &mut Mon) {
    let cap = Buffer::default().free();
    for i in 0..m.n {
        if !m.mine(i) {
            continue;
        }
        if !m.case("messages", i) {
            break;
        }
        let mut r = m.rng("messages", i);
        let mut req = rand_req(&mut r);
        let version = r.below(3);
        let community = {
            let n = r.size();
            r.bytes(n)
        };
        let user = {
            let n = r.size().min(300);
            r.bytes(n)
        };
        let engine = {
            let n = if r.chance(8) { r.size().min(200) } else { r.range(0, 32) };
            r.bytes(n)
        };
        let auth = {
            let n = *r.pick(&[0usize, 12, 12, 12, 16, 24]);
            vec![0u8; n]
        };
        let privp = {
            let n = *r.pick(&[0usize, 8, 8]);
            r.bytes(n)
        };
        let (msg_id, boots, time) = (r.i64(), r.i64(), r.i64());
        let flags = r.below(8) as u8;
        let encrypted = r.chance(3);
        let enc = {
            let n = r.size() * if r.chance(5) { 5 } else { 1 };
            r.bytes(n)
        };
        let same_ctx = r.chance(2);
        let ctx = if same_ctx { engine.clone() } else { vec![] };
        let build = |req: &Req, ms: i64| -> Vec<u8> {
            if version < 2 {
                let mut c = int(version as i64);
                c.extend(tlv(4, &community));
                c.extend(req.ber());
                return tlv(0x30, &c);
            }
            let mut g = int(msg_id);
            g.extend(int(ms));
            g.extend(tlv(4, &[flags]));
            g.extend(int(3));
            let mut u = tlv(4, &engine);
            u.extend(int(boots));
            u.extend(int(time));
            u.extend(tlv(4, &user));
            u.extend(tlv(4, &auth));
            u.extend(tlv(4, &privp));
            let mut c = int(3);
            c.extend(tlv(0x30, &g));
            c.extend(tlv(4, &tlv(0x30, &u)));
            if encrypted {
                c.extend(tlv(4, &enc));
            } else {
                let mut s = tlv(4, &ctx);
                s.extend(tlv(4, &[]));
                s.extend(req.ber());
                c.extend(tlv(0x30, &s));
            }
            tlv(0x30, &c)
        };
        // Place some of them next to the capacity
        let mut guard = 0;
        while r.chance(3) && build(&req, 2048).len() < cap + 20 && guard < 3 {
            let free = (cap + 10).saturating_sub(build(&req, 2048).len());
            let k = free.saturating_sub(r.below(24));
            req.oids.push([vec![43], vec![1; k.min(3000)]].concat());
            guard += 1;
        }
        let Some(pdu) = req.pdu() else {
            m.fail("messages", i, "own GetBulk content is refused", &[("pdu", hex(&req.ber()))]);
        };
        let mut buf = Buffer::default();
        let res = match version {
            0 => SnmpV1Message { community: &community, pdu }.push_ber(&mut buf),
            1 => SnmpV2cMessage { community: &community, pdu }.push_ber(&mut buf),
            _ => SnmpV3Message {
                msg_id,
                flag_auth: flags & 1 != 0,
                flag_priv: flags & 2 != 0,
                flag_report: flags & 4 != 0,
                usm: UsmParameters { engine_id: &engine, engine_boots: boots, engine_time: time, user_name: &user, auth_params: &auth, privacy_params: &privp },
                data: if encrypted { MsgData::Encrypted(&enc) } else { MsgData::Plaintext(ScopedPdu { engine_id: &ctx, pdu }) },
            }
            .push_ber(&mut buf),
        };
        let ms = if version == 2 && res.is_ok() { max_size(buf.data()).unwrap_or(0) } else { 2048 };
        let expected = build(&req, ms);
        if res.is_err() {
            if expected.len() <= cap {
                m.fail("messages", i, "message which fits is not encoded", &[("expected", hex(&expected)), ("size", expected.len().to_string())]);
            }
            m.count("messages over the capacity");
            m.sig(&[7, version as u64, expected.len() as u64]);
            continue;
        }
        let d = buf.data();
        if d != expected {
            m.fail("messages", i, "message is not in the minimal form", &[("got", hex(d)), ("expected", hex(&expected))]);
        }
        // And back
        let r: Result<(), String> = (|| {
            match version {
                0 => {
                    let x = SnmpV1Message::try_from(d).map_err(|e| format!("refused: {e:?}"))?;
                    if x.community != community {
                        return Err("community".into());
                    }
                    req.same(&x.pdu)
                }
                1 => {
                    let x = SnmpV2cMessage::try_from(d).map_err(|e| format!("refused: {e:?}"))?;
                    if x.community != community {
                        return Err("community".into());
                    }
                    req.same(&x.pdu)
                }
                _ => {
                    let x = SnmpV3Message::try_from(d).map_err(|e| format!("refused: {e:?}"))?;
                    let f = x.flag_auth as u8 | (x.flag_priv as u8) << 1 | (x.flag_report as u8) << 2;
                    if x.msg_id != msg_id || f != flags {
                        return Err(format!("message id {} flags {f}", x.msg_id));
                    }
                    let u = &x.usm;
                    if u.engine_id != engine || u.engine_boots != boots || u.engine_time != time || u.user_name != user || u.auth_params != auth || u.privacy_params != privp {
                        return Err(format!("security parameters: boots {} time {}", u.engine_boots, u.engine_time));
                    }
                    match &x.data {
                        MsgData::Encrypted(e) if encrypted => (*e == enc).then_some(()).ok_or("payload".to_string()),
                        MsgData::Plaintext(s) if !encrypted => {
                            if s.engine_id != ctx {
                                return Err("context engine id".into());
                            }
                            req.same(&s.pdu)
                        }
                        _ => Err("kind of msgData".into()),
                    }
                }
            }
        })();
        if let Err(e) = r {
            m.fail("messages", i, &format!("message is not decoded back: {e}"), &[("octets", hex(&expected)), ("boots", boots.to_string()), ("time", time.to_string())]);
        }
        m.sig(&[6, version as u64, req.op as u64, req.oids.len() as u64, expected.len() as u64, encrypted as u64]);
        m.count(["messages v1", "messages v2c", "messages v3"][version]);
        if expected.len() > 255 {
            m.count("messages of 256 octets and more");
        }
        if expected.len() + 32 > cap {
            m.count("messages within 32 octets of the capacity");
        }
        if i < 16 {
            m.sample("messages", &hex(&expected).chars().take(600).collect::<String>());
        }
    }
}

fn main() {
    let mut m = Mon::new();
    match m.mode.as_str() {
        "ints" => ints(&mut m),
        "oids" => {
            oids(&mut m);
            octets(&mut m);
        }
        "messages" => messages(&mut m),
        x => panic!("mode {x}"),
    }
    m.finish();
}

//! Codec properties: C01 wire conformance (encode), C02 decode of every legal
//! wire form, C03 totality/locality, C04 stream reassembly, C05 leveled parse,
//! C06 strict rejection.
use crate::conv::*;
use crate::core::*;
use crate::ensure;
use crate::refcodec::*;
use flowsdk::mqtt_serde::control_packet::MqttPacket as M;
use flowsdk::mqtt_serde::parser::ParseOk;
use serde::{Deserialize, Serialize};

#[derive(Debug, Serialize, Deserialize)]
pub struct PktCase {
    pub v5: bool,
    pub long: u8,
    pub p: R,
}

fn gen_pkt(s: &mut Src, v5: bool) -> PktCase {
    PktCase {
        v5,
        long: s.below(3) as u8,
        p: gen_packet(s, v5),
    }
}
fn gen_pkt5(s: &mut Src) -> PktCase {
    gen_pkt(s, true)
}
fn gen_pkt3(s: &mut Src) -> PktCase {
    gen_pkt(s, false)
}

pub fn classify(c: &R, o: &mut Obs) {
    o.label(c.kind_name());
    if c.props().len() >= 2 {
        o.label("props>=2");
    }
    if let R::Connect { will: Some(_), .. } = c {
        o.label("will");
    }
    if let R::Publish { payload, .. } = c {
        if payload.len() > 65535 {
            o.label("payload>64k");
        }
    }
}

fn check_encode(c: &PktCase, o: &mut Obs) -> Res {
    classify(&c.p, o);
    let m = to_flow(&c.p, c.v5);
    let bytes = match m.to_bytes() {
        Ok(b) => b,
        Err(e) => {
            return fail(
                format!("encode-rejects-valid:{}", c.p.kind_name()),
                format!("{e:?}"),
            )
        }
    };
    o.nt_if(bytes.len() > 4);
    let got = match decode(&bytes, c.v5) {
        Ok(g) => g,
        Err(e) => {
            return fail(
                format!("encode-malformed:{}", c.p.kind_name()),
                format!(
                    "reference decoder: {e}; bytes {:02x?}",
                    &bytes[..bytes.len().min(64)]
                ),
            )
        }
    };
    let mut want = c.p.clone();
    let mut got = got;
    if let R::Connect { will, .. } = &mut want {
        canon_will(will);
    }
    if let R::Connect { will, .. } = &mut got {
        canon_will(will);
    }
    ensure!(
        got == want,
        format!("encode-differs:{}", c.p.kind_name()),
        "wire carries {got:?}, value is {want:?}"
    );
    // shortest legal total length: nothing is padded
    let max = encode(&c.p, c.v5, 2).len();
    ensure!(
        bytes.len() <= max,
        format!("encode-long:{}", c.p.kind_name()),
        "{} bytes, longest legal form {max}",
        bytes.len()
    );
    // flowsdk reads back what it wrote
    check_decoded(&bytes, &m, &c.p, c.v5, "roundtrip")
}

fn check_decoded(bytes: &[u8], m: &M, p: &R, v5: bool, what: &str) -> Res {
    match M::from_bytes_with_version(bytes, ver(v5)) {
        Ok(ParseOk::Packet(got, used)) => {
            ensure!(
                used == bytes.len(),
                format!("{what}-consumed:{}", p.kind_name()),
                "consumed {used} of {}",
                bytes.len()
            );
            ensure!(
                got == *m,
                format!("{what}-differs:{}", p.kind_name()),
                "decoded {got:?} expected {m:?}"
            );
            Ok(())
        }
        Ok(ParseOk::Continue(n, _)) => fail(
            format!("{what}-continue:{}", p.kind_name()),
            format!("asks for {n} more bytes on a complete frame"),
        ),
        Ok(_) => fail(format!("{what}-other:{}", p.kind_name()), "topic name?"),
        Err(e) => fail(
            format!("{what}-rejected:{}", p.kind_name()),
            format!("{e:?} on {:02x?}", &bytes[..bytes.len().min(64)]),
        ),
    }
}

/// AUTH with nothing after the fixed header (MQTT 5.0 3.15.2.1 allows it): its
/// own sub-check, because it is a recorded finding that an existing test pins.
fn gen_auth_empty(s: &mut Src) -> PktCase {
    let _ = s.below(2);
    PktCase {
        v5: true,
        long: 0,
        p: R::Auth {
            code: 0,
            props: vec![],
        },
    }
}

fn check_auth_empty(c: &PktCase, o: &mut Obs) -> Res {
    o.nt();
    let bytes = encode(&c.p, true, 0);
    let m = to_flow(&c.p, true);
    match M::from_bytes_with_version(&bytes, 5) {
        Err(flowsdk::mqtt_serde::parser::ParseError::ParseError(e))
            if e == "AUTH packet must contain a reason code" =>
        {
            fail("auth-without-reason-code-rejected", format!("{bytes:02x?}"))
        }
        _ => check_decoded(&bytes, &m, &c.p, true, "decode"),
    }
}

fn check_decode(c: &PktCase, o: &mut Obs) -> Res {
    classify(&c.p, o);
    if matches!(&c.p, R::Auth { code: 0, props } if props.is_empty()) && c.long < 2 {
        o.excluded += 1;
        return Ok(());
    }
    let bytes = encode(&c.p, c.v5, c.long);
    if c.long > 0 {
        o.label("long-form");
    }
    o.nt_if(bytes.len() > 4);
    let m = to_flow(&c.p, c.v5);
    check_decoded(&bytes, &m, &c.p, c.v5, "decode")
}

fn check_json(c: &PktCase, o: &mut Obs) -> Res {
    classify(&c.p, o);
    let m = to_flow(&c.p, c.v5);
    let j = serde_json::to_string(&m).map_err(|e| Fail {
        sig: "json-ser".into(),
        msg: e.to_string(),
    })?;
    o.nt_if(j.len() > 60);
    let back: M = serde_json::from_str(&j).map_err(|e| Fail {
        sig: format!("json-de:{}", c.p.kind_name()),
        msg: e.to_string(),
    })?;
    ensure!(
        back == m,
        format!("json-differs:{}", c.p.kind_name()),
        "{back:?} != {m:?}"
    );
    Ok(())
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        rule: "reference packets generated per MQTT 3.1.1/5.0 grammar with boundary lengths; non-trivial = encoded frame longer than 4 bytes; distinct by case content",
        assumptions: &["generated strings contain no NUL and no leading BOM (both documented as rejected)"],
        subs: vec![
            Box::new(Sub { name: "encode5", quick: 60_000, thorough: 1_200_000, threads: 0, gen: gen_pkt5, check: check_encode }),
            Box::new(Sub { name: "encode3", quick: 30_000, thorough: 600_000, threads: 0, gen: gen_pkt3, check: check_encode }),
            Box::new(Sub { name: "json5", quick: 4_000, thorough: 100_000, threads: 0, gen: gen_pkt5, check: check_json }),
            Box::new(Sub { name: "json3", quick: 2_000, thorough: 50_000, threads: 0, gen: gen_pkt3, check: check_json }),
        ],
    }
}

/// The primitive types, as code that reads or writes its own fields uses them.
#[derive(Debug, Serialize, Deserialize)]
struct BaseCase {
    n: u32,
    text: String,
    more: String,
    data: Vec<u8>,
    /// what follows on the wire
    tail: Vec<u8>,
}
fn gen_base(s: &mut Src) -> BaseCase {
    BaseCase {
        n: match s.below(3) {
            0 => s.u32(),
            1 => 1u32.checked_shl(s.below(32) as u32).unwrap_or(0).wrapping_sub(s.below(2) as u32),
            _ => *s.pick(&[0u32, 127, 128, 16383, 16384, 2097151, 2097152, 268435455]),
        },
        text: gen_string(s, 40),
        more: gen_string(s, 200),
        data: s.vec(0, 300, 20, |s| s.u8()),
        tail: s.vec(0, 6, 2, |s| s.u8()),
    }
}
fn check_base(c: &BaseCase, o: &mut Obs) -> Res {
    use flowsdk::mqtt_serde::base_data::*;
    fn one<T: PartialEq + std::fmt::Debug, E: std::fmt::Debug>(what: &str, wire: Vec<u8>, got: Vec<u8>, tail: &[u8], want: T, dec: impl Fn(&[u8]) -> Result<(T, usize), E>) -> Res {
        ensure!(got == wire, format!("base-encode:{what}"), "{want:?} encodes to {got:02x?}, not {wire:02x?}");
        let n = wire.len();
        let full = [&wire[..], tail].concat();
        match dec(&full) {
            Ok((v, k)) => ensure!(v == want && k == n, format!("base-decode:{what}"), "{full:02x?}: decoded {v:?} of {k} bytes, not {want:?} of {n}"),
            Err(e) => return fail(format!("base-decode:{what}"), format!("{full:02x?}: {e:?}")),
        }
        for cut in [0, n / 2, n - 1] {
            let r = dec(&wire[..cut]);
            ensure!(r.is_err(), format!("base-cut:{what}"), "{cut} of {n} bytes decode to {r:?}");
        }
        Ok(())
    }
    let len = |b: &[u8]| [&(b.len() as u16).to_be_bytes()[..], b].concat();
    let n = c.n;
    let h = n as u16;
    one("u16", vec![(h >> 8) as u8, h as u8], TwoByteInteger::encode(h).to_vec(), &c.tail, h, TwoByteInteger::decode)?;
    one("u32", vec![(n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8], FourByteInteger::encode(n).to_vec(), &c.tail, n, FourByteInteger::decode)?;
    let m = n & 0xfff_ffff;
    let mut w = vec![];
    let mut x = m;
    while x >= 128 {
        w.push(x as u8 | 128);
        x >>= 7;
    }
    w.push(x as u8);
    one("vbi", w, VariableByteInteger::encode(m), &c.tail, m as usize, VariableByteInteger::decode)?;
    one("binary", len(&c.data), BinaryData::encode(&c.data), &c.tail, c.data.clone(), BinaryData::decode)?;
    one("string", len(c.text.as_bytes()), Utf8String::encode(&c.text), &c.tail, c.text.clone(), Utf8String::decode)?;
    let pair = [len(c.text.as_bytes()), len(c.more.as_bytes())].concat();
    one("pair", pair, Utf8StringPair::encode(&c.text, &c.more), &c.tail, (c.text.clone(), c.more.clone()), Utf8StringPair::decode)?;
    o.nt_if(n > 127 && !c.tail.is_empty());
    Ok(())
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        rule: "reference packets encoded by the independent codec in every legal short/long form; non-trivial = frame longer than 4 bytes; distinct by case content",
        assumptions: &["generated strings contain no NUL and no leading BOM (both documented as rejected)"],
        subs: vec![
            Box::new(Sub { name: "decode5", quick: 60_000, thorough: 1_200_000, threads: 0, gen: gen_pkt5, check: check_decode }),
            Box::new(Sub { name: "decode3", quick: 30_000, thorough: 600_000, threads: 0, gen: gen_pkt3, check: check_decode }),
            Box::new(Sub { name: "base", quick: 40_000, thorough: 1_000_000, threads: 0, gen: gen_base, check: check_base }),
            Box::new(Sub { name: "auth-empty", quick: 2, thorough: 2, threads: 1, gen: gen_auth_empty, check: check_auth_empty }),
        ],
    }
}

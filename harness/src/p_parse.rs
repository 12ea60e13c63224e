//! C03 totality and frame locality, C04 stream reassembly, C05 leveled
//! parsing, C06 strict rejection, C07 encoder soundness on any field value.
use crate::conv::*;
use crate::core::*;
use crate::ensure;
use crate::refcodec::*;
use bytes::Bytes;
use flowsdk::mqtt_serde::control_packet::MqttPacket as M;
use flowsdk::mqtt_serde::parser::leveled::*;
use flowsdk::mqtt_serde::parser::stream::{MqttParser, MqttStream};
use flowsdk::mqtt_serde::parser::{ParseError, ParseOk};
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------ byte-level inputs

#[derive(Debug, Serialize, Deserialize)]
pub struct BytesCase {
    pub v5: bool,
    pub bytes: Vec<u8>,
    pub trailer: Vec<u8>,
    pub how: u8,
}

/// A frame with its remaining length recomputed for `body`.
pub fn reframe(first: u8, body: &[u8]) -> Vec<u8> {
    let mut out = vec![first];
    out.extend(vbi(body.len() as u32));
    out.extend_from_slice(body);
    out
}

pub fn small_packet(s: &mut Src, v5: bool) -> R {
    // packets with short fields: mutations hit structure, not payload
    for _ in 0..4 {
        let p = gen_packet(s, v5);
        if encode(&p, v5, 0).len() < 400 {
            return p;
        }
    }
    R::ack(4, 1)
}

pub fn mutate(s: &mut Src, v5: bool) -> (Vec<u8>, u8) {
    let how = s.below(8) as u8;
    let p = small_packet(s, v5);
    let long = s.below(3) as u8;
    let mut b = encode(&p, v5, long);
    let hdr = 1 + b[1..].iter().position(|x| x & 0x80 == 0).unwrap() + 1;
    match how {
        0 => {}
        1 => {
            // flip bytes anywhere
            for _ in 0..s.usize(1, 4) {
                let i = s.usize(0, b.len() - 1);
                b[i] = match s.below(3) {
                    0 => s.u8(),
                    1 => b[i] ^ (1 << s.below(8)),
                    _ => *s.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 2]),
                };
            }
        }
        2 => {
            // cut the body, fix the length
            let body = b[hdr..].to_vec();
            let n = s.usize(0, body.len());
            b = reframe(b[0], &body[..n]);
        }
        3 => {
            // insert bytes in the body, fix the length
            let mut body = b[hdr..].to_vec();
            let at = s.usize(0, body.len());
            let ins = s.bytes(6);
            for (k, x) in ins.iter().enumerate() {
                body.insert(at + k, *x);
            }
            b = reframe(b[0], &body);
        }
        4 => {
            // flip bytes in the body, keep the frame intact
            if b.len() > hdr {
                for _ in 0..s.usize(1, 3) {
                    let i = s.usize(hdr, b.len() - 1);
                    b[i] = *s.pick(&[0u8, 1, 2, 3, 4, 0x10, 0x7f, 0x80, 0xff, 0x0b, 0x26, 0x1f]);
                }
            }
        }
        5 => {
            // lie about the length
            let delta = s.usize(1, 8);
            let body = b[hdr..].to_vec();
            let n = if s.bool() {
                body.len() + delta
            } else {
                body.len().saturating_sub(delta)
            };
            let mut nb = vec![b[0]];
            nb.extend(vbi(n as u32));
            nb.extend(body);
            b = nb;
        }
        6 => {
            // random body under a plausible header
            let first = ((s.range(0, 15) as u8) << 4) | *s.pick(&[0u8, 2, 0, 2, 1, 8, 6, 0xf]);
            let body = s.bytes(40);
            b = reframe(first, &body);
        }
        _ => {
            // delete bytes in the body, fix the length
            let mut body = b[hdr..].to_vec();
            for _ in 0..s.usize(1, 3) {
                if !body.is_empty() {
                    let i = s.usize(0, body.len() - 1);
                    body.remove(i);
                }
            }
            b = reframe(b[0], &body);
        }
    }
    (b, how)
}

fn gen_bytes(s: &mut Src) -> BytesCase {
    let v5 = s.bool();
    let (bytes, how) = if s.chance(1, 12) {
        (s.bytes(30), 8)
    } else {
        mutate(s, v5)
    };
    let trailer = match s.below(3) {
        0 => s.bytes(12),
        1 => encode(&small_packet(s, v5), v5, 0),
        _ => vec![0xff; 40],
    };
    BytesCase {
        v5,
        bytes,
        trailer,
        how,
    }
}

#[derive(Debug, PartialEq)]
enum Out {
    Packet(Box<M>, usize),
    More(usize),
    Err,
}
fn parse(b: &[u8], v: u8) -> Out {
    match M::from_bytes_with_version(b, v) {
        Ok(ParseOk::Packet(p, n)) => Out::Packet(Box::new(p), n),
        Ok(ParseOk::Continue(n, _)) => Out::More(n),
        Ok(ParseOk::TopicName(..)) => Out::Err,
        Err(_) => Out::Err,
    }
}

fn check_total(c: &BytesCase, o: &mut Obs) -> Res {
    let v = ver(c.v5);
    let out = parse(&c.bytes, v);
    o.label(match c.how {
        0 => "intact",
        1 => "flip",
        2 => "cut",
        3 => "insert",
        4 => "flip-body",
        5 => "length-lie",
        6 => "random-body",
        7 => "delete",
        _ => "random",
    });
    match frame_len(&c.bytes) {
        Ok(Some(n)) => {
            o.nt();
            match &out {
                Out::Packet(_, used) => {
                    o.label("accepted");
                    ensure!(
                        *used == n,
                        "consumed-not-frame",
                        "consumed {used}, frame {n}"
                    );
                }
                Out::More(k) => {
                    return fail(
                        "complete-frame-wants-more",
                        format!("asks for {k} more on a complete frame of {n}"),
                    )
                }
                Out::Err => o.label("rejected"),
            }
            // locality: only the frame's own bytes count
            let alone = parse(&c.bytes[..n], v);
            ensure!(
                alone == out,
                "depends-on-trailing-bytes",
                "with the rest of the buffer: {out:?}; alone: {alone:?}"
            );
            let mut ext = c.bytes[..n].to_vec();
            ext.extend_from_slice(&c.trailer);
            let with = parse(&ext, v);
            ensure!(
                alone == with,
                "depends-on-trailing-bytes",
                "alone: {alone:?}; followed by {:02x?}: {with:?}",
                c.trailer
            );
            if let Out::Packet(p, _) = &alone {
                // an accepted value survives its own encoding
                if let Ok(b2) = p.to_bytes() {
                    match parse(&b2, v) {
                        Out::Packet(p2, n2) => {
                            ensure!(n2 == b2.len(), "reencode-consumed", "{n2} of {}", b2.len());
                            ensure!(
                                *p2 == **p,
                                "reencode-differs",
                                "{p:?} became {p2:?} through {b2:02x?}"
                            );
                        }
                        x => {
                            return fail(
                                "reencode-rejected",
                                format!("{p:?} encodes to {b2:02x?} which parses as {x:?}"),
                            )
                        }
                    }
                }
            }
        }
        Ok(None) => {
            o.label("incomplete");
            match out {
                Out::Packet(p, n) => {
                    return fail(
                        "packet-from-incomplete-frame",
                        format!("{p:?} consumed {n} of {}", c.bytes.len()),
                    )
                }
                Out::More(k) => ensure!(k > 0, "continue-zero", "hint 0"),
                Out::Err => {}
            }
        }
        Err(_) => {
            o.label("bad-length");
            ensure!(out == Out::Err, "bad-length-accepted", "{out:?}");
        }
    }
    // the leveled parsers are total too, and agree on the frame
    let _ = packet_frame_len(&c.bytes);
    let _ = parse_type_only(&c.bytes);
    let _ = parse_raw_body(Bytes::copy_from_slice(&c.bytes));
    let _ = parse_headers_only(Bytes::copy_from_slice(&c.bytes), v);
    // and so is the stream parser under every level
    for level in [
        ParseLevel::Full,
        ParseLevel::HeadersParsed,
        ParseLevel::RawBody,
        ParseLevel::TypeOnly,
    ] {
        let mut p = MqttParser::with_level(64, v, level);
        p.feed(&c.bytes);
        p.feed(&c.trailer);
        for _ in 0..200 {
            match p.next_parsed() {
                Ok(Some(_)) => {}
                _ => break,
            }
        }
    }
    let mut p = MqttParser::new(64, 0);
    let _ = p.set_mqtt_vsn(0);
    p.feed(&c.bytes);
    let _ = p.set_mqtt_vsn(0);
    Ok(())
}

// the individual decoders of the public packet types, called directly
fn check_direct(c: &BytesCase, o: &mut Obs) -> Res {
    use flowsdk::mqtt_serde::control_packet::MqttControlPacket;
    use flowsdk::mqtt_serde::mqttv3 as v3;
    use flowsdk::mqtt_serde::mqttv5 as v5;
    if c.bytes.is_empty() {
        return Ok(());
    }
    macro_rules! dec {
        ($($t:ty),*) => { [$(<$t>::from_bytes as fn(&[u8]) -> Result<ParseOk, ParseError>),*] }
    }
    let kind = (c.bytes[0] >> 4) as usize;
    if kind == 0 || (kind == 15 && !c.v5) {
        return Ok(());
    }
    let f5 = dec!(
        v5::connectv5::MqttConnect,
        v5::connackv5::MqttConnAck,
        v5::publishv5::MqttPublish,
        v5::pubackv5::MqttPubAck,
        v5::pubrecv5::MqttPubRec,
        v5::pubrelv5::MqttPubRel,
        v5::pubcompv5::MqttPubComp,
        v5::subscribev5::MqttSubscribe,
        v5::subackv5::MqttSubAck,
        v5::unsubscribev5::MqttUnsubscribe,
        v5::unsubackv5::MqttUnsubAck,
        v5::pingreqv5::MqttPingReq,
        v5::pingrespv5::MqttPingResp,
        v5::disconnectv5::MqttDisconnect,
        v5::authv5::MqttAuth
    );
    let f3 = dec!(
        v3::connectv3::MqttConnect,
        v3::connackv3::MqttConnAck,
        v3::publishv3::MqttPublish,
        v3::pubackv3::MqttPubAck,
        v3::pubrecv3::MqttPubRec,
        v3::pubrelv3::MqttPubRel,
        v3::pubcompv3::MqttPubComp,
        v3::subscribev3::MqttSubscribe,
        v3::subackv3::MqttSubAck,
        v3::unsubscribev3::MqttUnsubscribe,
        v3::unsubackv3::MqttUnsubAck,
        v3::pingreqv3::MqttPingReq,
        v3::pingrespv3::MqttPingResp,
        v3::disconnectv3::MqttDisconnect
    );
    let f = if c.v5 { f5[kind - 1] } else { f3[kind - 1] };
    let mut ext = c.bytes.clone();
    ext.extend_from_slice(&c.trailer);
    let a = f(&c.bytes);
    o.nt_if(c.bytes.len() > 2);
    if let Ok(Some(n)) = frame_len(&c.bytes) {
        for x in [&a, &f(&ext)] {
            match x {
                Ok(ParseOk::Packet(_, used)) => {
                    ensure!(*used == n, "direct-consumed", "consumed {used}, frame {n}")
                }
                Ok(ParseOk::Continue(..)) => {
                    return fail("direct-wants-more", "complete frame wants more")
                }
                _ => {}
            }
        }
        let b = f(&c.bytes[..n]);
        let same = match (&a, &b) {
            (Ok(x), Ok(y)) => x == y,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        ensure!(
            same,
            "direct-depends-on-trailing-bytes",
            "{a:?} versus {b:?} for the frame alone"
        );
        // the dispatcher agrees with the decoder it dispatches to
        let d = M::from_bytes_with_version(&c.bytes[..n], ver(c.v5));
        let same = match (&d, &b) {
            (Ok(x), Ok(y)) => x == y,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        ensure!(same, "dispatch-differs", "{d:?} versus {b:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- stream cutting

#[derive(Debug, Serialize, Deserialize)]
pub struct StreamCase {
    pub v5: bool,
    pub packets: Vec<R>,
    pub longs: Vec<u8>,
    /// chunk sizes; the rest goes in one chunk
    pub cuts: Vec<usize>,
    pub cap: usize,
    pub level: u8,
    /// io errors injected by the reader before these chunk indices
    pub hiccups: Vec<usize>,
}

pub fn gen_cuts(s: &mut Src, total: usize) -> Vec<usize> {
    match s.below(4) {
        0 => {
            // byte by byte (up to a cap)
            vec![1; total.min(600)]
        }
        1 => {
            let k = s.usize(1, 9);
            vec![k; (total / k + 1).min(600)]
        }
        2 => {
            let mut out = vec![];
            let mut left = total;
            while left > 0 && out.len() < 400 {
                let n = s.usize(1, left.min(40));
                out.push(n);
                left -= n;
            }
            out
        }
        _ => {
            let mut out = vec![];
            for _ in 0..s.usize(0, 3) {
                out.push(s.usize(1, total.max(1)));
            }
            out
        }
    }
}

pub fn chunks<'a>(b: &'a [u8], cuts: &[usize]) -> Vec<&'a [u8]> {
    let mut out = vec![];
    let mut i = 0;
    for c in cuts {
        if i >= b.len() {
            break;
        }
        let e = (i + (*c).max(1)).min(b.len());
        out.push(&b[i..e]);
        i = e;
    }
    if i < b.len() {
        out.push(&b[i..]);
    }
    out
}

fn gen_stream(s: &mut Src) -> StreamCase {
    let v5 = s.bool();
    let packets = s.vec(1, 12, 4, |s| {
        if s.chance(1, 12) {
            gen_packet(s, v5)
        } else {
            small_packet(s, v5)
        }
    });
    // AUTH without a reason code is a recorded finding of C02, long form here
    let longs: Vec<u8> = packets
        .iter()
        .map(|p| if p.kind() == 15 { 2 } else { s.below(3) as u8 })
        .collect();
    let total: usize = packets
        .iter()
        .zip(&longs)
        .map(|(p, l)| encode(p, v5, *l).len())
        .sum();
    let cuts = gen_cuts(s, total);
    StreamCase {
        v5,
        packets,
        longs,
        cuts,
        cap: *s.pick(&[0usize, 1, 16, 1024, 16384]),
        level: s.below(4) as u8,
        hiccups: s.vec(0, 4, 1, |s| s.usize(0, 20)),
    }
}

fn stream_bytes(c: &StreamCase) -> (Vec<u8>, Vec<M>, Vec<usize>) {
    let mut b = vec![];
    let mut ends = vec![];
    for (p, l) in c.packets.iter().zip(&c.longs) {
        b.extend(encode(p, c.v5, *l));
        ends.push(b.len());
    }
    let m = c.packets.iter().map(|p| to_flow(p, c.v5)).collect();
    (b, m, ends)
}

fn check_stream(c: &StreamCase, o: &mut Obs) -> Res {
    let (b, want, ends) = stream_bytes(c);
    let ch = chunks(&b, &c.cuts);
    o.nt_if(ch.len() > 1 && c.packets.len() > 1);
    if ch.len() > 50 {
        o.label("chunks>50");
    }
    if c.cuts.first() == Some(&1) {
        o.label("byte-by-byte");
    }
    let mut p = MqttParser::new(c.cap, ver(c.v5));
    let mut got = vec![];
    let mut fed = 0;
    for x in &ch {
        p.feed(x);
        fed += x.len();
        loop {
            match p.next_packet() {
                Ok(Some(m)) => got.push(m),
                Ok(None) => break,
                Err(e) => {
                    return fail(
                        "fragment-error",
                        format!(
                            "after {fed} of {} bytes ({} packets out): {e:?}",
                            b.len(),
                            got.len()
                        ),
                    )
                }
            }
        }
        // a packet is delivered as soon as its last byte is in
        let due = ends.iter().filter(|e| **e <= fed).count();
        ensure!(
            got.len() == due,
            "late-or-early-packet",
            "{} packets after {fed} bytes, {due} are complete",
            got.len()
        );
    }
    ensure!(got == want, "stream-differs", "got {got:?} want {want:?}");
    ensure!(
        p.buffer_mut().is_empty(),
        "left-over",
        "{} bytes left",
        p.buffer_mut().len()
    );
    Ok(())
}

fn check_stream_leveled(c: &StreamCase, o: &mut Obs) -> Res {
    let (b, want, ends) = stream_bytes(c);
    let ch = chunks(&b, &c.cuts);
    o.nt_if(ch.len() > 1 && c.packets.len() > 1);
    let level = ParseLevel::from(c.level);
    let mut p = MqttParser::with_level(c.cap, ver(c.v5), level);
    let mut n = 0;
    let mut fed = 0;
    for x in &ch {
        p.feed(x);
        fed += x.len();
        loop {
            match p.next_parsed() {
                Ok(Some(m)) => {
                    ensure!(n < want.len(), "extra-packet", "{m:?}");
                    ensure!(
                        m.packet_type() == want[n].packet_type(),
                        "leveled-type",
                        "{:?} is not {:?}",
                        m.packet_type(),
                        want[n].packet_type()
                    );
                    if let ParsedPacket::Full(f) = &m {
                        ensure!(*f == want[n], "leveled-full", "{f:?} want {:?}", want[n]);
                    }
                    if let ParsedPacket::RawBody(f) = &m {
                        let start = if n == 0 { 0 } else { ends[n - 1] };
                        let fr = &b[start..ends[n]];
                        let h = 1 + fr[1..].iter().position(|x| x & 0x80 == 0).unwrap() + 1;
                        ensure!(
                            f.remaining[..] == fr[h..] && f.flags == fr[0] & 15,
                            "leveled-raw",
                            "raw body differs"
                        );
                    }
                    n += 1;
                }
                Ok(None) => break,
                Err(e) => {
                    return fail(
                        format!("leveled-fragment-error:{level:?}"),
                        format!("after {fed} bytes ({n} out): {e:?}"),
                    )
                }
            }
        }
        let due = ends.iter().filter(|e| **e <= fed).count();
        ensure!(n == due, "leveled-late-or-early", "{n} out, {due} complete");
    }
    Ok(())
}

struct ChunkReader {
    data: Vec<Vec<u8>>,
    i: usize,
    hiccups: Vec<usize>,
}
impl std::io::Read for ChunkReader {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if let Some(k) = self.hiccups.iter().position(|h| *h == self.i) {
            self.hiccups.remove(k);
            return Err(std::io::Error::from(std::io::ErrorKind::WouldBlock));
        }
        if self.i >= self.data.len() {
            return Ok(0);
        }
        let c = &mut self.data[self.i];
        let n = c.len().min(buf.len());
        buf[..n].copy_from_slice(&c[..n]);
        c.drain(..n);
        if c.is_empty() {
            self.i += 1;
        }
        Ok(n)
    }
}

fn check_reader(c: &StreamCase, o: &mut Obs) -> Res {
    let (b, want, _) = stream_bytes(c);
    let data: Vec<Vec<u8>> = chunks(&b, &c.cuts).iter().map(|x| x.to_vec()).collect();
    o.nt_if(data.len() > 1 && c.packets.len() > 1);
    let hic = c.hiccups.iter().filter(|h| **h < data.len()).count();
    if hic > 0 {
        o.label("io-hiccup");
    }
    let r = ChunkReader {
        data,
        i: 0,
        hiccups: c.hiccups.iter().copied().filter(|h| *h < 10_000).collect(),
    };
    let mut st = MqttStream::new(r, c.cap, ver(c.v5));
    let mut got = vec![];
    let mut ioerr = 0;
    let mut idle = 0;
    for _ in 0..(want.len() + c.hiccups.len() + 4) {
        match st.next() {
            Some(Ok(m)) => got.push(m),
            Some(Err(ParseError::IoError(_))) => ioerr += 1,
            Some(Err(e)) => return fail("reader-error", format!("{e:?} after {} packets", got.len())),
            None => {
                idle += 1;
                if idle > 1 {
                    break;
                }
            }
        }
    }
    ensure!(got == want, "reader-differs", "got {got:?} want {want:?}");
    ensure!(ioerr >= hic, "reader-swallowed-io-error", "{ioerr} < {hic}");
    Ok(())
}

#[derive(Debug, Serialize, Deserialize)]
struct VsnCase {
    v5: bool,
    p: R,
    upto: usize,
}
fn check_vsn(c: &VsnCase, o: &mut Obs) -> Res {
    let b = encode(&c.p, c.v5, 0);
    o.nt();
    let mut p = MqttParser::new(64, 0);
    let n = c.upto.min(b.len());
    let h = 1 + b[1..].iter().position(|x| x & 0x80 == 0).unwrap() + 1;
    for i in 0..n {
        // never panics, never guesses before the version byte is there
        match p.set_mqtt_vsn(0) {
            Ok(v) => {
                ensure!(i > h + 6, "version-early", "{v} after {i} bytes");
                ensure!(v == ver(c.v5), "version-wrong", "{v}");
            }
            Err(_) => ensure!(i <= h + 6, "version-late", "still unknown after {i} bytes"),
        }
        p.feed(&b[i..i + 1]);
    }
    Ok(())
}

// ---------------------------------------------------------------------- leveled

#[derive(Debug, Serialize, Deserialize)]
struct LevelCase {
    b: BytesCase,
}

fn check_levels(c: &BytesCase, o: &mut Obs) -> Res {
    let v = ver(c.v5);
    let Ok(Some(n)) = frame_len(&c.bytes) else {
        // all levels agree that nothing is complete
        let f = packet_frame_len(&c.bytes);
        ensure!(
            !matches!(f, Ok(Some(_))),
            "frame-len-disagrees",
            "{f:?} on an incomplete or bad frame"
        );
        return Ok(());
    };
    let f = packet_frame_len(&c.bytes);
    ensure!(
        matches!(f, Ok(Some(k)) if k == n),
        "frame-len-disagrees",
        "{f:?}, frame is {n}"
    );
    let first = c.bytes[0];
    let frame = &c.bytes[..n];
    let h = 1 + frame[1..].iter().position(|x| x & 0x80 == 0).unwrap() + 1;
    // full parse of the frame
    let full = match M::from_bytes_with_version(frame, v) {
        Ok(ParseOk::Packet(p, _)) => Some(p),
        _ => None,
    };
    match parse_type_only(&c.bytes) {
        Ok(LeveledParseOk::Packet(ParsedPacket::TypeOnly(t), used)) => {
            ensure!(
                used == n && t.packet_type as u8 == first >> 4 && t.flags == first & 15,
                "type-only-differs",
                "{t:?} used {used} frame {n}"
            );
        }
        x => ensure!(full.is_none(), "type-only-rejects", "{x:?}"),
    }
    match parse_raw_body(Bytes::copy_from_slice(&c.bytes)) {
        Ok(LeveledParseOk::Packet(ParsedPacket::RawBody(t), used)) => {
            ensure!(
                used == n
                    && t.packet_type as u8 == first >> 4
                    && t.flags == first & 15
                    && t.remaining[..] == frame[h..],
                "raw-body-differs",
                "{t:?} used {used} frame {n}"
            );
        }
        x => ensure!(full.is_none(), "raw-body-rejects", "{x:?}"),
    }
    let Some(full) = full else {
        o.label("full-rejects");
        return Ok(());
    };
    o.nt();
    o.label(KIND_NAMES[(first >> 4) as usize]);
    let hp = match parse_headers_only(Bytes::copy_from_slice(&c.bytes), v) {
        Ok(LeveledParseOk::Packet(ParsedPacket::HeadersParsed(t), used)) => {
            ensure!(used == n, "headers-consumed", "{used}, frame {n}");
            t
        }
        x => {
            return fail(
                format!("headers-rejects:{}", KIND_NAMES[(first >> 4) as usize]),
                format!("{x:?} but full parse gives {full:?}"),
            )
        }
    };
    ensure!(
        hp.packet_type as u8 == first >> 4 && hp.flags == first & 15,
        "headers-type",
        "{hp:?}"
    );
    use VariableHeader as H;
    let pl = hp.raw_payload.len();
    let tail = |k: usize| hp.raw_payload[..] == frame[n - k..];
    let ok = match (&hp.variable_header, &full) {
        (
            H::ConnectV5 {
                protocol_name,
                protocol_version,
                clean_start,
                keep_alive,
                connect_flags,
                properties,
            },
            M::Connect5(p),
        ) => {
            *protocol_name == p.protocol_name
                && *protocol_version == p.protocol_version
                && *clean_start == p.clean_start
                && *keep_alive == p.keep_alive
                && *properties == p.properties
                && (*connect_flags & 0x80 != 0) == p.username.is_some()
                && (*connect_flags & 0x40 != 0) == p.password.is_some()
                && (*connect_flags & 4 != 0) == p.will.is_some()
                && hp.raw_payload.len() >= 2 + p.client_id.len()
                && hp.raw_payload[2..2 + p.client_id.len()] == *p.client_id.as_bytes()
                && tail(pl)
        }
        (
            H::ConnAckV5 {
                session_present,
                reason_code,
                properties,
            },
            M::ConnAck5(p),
        ) => {
            *session_present == p.session_present
                && *reason_code == p.reason_code
                && *properties == p.properties
                && pl == 0
        }
        (
            H::PublishV5 {
                topic_name,
                qos,
                dup,
                retain,
                packet_id,
                properties,
            },
            M::Publish5(p),
        ) => {
            *topic_name == p.topic_name
                && *qos == p.qos
                && *dup == p.dup
                && *retain == p.retain
                && *packet_id == p.packet_id
                && *properties == p.properties
                && hp.raw_payload[..] == p.payload[..]
        }
        (
            H::PubAckV5 {
                packet_id,
                reason_code,
                properties,
            },
            M::PubAck5(p),
        ) => {
            *packet_id == p.packet_id
                && *reason_code == p.reason_code
                && *properties == p.properties
                && pl == 0
        }
        (
            H::PubRecV5 {
                packet_id,
                reason_code,
                properties,
            },
            M::PubRec5(p),
        ) => {
            *packet_id == p.packet_id
                && *reason_code == p.reason_code
                && *properties == p.properties
                && pl == 0
        }
        (
            H::PubRelV5 {
                packet_id,
                reason_code,
                properties,
            },
            M::PubRel5(p),
        ) => {
            *packet_id == p.packet_id
                && *reason_code == p.reason_code
                && *properties == p.properties
                && pl == 0
        }
        (
            H::PubCompV5 {
                packet_id,
                reason_code,
                properties,
            },
            M::PubComp5(p),
        ) => {
            *packet_id == p.packet_id
                && *reason_code == p.reason_code
                && *properties == p.properties
                && pl == 0
        }
        (
            H::SubscribeV5 {
                packet_id,
                properties,
            },
            M::Subscribe5(p),
        ) => {
            let len: usize = p
                .subscriptions
                .iter()
                .map(|s| s.topic_filter.len() + 3)
                .sum();
            *packet_id == p.packet_id && *properties == p.properties && pl == len && tail(pl)
        }
        (
            H::SubAckV5 {
                packet_id,
                properties,
            },
            M::SubAck5(p),
        ) => {
            *packet_id == p.packet_id
                && *properties == p.properties
                && hp.raw_payload[..] == p.reason_codes[..]
        }
        (
            H::UnsubscribeV5 {
                packet_id,
                properties,
            },
            M::Unsubscribe5(p),
        ) => {
            let len: usize = p.topic_filters.iter().map(|s| s.len() + 2).sum();
            *packet_id == p.packet_id && *properties == p.properties && pl == len && tail(pl)
        }
        (
            H::UnsubAckV5 {
                packet_id,
                properties,
            },
            M::UnsubAck5(p),
        ) => {
            *packet_id == p.packet_id
                && *properties == p.properties
                && hp.raw_payload[..] == p.reason_codes[..]
        }
        (
            H::DisconnectV5 {
                reason_code,
                properties,
            },
            M::Disconnect5(p),
        ) => *reason_code == p.reason_code && *properties == p.properties && pl == 0,
        (
            H::AuthV5 {
                reason_code,
                properties,
            },
            M::Auth(p),
        ) => *reason_code == p.reason_code && *properties == p.properties && pl == 0,
        (
            H::ConnectV3 {
                protocol_name,
                protocol_version,
                clean_session,
                keep_alive,
                connect_flags,
            },
            M::Connect3(p),
        ) => {
            *protocol_name == p.protocol_name
                && *protocol_version == p.protocol_version
                && *clean_session == p.clean_session
                && *keep_alive == p.keep_alive
                && (*connect_flags & 0x80 != 0) == p.username.is_some()
                && (*connect_flags & 0x40 != 0) == p.password.is_some()
                && (*connect_flags & 4 != 0) == p.will.is_some()
                && hp.raw_payload.len() >= 2 + p.client_id.len()
                && hp.raw_payload[2..2 + p.client_id.len()] == *p.client_id.as_bytes()
        }
        (
            H::ConnAckV3 {
                session_present,
                return_code,
            },
            M::ConnAck3(p),
        ) => *session_present == p.session_present && *return_code == p.return_code && pl == 0,
        (
            H::PublishV3 {
                topic_name,
                qos,
                dup,
                retain,
                message_id,
            },
            M::Publish3(p),
        ) => {
            *topic_name == p.topic_name
                && *qos == p.qos
                && *dup == p.dup
                && *retain == p.retain
                && *message_id == p.message_id
                && hp.raw_payload[..] == p.payload[..]
        }
        (H::PacketIdOnlyV3 { message_id }, q) => {
            let (id, len) = match q {
                M::PubAck3(p) => (p.message_id, 0),
                M::PubRec3(p) => (p.message_id, 0),
                M::PubRel3(p) => (p.message_id, 0),
                M::PubComp3(p) => (p.message_id, 0),
                M::UnsubAck3(p) => (p.message_id, 0),
                M::Subscribe3(p) => (
                    p.message_id,
                    p.subscriptions
                        .iter()
                        .map(|s| s.topic_filter.len() + 3)
                        .sum(),
                ),
                M::SubAck3(p) => (p.message_id, p.return_codes.len()),
                M::Unsubscribe3(p) => (
                    p.message_id,
                    p.topic_filters.iter().map(|s| s.len() + 2).sum(),
                ),
                _ => (0, usize::MAX),
            };
            *message_id == id && pl == len && tail(pl)
        }
        (
            H::Empty,
            M::PingReq5(_)
            | M::PingResp5(_)
            | M::PingReq3(_)
            | M::PingResp3(_)
            | M::Disconnect3(_),
        ) => pl == 0,
        _ => false,
    };
    ensure!(
        ok,
        format!("headers-differ:{}", KIND_NAMES[(first >> 4) as usize]),
        "{hp:?} versus {full:?}"
    );
    Ok(())
}

// ---------------------------------------------------------- strict rejection (C06)

#[derive(Debug, Serialize, Deserialize)]
pub struct BadCase {
    pub v5: bool,
    pub class: String,
    pub bytes: Vec<u8>,
}

/// Every class documented in docs/PROTOCOL_COMPLIANCE.md (5.0), and the same
/// MUST-reject rules where the 3.1.1 decoder states them.
const BAD5: &[&str] = &[
    "connect-reserved-flag",
    "connect-will-qos-without-will",
    "connect-will-retain-without-will",
    "connect-will-qos3",
    "connack-reserved-bits",
    "publish-qos3",
    "publish-dup-qos0",
    "publish-wildcard",
    "subscribe-flags",
    "subscribe-pid0",
    "subscribe-empty",
    "subscribe-reserved-bits",
    "subscribe-nolocal-shared",
    "subscribe-bad-filter",
    "subscribe-bad-share",
    "suback-pid0",
    "suback-empty",
    "unsubscribe-flags",
    "unsubscribe-pid0",
    "unsubscribe-empty",
    "unsuback-pid0",
    "unsuback-empty",
    "pubrel-flags",
    "ping-length",
    "ping-flags",
    "disconnect-flags",
    "auth-flags",
    "vbi-nonminimal",
    "vbi-overlong",
    "property-unknown",
    "property-overrun",
    "string-overrun",
    "string-bad-utf8",
    "string-nul",
    "reserved-type",
];
const BAD3: &[&str] = &[
    "connect-reserved-flag",
    "publish-qos3",
    "subscribe-flags",
    "unsubscribe-flags",
    "pubrel-flags",
    "ack-flags",
    "ack-length",
    "ping-length",
    "ping-flags",
    "vbi-nonminimal",
    "vbi-overlong",
    "string-overrun",
    "string-bad-utf8",
    "string-nul",
    "reserved-type",
    "auth-in-v3",
];

fn gen_k(s: &mut Src, v5: bool, k: u8) -> R {
    for _ in 0..6 {
        let p = gen_kind(s, v5, k);
        if encode(&p, v5, 0).len() < 3000 {
            return p;
        }
    }
    gen_kind(&mut Src::replay(vec![], false), v5, k)
}

fn hdr_of(b: &[u8]) -> usize {
    1 + b[1..].iter().position(|x| x & 0x80 == 0).unwrap() + 1
}

fn gen_bad(s: &mut Src) -> BadCase {
    let v5 = s.chance(3, 4);
    let class = *s.pick(if v5 { BAD5 } else { BAD3 });
    BadCase {
        v5,
        class: class.into(),
        bytes: make_bad(s, v5, class),
    }
}

fn bad_flag(s: &mut Src, good: u8) -> u8 {
    let f = s.below(15) as u8;
    if f >= good {
        f + 1
    } else {
        f
    }
}

fn make_bad(s: &mut Src, v5: bool, class: &str) -> Vec<u8> {
    let with_flags = |s: &mut Src, k: u8, good: u8| {
        let p = gen_k(s, v5, k);
        let mut b = encode(&p, v5, 0);
        b[0] = (k << 4) | bad_flag(s, good);
        b
    };
    let connect_flags_at = |b: &[u8]| hdr_of(b) + 7;
    match class {
        "connect-reserved-flag" => {
            let p = gen_k(s, v5, 1);
            let mut b = encode(&p, v5, 0);
            let i = connect_flags_at(&b);
            b[i] |= 1;
            b
        }
        "connect-will-qos-without-will" | "connect-will-retain-without-will" => {
            let mut p = gen_k(s, v5, 1);
            if let R::Connect { will, .. } = &mut p {
                *will = None;
            }
            let mut b = encode(&p, v5, 0);
            let i = connect_flags_at(&b);
            b[i] |= if class.contains("retain") {
                0x20
            } else {
                (s.range(1, 3) as u8) << 3
            };
            b
        }
        "connect-will-qos3" => {
            let mut p = gen_k(s, v5, 1);
            if let R::Connect { will, .. } = &mut p {
                if will.is_none() {
                    *will = Some(RWill {
                        qos: 0,
                        retain: false,
                        topic: "w".into(),
                        payload: vec![1],
                        props: vec![],
                    });
                }
            }
            let mut b = encode(&p, v5, 0);
            let i = connect_flags_at(&b);
            b[i] |= 0x18;
            b
        }
        "connack-reserved-bits" => {
            let p = gen_k(s, v5, 2);
            let mut b = encode(&p, v5, 0);
            let i = hdr_of(&b);
            b[i] |= (s.range(1, 127) as u8) << 1;
            b
        }
        "publish-qos3" => {
            let p = gen_k(s, v5, 3);
            let mut b = encode(&p, v5, 0);
            b[0] |= 6;
            b
        }
        "publish-dup-qos0" => {
            let mut p = gen_k(s, v5, 3);
            if let R::Publish { qos, dup, .. } = &mut p {
                *qos = 0;
                *dup = true;
            }
            encode(&p, v5, 0)
        }
        "publish-wildcard" => {
            let mut p = gen_k(s, v5, 3);
            if let R::Publish { topic, .. } = &mut p {
                let mut t: Vec<char> = gen_string(s, 40).chars().collect();
                let at = s.usize(0, t.len());
                t.insert(at, *s.pick(&['#', '+']));
                *topic = t.into_iter().collect();
            }
            encode(&p, v5, 0)
        }
        "subscribe-flags" => with_flags(s, 8, 2),
        "unsubscribe-flags" => with_flags(s, 10, 2),
        "pubrel-flags" => with_flags(s, 6, 2),
        "disconnect-flags" => with_flags(s, 14, 0),
        "auth-flags" => {
            let p = gen_k(s, v5, 15);
            let mut b = encode(&p, v5, 2);
            b[0] = 0xf0 | bad_flag(s, 0);
            b
        }
        "ping-flags" => {
            let k = s.range(12, 13) as u8;
            with_flags(s, k, 0)
        }
        "ack-flags" => {
            let k = *s.pick(&[4u8, 5, 7, 11]);
            with_flags(s, k, 0)
        }
        "ack-length" => {
            let k = *s.pick(&[4u8, 5, 6, 7, 11]);
            let n = *s.pick(&[0usize, 1, 3, 4, 7]);
            reframe((k << 4) | if k == 6 { 2 } else { 0 }, &vec![1u8; n])
        }
        "subscribe-pid0" | "suback-pid0" | "unsubscribe-pid0" | "unsuback-pid0" => {
            let k = match class {
                "subscribe-pid0" => 8,
                "suback-pid0" => 9,
                "unsubscribe-pid0" => 10,
                _ => 11,
            };
            let p = gen_k(s, v5, k);
            let mut b = encode(&p, v5, 0);
            let h = hdr_of(&b);
            b[h] = 0;
            b[h + 1] = 0;
            b
        }
        "subscribe-empty" | "suback-empty" | "unsubscribe-empty" | "unsuback-empty" => {
            let k = match class {
                "subscribe-empty" => 8,
                "suback-empty" => 9,
                "unsubscribe-empty" => 10,
                _ => 11,
            };
            let mut p = gen_k(s, v5, k);
            match &mut p {
                R::Subscribe { subs, .. } => subs.clear(),
                R::Suback { codes, .. } | R::Unsuback { codes, .. } => codes.clear(),
                R::Unsubscribe { filters, .. } => filters.clear(),
                _ => unreachable!(),
            }
            encode(&p, v5, 0)
        }
        "subscribe-reserved-bits" => {
            let mut p = gen_k(s, v5, 8);
            if let R::Subscribe { subs, .. } = &mut p {
                let i = s.usize(0, subs.len() - 1);
                subs.truncate(i + 1);
            }
            let mut b = encode(&p, v5, 0);
            let i = b.len() - 1;
            b[i] |= *s.pick(&[0x40u8, 0x80, 0xc0]);
            // not only the last subscription may be bad
            if s.bool() {
                let extra = RSub {
                    filter: "ok".into(),
                    qos: 0,
                    nl: false,
                    rap: false,
                    rh: 0,
                };
                let h = hdr_of(&b);
                let mut body = b[h..].to_vec();
                body.extend_from_slice(&[0, 2]);
                body.extend_from_slice(extra.filter.as_bytes());
                body.push(0);
                b = reframe(b[0], &body);
            }
            b
        }
        "subscribe-nolocal-shared" | "subscribe-bad-filter" | "subscribe-bad-share" => {
            let mut p = gen_k(s, v5, 8);
            let bad = match class {
                "subscribe-nolocal-shared" => "$share/g/a".to_string(),
                "subscribe-bad-share" => {
                    s.pick(&["$share//a", "$share/g/", "$share/g", "$share/", "$share/g/a#"])
                        .to_string()
                }
                _ => match s.below(5) {
                    0 => String::new(),
                    1 => format!("{}#", s.pick(&["a", "b/c", "+"])),
                    2 => format!("#/{}", s.pick(&["a", "", "+"])),
                    3 => format!("{}+{}", s.pick(&["a", ""]), s.pick(&["b", "b/c"])),
                    _ => format!("a/+{}/b", s.pick(&["x", "+"])),
                },
            };
            if let R::Subscribe { subs, .. } = &mut p {
                let i = s.usize(0, subs.len());
                subs.insert(
                    i,
                    RSub {
                        filter: bad,
                        qos: s.below(3) as u8,
                        nl: class == "subscribe-nolocal-shared",
                        rap: false,
                        rh: 0,
                    },
                );
            }
            encode(&p, v5, 0)
        }
        "ping-length" => {
            let k = s.range(12, 13) as u8;
            let n = s.usize(1, 4);
            reframe(k << 4, &vec![0u8; n])
        }
        "vbi-nonminimal" => {
            let p = small_packet(s, v5);
            let b = encode(&p, v5, 2);
            let h = hdr_of(&b);
            if h - 1 >= 4 {
                return vec![0xc0, 0x80, 0x00];
            }
            let mut out = vec![b[0]];
            out.extend_from_slice(&b[1..h]);
            let l = out.len() - 1;
            out[l] |= 0x80;
            let pad = s.usize(0, 4 - (h - 1) - 1);
            out.extend(std::iter::repeat_n(0x80, pad));
            out.push(0);
            out.extend_from_slice(&b[h..]);
            out
        }
        "vbi-overlong" => {
            let k = s.range(1, 14) as u8;
            let mut b = vec![k << 4 | if matches!(k, 6 | 8 | 10) { 2 } else { 0 }];
            for _ in 0..4 {
                b.push(0x80 | s.u8());
            }
            b.push(s.u8());
            b.extend(s.bytes(6));
            b
        }
        "property-unknown" | "property-overrun" => {
            let k = *s.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15]);
            // locate the property section by encoding with a marker property
            let mut p = gen_k(s, true, k);
            let marker = Prop {
                id: 0x26,
                v: V::P("MARK".into(), "er".into()),
            };
            match &mut p {
                R::Connect { props, .. }
                | R::Connack { props, .. }
                | R::Publish { props, .. }
                | R::Ack { props, .. }
                | R::Subscribe { props, .. }
                | R::Suback { props, .. }
                | R::Unsubscribe { props, .. }
                | R::Unsuback { props, .. }
                | R::Disconnect { props, .. }
                | R::Auth { props, .. } => {
                    *props = vec![marker];
                }
                _ => {}
            }
            let mut b = encode(&p, true, 2);
            let at = b
                .windows(7)
                .position(|w| w == [0x26, 0, 4, b'M', b'A', b'R', b'K'])
                .unwrap();
            if class == "property-unknown" {
                b[at] = *s.pick(&[0u8, 0x04, 0x07, 0x0a, 0x10, 0x14, 0x1b, 0x1d, 0x20, 0x2b, 0x7f, 0x80, 0xff]);
            } else {
                // inner string reaches past the property section
                let i = if s.bool() { at + 2 } else { at + 8 };
                b[i] = s.range(200, 255) as u8;
            }
            b
        }
        "string-overrun" | "string-bad-utf8" | "string-nul" => {
            // the first length-prefixed string of a packet that starts with one
            let k = *s.pick(&[3u8, 8, 10]);
            let mut p = gen_k(s, v5, k);
            let bad = "QQQQ".to_string();
            match &mut p {
                R::Publish { topic, payload, .. } => {
                    *topic = bad;
                    payload.truncate(20);
                }
                R::Subscribe { subs, .. } => subs[0].filter = bad,
                R::Unsubscribe { filters, .. } => filters[0] = bad,
                _ => {}
            }
            let mut b = encode(&p, v5, 0);
            let at = b
                .windows(6)
                .position(|w| w == [0, 4, b'Q', b'Q', b'Q', b'Q'])
                .unwrap();
            match class {
                "string-overrun" => {
                    let left = b.len() - at - 2;
                    let n = left + s.usize(1, 40);
                    b[at] = (n >> 8) as u8;
                    b[at + 1] = n as u8;
                }
                "string-nul" => {
                    let i = at + 2 + s.usize(0, 3);
                    b[i] = 0;
                }
                _ => {
                    let i = at + 2 + s.usize(0, 3);
                    b[i] = *s.pick(&[0x80u8, 0xbf, 0xc0, 0xc1, 0xf5, 0xff, 0xfe]);
                }
            }
            b
        }
        "auth-in-v3" => reframe(0xf0, &[0, 0]),
        _ => {
            let body = s.bytes(8);
            reframe(s.below(16) as u8, &body)
        }
    }
}

fn check_bad(c: &BadCase, o: &mut Obs) -> Res {
    o.nt();
    let v = ver(c.v5);
    match M::from_bytes_with_version(&c.bytes, v) {
        Err(_) => {}
        x => {
            return fail(
                format!("accepted:{}:v{v}", c.class),
                format!("{x:?} from {:02x?}", &c.bytes[..c.bytes.len().min(80)]),
            )
        }
    }
    // and a parser never yields it, whatever the chunking
    let mut p = MqttParser::new(16, v);
    let mut err = false;
    for b in &c.bytes {
        p.feed(&[*b]);
        match p.next_packet() {
            Ok(None) => {}
            Err(_) => {
                err = true;
                break;
            }
            Ok(Some(m)) => {
                return fail(
                    format!("parser-accepted:{}:v{v}", c.class),
                    format!("{m:?}"),
                )
            }
        }
    }
    ensure!(err, format!("parser-silent:{}:v{v}", c.class), "no error");
    Ok(())
}

// ---------------------------------------------- encoder soundness, any field (C07)

#[derive(Debug, Serialize, Deserialize)]
pub struct WildCase {
    pub v5: bool,
    pub p: R,
}

fn wild_string(s: &mut Src) -> String {
    match s.below(8) {
        0 => "\0".into(),
        1 => format!("a\0{}", gen_string(s, 10)),
        2 => {
            let n = *s.pick(&[65535usize, 65536, 65537, 65535 + 24929, 131072, 70000]);
            "a".repeat(n)
        }
        3 => "é".repeat(32768),
        _ => gen_string(s, 65535),
    }
}
fn wild_data(s: &mut Src) -> Vec<u8> {
    if s.chance(1, 4) {
        let n = *s.pick(&[65535usize, 65536, 65540, 131072]);
        s.blob(n)
    } else {
        gen_data(s, 65535)
    }
}
fn wild_props(s: &mut Src, ps: &mut Props) {
    for p in ps.iter_mut() {
        if s.chance(1, 3) {
            match &mut p.v {
                V::S(x) => *x = wild_string(s),
                V::D(x) => *x = wild_data(s),
                V::P(a, b) => {
                    if s.bool() {
                        *a = wild_string(s)
                    } else {
                        *b = wild_string(s)
                    }
                }
                V::L(x) => {
                    *x = *s.pick(&[268_435_455u32, 268_435_456, u32::MAX, 0x8000_0000]);
                }
                _ => {}
            }
        }
    }
}

fn gen_wild(s: &mut Src) -> WildCase {
    let v5 = s.chance(2, 3);
    let mut p = gen_packet(s, v5);
    match &mut p {
        R::Connect {
            client_id,
            will,
            user,
            pass,
            props,
            ..
        } => {
            if s.chance(1, 4) {
                *client_id = wild_string(s);
            }
            if let Some(w) = will {
                if s.chance(1, 3) {
                    w.topic = wild_string(s);
                }
                if s.chance(1, 3) {
                    w.payload = wild_data(s);
                }
                if s.chance(1, 3) {
                    w.qos = s.below(8) as u8;
                }
                wild_props(s, &mut w.props);
            }
            if user.is_some() && s.chance(1, 4) {
                *user = Some(wild_string(s));
            }
            if pass.is_some() && s.chance(1, 4) {
                *pass = Some(wild_data(s));
            }
            wild_props(s, props);
        }
        R::Publish {
            topic, qos, props, ..
        } => {
            if s.chance(1, 3) {
                *topic = wild_string(s);
            }
            if s.chance(1, 4) {
                *qos = s.below(9) as u8;
            }
            wild_props(s, props);
        }
        R::Subscribe { subs, props, .. } => {
            for x in subs.iter_mut() {
                if s.chance(1, 4) {
                    x.filter = wild_string(s);
                }
                if s.chance(1, 4) {
                    x.qos = s.below(6) as u8;
                }
                if v5 && s.chance(1, 4) {
                    x.rh = s.below(6) as u8;
                }
            }
            wild_props(s, props);
        }
        R::Unsubscribe { filters, props, .. } => {
            for x in filters.iter_mut() {
                if s.chance(1, 3) {
                    *x = wild_string(s);
                }
            }
            wild_props(s, props);
        }
        R::Connack { props, .. }
        | R::Ack { props, .. }
        | R::Suback { props, .. }
        | R::Unsuback { props, .. }
        | R::Disconnect { props, .. }
        | R::Auth { props, .. } => wild_props(s, props),
        _ => {}
    }
    WildCase { v5, p }
}

fn check_wild(c: &WildCase, o: &mut Obs) -> Res {
    let m = to_flow(&c.p, c.v5);
    match m.to_bytes() {
        Err(_) => {
            o.label("refused");
            o.nt();
            Ok(())
        }
        Ok(b) => {
            o.label("encoded");
            o.nt_if(b.len() > 4);
            let got = decode(&b, c.v5);
            let mut got = match got {
                Ok(g) => g,
                Err(e) => {
                    // Values that break a protocol rule without being unrepresentable (id 0, DUP on
                    // QoS 0) may be emitted; the statement is about framing and field integrity.
                    if e.contains("packet id 0") || e.contains("dup with qos 0") || e.contains("wildcard") || e.contains("empty") || (c.v5 && e.contains("will qos 3")) {
                        ensure!(
                            frame_len(&b).ok().flatten() == Some(b.len()),
                            format!("bad-frame:{}", c.p.kind_name()),
                            "{:02x?}",
                            &b[..b.len().min(40)]
                        );
                        o.label("rule-breaking value");
                        return Ok(());
                    }
                    return fail(
                        format!("malformed-output:{}:{}", c.p.kind_name(), reason(&e)),
                        format!("{e}: {:02x?}", &b[..b.len().min(60)]),
                    )
                }
            };
            let mut want = c.p.clone();
            if let R::Publish { qos: 0, pid, .. } = &mut want {
                *pid = 0; // a QoS 0 PUBLISH carries no identifier
            }
            if let R::Connect { will, .. } = &mut want {
                canon_will(will);
            }
            if let R::Connect { will, .. } = &mut got {
                canon_will(will);
            }
            ensure!(
                got == want,
                format!("silently-altered:{}", c.p.kind_name()),
                "wire carries another value: {:.600} instead of {:.600}",
                format!("{got:?}"),
                format!("{want:?}")
            );
            Ok(())
        }
    }
}

/// Payloads around the protocol's maximum Remaining Length (268 435 455).
#[derive(Debug, Serialize, Deserialize)]
pub struct HugeCase {
    v5: bool,
    over: i64,
}
fn gen_huge(s: &mut Src) -> HugeCase {
    HugeCase {
        v5: s.bool(),
        over: s.range(0, 4) as i64 - 2,
    }
}
fn check_huge(c: &HugeCase, o: &mut Obs) -> Res {
    o.nt();
    // topic "t" (3 bytes) plus, in v5, one property-length byte
    let head = if c.v5 { 4 } else { 3 };
    let n = (268_435_455 - head + c.over) as usize;
    let m = to_flow(
        &R::Publish {
            dup: false,
            qos: 0,
            retain: false,
            topic: "t".into(),
            pid: 0,
            props: vec![],
            payload: vec![],
        },
        c.v5,
    );
    let m = match m {
        M::Publish5(mut p) => {
            p.payload = vec![7; n];
            M::Publish5(p)
        }
        M::Publish3(mut p) => {
            p.payload = vec![7; n];
            M::Publish3(p)
        }
        other => other,
    };
    match m.to_bytes() {
        Err(_) => {
            ensure!(c.over > 0, "huge-refused", "{n}-byte payload refused although it fits");
            o.label("refused");
        }
        Ok(b) => {
            ensure!(
                c.over <= 0 && b.len() == 5 + 268_435_455usize - (-c.over) as usize && b[1..5].iter().take(3).all(|x| x & 0x80 != 0) && b[4] == 0x7f,
                "huge-misframed",
                "{n}-byte payload gives {} bytes starting {:02x?}",
                b.len(),
                &b[..6]
            );
            o.label("encoded");
        }
    }
    Ok(())
}

fn reason(e: &str) -> String {
    e.chars()
        .filter(|c| c.is_ascii_alphabetic() || *c == ' ')
        .take(24)
        .collect::<String>()
        .trim()
        .replace(' ', "-")
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        rule: "mutated, truncated, length-lying and random byte strings; non-trivial = a complete frame is present",
        assumptions: &[],
        subs: vec![
            Box::new(Sub { name: "bytes", quick: 150_000, thorough: 4_000_000, threads: 0, gen: gen_bytes, check: check_total }),
            Box::new(Sub { name: "direct", quick: 100_000, thorough: 3_000_000, threads: 0, gen: gen_bytes, check: check_direct }),
        ],
    }
}
pub fn c04() -> Property {
    Property {
        id: "C04",
        rule: "1-12 valid packets of one version concatenated and cut into generated chunks (including byte by byte); non-trivial = more than one packet and more than one chunk",
        assumptions: &[],
        subs: vec![
            Box::new(Sub { name: "parser", quick: 40_000, thorough: 1_000_000, threads: 0, gen: gen_stream, check: check_stream }),
            Box::new(Sub { name: "leveled", quick: 40_000, thorough: 1_000_000, threads: 0, gen: gen_stream, check: check_stream_leveled }),
            Box::new(Sub { name: "reader", quick: 20_000, thorough: 500_000, threads: 0, gen: gen_stream, check: check_reader }),
            Box::new(Sub { name: "version", quick: 4_000, thorough: 60_000, threads: 0,
                gen: |s| { let v5 = s.bool(); VsnCase { v5, p: gen_k(s, v5, 1), upto: s.usize(0, 60) } }, check: check_vsn }),
        ],
    }
}
pub fn c05() -> Property {
    Property {
        id: "C05",
        rule: "valid and mutated frames parsed at all four levels; non-trivial = the full parser accepts the frame",
        assumptions: &[],
        subs: vec![
            Box::new(Sub { name: "levels", quick: 150_000, thorough: 4_000_000, threads: 0, gen: gen_bytes, check: check_levels }),
        ],
    }
}
pub fn c06() -> Property {
    Property {
        id: "C06",
        rule: "one documented violation planted in an otherwise valid generated packet; every case is non-trivial",
        assumptions: &["strict-protocol-compliance feature on (the default)"],
        subs: vec![
            Box::new(Sub { name: "reject", quick: 80_000, thorough: 1_500_000, threads: 0, gen: gen_bad, check: check_bad }),
        ],
    }
}
pub fn c07() -> Property {
    Property {
        id: "C07",
        rule: "packet values with oversize, NUL-bearing or out-of-range fields; non-trivial = refused, or encoded to more than 4 bytes",
        assumptions: &[],
        subs: vec![
            Box::new(Sub { name: "wild", quick: 20_000, thorough: 400_000, threads: 0, gen: gen_wild, check: check_wild }),
            Box::new(Sub { name: "huge", quick: 6, thorough: 24, threads: 2, gen: gen_huge, check: check_huge }),
        ],
    }
}

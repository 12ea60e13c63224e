//! Independent MQTT 3.1.1 / 5.0 wire codec, written from the OASIS text.  It is
//! the oracle for the codec checks and the peer (broker) side of the engine
//! checks; it shares no code with flowsdk.

use crate::core::Src;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum V {
    B(u8),
    H(u16),
    W(u32),
    L(u32), // variable byte integer
    S(String),
    D(Vec<u8>),
    P(String, String),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Prop {
    pub id: u8,
    pub v: V,
}

pub type Props = Vec<Prop>;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct RWill {
    pub qos: u8,
    pub retain: bool,
    pub topic: String,
    pub payload: Vec<u8>,
    pub props: Props,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct RSub {
    pub filter: String,
    pub qos: u8,
    pub nl: bool,
    pub rap: bool,
    pub rh: u8,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum R {
    Connect {
        clean: bool,
        keep_alive: u16,
        client_id: String,
        will: Option<RWill>,
        user: Option<String>,
        pass: Option<Vec<u8>>,
        props: Props,
    },
    Connack {
        sp: bool,
        code: u8,
        props: Props,
    },
    Publish {
        dup: bool,
        qos: u8,
        retain: bool,
        topic: String,
        pid: u16,
        props: Props,
        payload: Vec<u8>,
    },
    /// kind: 4 PUBACK, 5 PUBREC, 6 PUBREL, 7 PUBCOMP
    Ack {
        kind: u8,
        pid: u16,
        code: u8,
        props: Props,
    },
    Subscribe {
        pid: u16,
        props: Props,
        subs: Vec<RSub>,
    },
    Suback {
        pid: u16,
        props: Props,
        codes: Vec<u8>,
    },
    Unsubscribe {
        pid: u16,
        props: Props,
        filters: Vec<String>,
    },
    Unsuback {
        pid: u16,
        props: Props,
        codes: Vec<u8>,
    },
    Pingreq,
    Pingresp,
    Disconnect {
        code: u8,
        props: Props,
    },
    Auth {
        code: u8,
        props: Props,
    },
}

impl R {
    pub fn kind(&self) -> u8 {
        match self {
            R::Connect { .. } => 1,
            R::Connack { .. } => 2,
            R::Publish { .. } => 3,
            R::Ack { kind, .. } => *kind,
            R::Subscribe { .. } => 8,
            R::Suback { .. } => 9,
            R::Unsubscribe { .. } => 10,
            R::Unsuback { .. } => 11,
            R::Pingreq => 12,
            R::Pingresp => 13,
            R::Disconnect { .. } => 14,
            R::Auth { .. } => 15,
        }
    }
    pub fn kind_name(&self) -> &'static str {
        KIND_NAMES[self.kind() as usize]
    }
    pub fn props(&self) -> &[Prop] {
        match self {
            R::Connect { props, .. }
            | R::Connack { props, .. }
            | R::Publish { props, .. }
            | R::Ack { props, .. }
            | R::Subscribe { props, .. }
            | R::Suback { props, .. }
            | R::Unsubscribe { props, .. }
            | R::Unsuback { props, .. }
            | R::Disconnect { props, .. }
            | R::Auth { props, .. } => props,
            _ => &[],
        }
    }
    pub fn ack(kind: u8, pid: u16) -> R {
        R::Ack {
            kind,
            pid,
            code: 0,
            props: vec![],
        }
    }
}

pub const KIND_NAMES: [&str; 16] = [
    "RESERVED", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP",
    "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH",
];

// ------------------------------------------------------------------ property table

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum PT {
    B,
    H,
    W,
    L,
    S,
    D,
    P,
}

/// (id, type, packet kinds in which it may appear; 0 = will properties)
pub const PTABLE: &[(u8, PT, &[u8])] = &[
    (0x01, PT::B, &[3, 0]),
    (0x02, PT::W, &[3, 0]),
    (0x03, PT::S, &[3, 0]),
    (0x08, PT::S, &[3, 0]),
    (0x09, PT::D, &[3, 0]),
    (0x0b, PT::L, &[3, 8]),
    (0x11, PT::W, &[1, 2, 14]),
    (0x12, PT::S, &[2]),
    (0x13, PT::H, &[2]),
    (0x15, PT::S, &[1, 2, 15]),
    (0x16, PT::D, &[1, 2, 15]),
    (0x17, PT::B, &[1]),
    (0x18, PT::W, &[0]),
    (0x19, PT::B, &[1]),
    (0x1a, PT::S, &[2]),
    (0x1c, PT::S, &[2, 14]),
    (0x1f, PT::S, &[2, 4, 5, 6, 7, 9, 11, 14, 15]),
    (0x21, PT::H, &[1, 2]),
    (0x22, PT::H, &[1, 2]),
    (0x23, PT::H, &[3]),
    (0x24, PT::B, &[2]),
    (0x25, PT::B, &[2]),
    (0x26, PT::P, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 0]),
    (0x27, PT::W, &[1, 2]),
    (0x28, PT::B, &[2]),
    (0x29, PT::B, &[2]),
    (0x2a, PT::B, &[2]),
];

pub fn ptype(id: u8) -> Option<PT> {
    PTABLE.iter().find(|p| p.0 == id).map(|p| p.1)
}
pub fn pallowed(id: u8, kind: u8) -> bool {
    PTABLE.iter().any(|p| p.0 == id && p.2.contains(&kind))
}

// ------------------------------------------------------------------------ encode

pub fn vbi(mut n: u32) -> Vec<u8> {
    assert!(n <= 268_435_455);
    let mut out = vec![];
    loop {
        let mut b = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            b |= 0x80;
        }
        out.push(b);
        if n == 0 {
            return out;
        }
    }
}

fn put_d(out: &mut Vec<u8>, d: &[u8]) {
    assert!(d.len() <= 65535);
    out.extend_from_slice(&(d.len() as u16).to_be_bytes());
    out.extend_from_slice(d);
}

pub fn enc_prop(out: &mut Vec<u8>, p: &Prop) {
    out.push(p.id);
    match &p.v {
        V::B(x) => out.push(*x),
        V::H(x) => out.extend_from_slice(&x.to_be_bytes()),
        V::W(x) => out.extend_from_slice(&x.to_be_bytes()),
        V::L(x) => out.extend(vbi(*x)),
        V::S(s) => put_d(out, s.as_bytes()),
        V::D(d) => put_d(out, d),
        V::P(a, b) => {
            put_d(out, a.as_bytes());
            put_d(out, b.as_bytes());
        }
    }
}

fn put_props(out: &mut Vec<u8>, props: &[Prop]) {
    let mut body = vec![];
    for p in props {
        enc_prop(&mut body, p);
    }
    out.extend(vbi(body.len() as u32));
    out.extend(body);
}

/// `long`: use the long legal form where the text allows an omission (reason
/// code 0 / empty property length).  1 = reason written, 2 = reason and length.
pub fn encode(r: &R, v5: bool, long: u8) -> Vec<u8> {
    let mut b = vec![];
    let mut flags = 0u8;
    match r {
        R::Connect {
            clean,
            keep_alive,
            client_id,
            will,
            user,
            pass,
            props,
        } => {
            put_d(&mut b, b"MQTT");
            b.push(if v5 { 5 } else { 4 });
            let mut f = 0u8;
            if *clean {
                f |= 2;
            }
            if let Some(w) = will {
                f |= 4 | (w.qos << 3) | ((w.retain as u8) << 5);
            }
            if pass.is_some() {
                f |= 0x40;
            }
            if user.is_some() {
                f |= 0x80;
            }
            b.push(f);
            b.extend_from_slice(&keep_alive.to_be_bytes());
            if v5 {
                put_props(&mut b, props);
            }
            put_d(&mut b, client_id.as_bytes());
            if let Some(w) = will {
                if v5 {
                    put_props(&mut b, &w.props);
                }
                put_d(&mut b, w.topic.as_bytes());
                put_d(&mut b, &w.payload);
            }
            if let Some(u) = user {
                put_d(&mut b, u.as_bytes());
            }
            if let Some(p) = pass {
                put_d(&mut b, p);
            }
        }
        R::Connack { sp, code, props } => {
            b.push(*sp as u8);
            b.push(*code);
            if v5 {
                put_props(&mut b, props);
            }
        }
        R::Publish {
            dup,
            qos,
            retain,
            topic,
            pid,
            props,
            payload,
        } => {
            flags = ((*dup as u8) << 3) | (qos << 1) | *retain as u8;
            put_d(&mut b, topic.as_bytes());
            if *qos > 0 {
                b.extend_from_slice(&pid.to_be_bytes());
            }
            if v5 {
                put_props(&mut b, props);
            }
            b.extend_from_slice(payload);
        }
        R::Ack {
            kind,
            pid,
            code,
            props,
        } => {
            if *kind == 6 {
                flags = 2;
            }
            b.extend_from_slice(&pid.to_be_bytes());
            if v5 && (*code != 0 || !props.is_empty() || long >= 1) {
                b.push(*code);
                if !props.is_empty() || long >= 2 {
                    put_props(&mut b, props);
                }
            }
        }
        R::Subscribe { pid, props, subs } => {
            flags = 2;
            b.extend_from_slice(&pid.to_be_bytes());
            if v5 {
                put_props(&mut b, props);
            }
            for s in subs {
                put_d(&mut b, s.filter.as_bytes());
                b.push(if v5 {
                    s.qos | ((s.nl as u8) << 2) | ((s.rap as u8) << 3) | (s.rh << 4)
                } else {
                    s.qos
                });
            }
        }
        R::Suback { pid, props, codes } => {
            b.extend_from_slice(&pid.to_be_bytes());
            if v5 {
                put_props(&mut b, props);
            }
            b.extend_from_slice(codes);
        }
        R::Unsubscribe {
            pid,
            props,
            filters,
        } => {
            flags = 2;
            b.extend_from_slice(&pid.to_be_bytes());
            if v5 {
                put_props(&mut b, props);
            }
            for f in filters {
                put_d(&mut b, f.as_bytes());
            }
        }
        R::Unsuback { pid, props, codes } => {
            b.extend_from_slice(&pid.to_be_bytes());
            if v5 {
                put_props(&mut b, props);
                b.extend_from_slice(codes);
            }
        }
        R::Pingreq | R::Pingresp => {}
        R::Disconnect { code, props } | R::Auth { code, props } => {
            if v5 && (*code != 0 || !props.is_empty() || long >= 1) {
                b.push(*code);
                if !props.is_empty() || long >= 2 || r.kind() == 15 {
                    put_props(&mut b, props);
                }
            }
        }
    }
    let mut out = vec![(r.kind() << 4) | flags];
    out.extend(vbi(b.len() as u32));
    out.extend(b);
    out
}

// ------------------------------------------------------------------------ decode

pub struct Rd<'a> {
    b: &'a [u8],
    i: usize,
}
type E<T> = Result<T, String>;
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, i: 0 }
    }
    fn left(&self) -> usize {
        self.b.len() - self.i
    }
    fn u8(&mut self) -> E<u8> {
        let x = *self.b.get(self.i).ok_or("short u8")?;
        self.i += 1;
        Ok(x)
    }
    fn take(&mut self, n: usize) -> E<&'a [u8]> {
        if self.left() < n {
            return Err(format!("short: want {n} have {}", self.left()));
        }
        let s = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(s)
    }
    fn u16(&mut self) -> E<u16> {
        let s = self.take(2)?;
        Ok(u16::from_be_bytes([s[0], s[1]]))
    }
    fn u32(&mut self) -> E<u32> {
        let s = self.take(4)?;
        Ok(u32::from_be_bytes([s[0], s[1], s[2], s[3]]))
    }
    fn data(&mut self) -> E<Vec<u8>> {
        let n = self.u16()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    fn string(&mut self) -> E<String> {
        let s = String::from_utf8(self.data()?).map_err(|e| e.to_string())?;
        if s.contains('\0') {
            return Err("NUL in string".into());
        }
        Ok(s)
    }
    fn vbi(&mut self) -> E<u32> {
        let (mut n, mut mul) = (0u32, 1u32);
        for k in 0..4 {
            let b = self.u8()?;
            n += (b & 0x7f) as u32 * mul;
            if b & 0x80 == 0 {
                if k > 0 && b == 0 {
                    return Err("non-minimal length".into());
                }
                return Ok(n);
            }
            mul = mul.wrapping_mul(128);
        }
        Err("length longer than 4 bytes".into())
    }
    fn props(&mut self, kind: u8) -> E<Props> {
        let n = self.vbi()? as usize;
        let mut r = Rd::new(self.take(n)?);
        let mut out: Props = vec![];
        while r.left() > 0 {
            let id = r.u8()?;
            let t = ptype(id).ok_or(format!("unknown property {id:#x}"))?;
            if !pallowed(id, kind) {
                return Err(format!("property {id:#x} not allowed in kind {kind}"));
            }
            let repeatable = id == 0x26 || (id == 0x0b && kind == 3);
            if !repeatable && out.iter().any(|p| p.id == id) {
                return Err(format!("property {id:#x} twice"));
            }
            let v = match t {
                PT::B => V::B(r.u8()?),
                PT::H => V::H(r.u16()?),
                PT::W => V::W(r.u32()?),
                PT::L => V::L(r.vbi()?),
                PT::S => V::S(r.string()?),
                PT::D => V::D(r.data()?),
                PT::P => V::P(r.string()?, r.string()?),
            };
            out.push(Prop { id, v });
        }
        Ok(out)
    }
}

/// Length of the first complete frame, None if more bytes are needed.
pub fn frame_len(b: &[u8]) -> E<Option<usize>> {
    if b.len() < 2 {
        return Ok(None);
    }
    let (mut n, mut mul) = (0usize, 1usize);
    for k in 0..4 {
        let Some(x) = b.get(1 + k) else {
            return Ok(None);
        };
        n += (x & 0x7f) as usize * mul;
        if x & 0x80 == 0 {
            if k > 0 && *x == 0 {
                return Err("non-minimal length".into());
            }
            let total = 2 + k + n;
            return Ok(if b.len() >= total { Some(total) } else { None });
        }
        mul *= 128;
    }
    Err("length longer than 4 bytes".into())
}

/// Decodes one whole frame (strict).
pub fn decode(frame: &[u8], v5: bool) -> E<R> {
    match frame_len(frame)? {
        Some(n) if n == frame.len() => {}
        other => return Err(format!("not one frame: {other:?} of {}", frame.len())),
    }
    let kind = frame[0] >> 4;
    let flags = frame[0] & 0x0f;
    let mut hdr = 1;
    while frame[hdr] & 0x80 != 0 {
        hdr += 1;
    }
    let mut r = Rd::new(&frame[hdr + 1..]);
    let want = match kind {
        3 => flags,
        6 | 8 | 10 => 2,
        _ => 0,
    };
    if flags != want {
        return Err(format!("flags {flags:#x} for kind {kind}"));
    }
    let p = match kind {
        1 => {
            if r.data()? != b"MQTT" {
                return Err("protocol name".into());
            }
            let ver = r.u8()?;
            if ver != if v5 { 5 } else { 4 } {
                return Err(format!("protocol version {ver}"));
            }
            let f = r.u8()?;
            if f & 1 != 0 {
                return Err("connect flag bit 0".into());
            }
            let keep_alive = r.u16()?;
            let props = if v5 { r.props(1)? } else { vec![] };
            let client_id = r.string()?;
            let will = if f & 4 != 0 {
                let wp = if v5 { r.props(0)? } else { vec![] };
                let qos = (f >> 3) & 3;
                if qos == 3 {
                    return Err("will qos 3".into());
                }
                Some(RWill {
                    qos,
                    retain: f & 0x20 != 0,
                    props: wp,
                    topic: r.string()?,
                    payload: r.data()?,
                })
            } else {
                if f & 0x38 != 0 {
                    return Err("will bits without will flag".into());
                }
                None
            };
            let user = if f & 0x80 != 0 { Some(r.string()?) } else { None };
            let pass = if f & 0x40 != 0 { Some(r.data()?) } else { None };
            if !v5 && pass.is_some() && user.is_none() {
                return Err("password without user name".into());
            }
            R::Connect {
                clean: f & 2 != 0,
                keep_alive,
                client_id,
                will,
                user,
                pass,
                props,
            }
        }
        2 => {
            let f = r.u8()?;
            if f > 1 {
                return Err("connack flags".into());
            }
            let code = r.u8()?;
            let props = if v5 { r.props(2)? } else { vec![] };
            R::Connack {
                sp: f == 1,
                code,
                props,
            }
        }
        3 => {
            let qos = (flags >> 1) & 3;
            if qos == 3 {
                return Err("qos 3".into());
            }
            if qos == 0 && flags & 8 != 0 {
                return Err("dup with qos 0".into());
            }
            let topic = r.string()?;
            let pid = if qos > 0 { r.u16()? } else { 0 };
            if qos > 0 && pid == 0 {
                return Err("packet id 0".into());
            }
            let props = if v5 { r.props(3)? } else { vec![] };
            let payload = r.take(r.left())?.to_vec();
            R::Publish {
                dup: flags & 8 != 0,
                qos,
                retain: flags & 1 != 0,
                topic,
                pid,
                props,
                payload,
            }
        }
        4..=7 => {
            let pid = r.u16()?;
            if pid == 0 {
                return Err("packet id 0".into());
            }
            let code = if v5 && r.left() > 0 { r.u8()? } else { 0 };
            let props = if v5 && r.left() > 0 {
                r.props(kind)?
            } else {
                vec![]
            };
            R::Ack {
                kind,
                pid,
                code,
                props,
            }
        }
        8 => {
            let pid = r.u16()?;
            if pid == 0 {
                return Err("packet id 0".into());
            }
            let props = if v5 { r.props(8)? } else { vec![] };
            let mut subs = vec![];
            while r.left() > 0 {
                let filter = r.string()?;
                let o = r.u8()?;
                let res = if v5 { 0xc0 } else { 0xfc };
                if o & res != 0 || o & 3 == 3 || (v5 && (o >> 4) & 3 == 3) {
                    return Err(format!("subscription options {o:#x}"));
                }
                subs.push(RSub {
                    filter,
                    qos: o & 3,
                    nl: o & 4 != 0,
                    rap: o & 8 != 0,
                    rh: (o >> 4) & 3,
                });
            }
            if subs.is_empty() {
                return Err("no subscriptions".into());
            }
            R::Subscribe { pid, props, subs }
        }
        9 | 11 => {
            let pid = r.u16()?;
            if pid == 0 {
                return Err("packet id 0".into());
            }
            let props = if v5 { r.props(kind)? } else { vec![] };
            if kind == 9 {
                R::Suback {
                    pid,
                    props,
                    codes: r.take(r.left())?.to_vec(),
                }
            } else {
                let n = if v5 { r.left() } else { 0 };
                R::Unsuback {
                    pid,
                    props,
                    codes: r.take(n)?.to_vec(),
                }
            }
        }
        10 => {
            let pid = r.u16()?;
            if pid == 0 {
                return Err("packet id 0".into());
            }
            let props = if v5 { r.props(10)? } else { vec![] };
            let mut filters = vec![];
            while r.left() > 0 {
                filters.push(r.string()?);
            }
            if filters.is_empty() {
                return Err("no filters".into());
            }
            R::Unsubscribe {
                pid,
                props,
                filters,
            }
        }
        12 => R::Pingreq,
        13 => R::Pingresp,
        14 => {
            let code = if v5 && r.left() > 0 { r.u8()? } else { 0 };
            let props = if v5 && r.left() > 0 {
                r.props(14)?
            } else {
                vec![]
            };
            R::Disconnect { code, props }
        }
        15 if v5 => {
            let code = if r.left() > 0 { r.u8()? } else { 0 };
            let props = if r.left() > 0 { r.props(15)? } else { vec![] };
            R::Auth { code, props }
        }
        _ => return Err(format!("reserved kind {kind}")),
    };
    if r.left() != 0 {
        return Err(format!("{} bytes left over", r.left()));
    }
    Ok(p)
}

/// Splits a byte stream into decoded packets; the rest must be empty.
pub fn decode_all(mut b: &[u8], v5: bool) -> E<Vec<R>> {
    let mut out = vec![];
    while !b.is_empty() {
        match frame_len(b)? {
            Some(n) => {
                out.push(decode(&b[..n], v5)?);
                b = &b[n..];
            }
            None => return Err(format!("incomplete trailing frame {:02x?}", &b[..b.len().min(16)])),
        }
    }
    Ok(out)
}

pub fn canon_will(w: &mut Option<RWill>) {
    if let Some(w) = w {
        w.props.sort_by_key(|p| p.id);
    }
}

// --------------------------------------------------------------------- generators

const CHARS: &[&str] = &[
    "a", "b", "/", "0", "Z", " ", "$", "-", "é", "ß", "中", "😀", "\u{7f}", "\u{80}", "\u{fffd}",
    "\u{10ffff}", "\t", "_", "\u{feff}",
];

pub fn gen_len(s: &mut Src, max: usize) -> usize {
    let m = max as u64;
    let n = match s.weighted(&[40, 30, 12, 8, 4, 2]) {
        0 => s.below(4),
        1 => s.below(24),
        2 => s.range(100, 300),
        3 => *s.pick(&[127u64, 128, 129, 255, 256, 257]),
        4 => *s.pick(&[16383u64, 16384, 16380, 32767, 32768]),
        _ => *s.pick(&[65535u64, 65534, 65535, 60000]),
    };
    n.min(m) as usize
}

/// Valid MQTT string (no NUL, no leading BOM).
pub fn gen_string(s: &mut Src, max: usize) -> String {
    let n = gen_len(s, max);
    if n <= 24 {
        let mut out = String::new();
        while out.len() < n {
            let c = if s.chance(1, 3) {
                *s.pick(CHARS)
            } else {
                *s.pick(&["a", "b", "c", "x"])
            };
            if out.len() + c.len() > n || (out.is_empty() && c == "\u{feff}") {
                out.push('k');
            } else {
                out.push_str(c);
            }
        }
        out
    } else {
        let c = *s.pick(&["a", "q", "é"]);
        let mut out = c.repeat(n / c.len());
        while out.len() < n {
            out.push('z');
        }
        out
    }
}

pub fn gen_topic(s: &mut Src) -> String {
    // non-empty, no wildcards
    let t: String = gen_string(s, 65535);
    if t.is_empty() {
        "t".into()
    } else {
        t
    }
}

pub fn gen_filter(s: &mut Src) -> String {
    match s.below(5) {
        0 => {
            let t = gen_topic(s).trim_start_matches(['$', '\u{feff}']).to_string();
            if t.is_empty() {
                "x".into()
            } else {
                t
            }
        }
        1 => {
            let mut lv = s.vec(1, 5, 2, |s| s.pick(&["a", "+", "b", "", "é"]).to_string());
            if s.bool() {
                lv.push("#".into());
            }
            let f = lv.join("/");
            if f.is_empty() {
                "a".into()
            } else {
                f
            }
        }
        2 => "#".into(),
        3 => "a/b".into(),
        _ => "+/x/#".into(),
    }
}

pub fn gen_data(s: &mut Src, max: usize) -> Vec<u8> {
    let n = gen_len(s, max);
    if n <= 24 {
        (0..n).map(|_| s.u8()).collect()
    } else {
        s.blob(n)
    }
}

pub fn gen_prop(s: &mut Src, id: u8) -> Prop {
    let v = match ptype(id).unwrap() {
        PT::B => V::B(s.below(2) as u8),
        PT::H => {
            let x = s.u16();
            V::H(if (id == 0x21 || id == 0x23) && x == 0 { 1 } else { x })
        }
        PT::W => {
            let x = s.u32();
            V::W(if id == 0x27 && x == 0 { 1 } else { x })
        }
        PT::L => V::L(match s.below(3) {
            0 => s.range(1, 300) as u32,
            1 => *s.pick(&[1u32, 127, 128, 16383, 16384, 2097151, 2097152, 268435455]),
            _ => s.range(1, 268435455) as u32,
        }),
        PT::S => V::S(if id == 0x08 {
            gen_topic(s)
        } else {
            gen_string(s, 65535)
        }),
        PT::D => V::D(gen_data(s, 65535)),
        PT::P => V::P(gen_string(s, 65535), gen_string(s, 65535)),
    };
    Prop { id, v }
}

pub fn gen_props(s: &mut Src, kind: u8) -> Props {
    if s.chance(1, 4) {
        return vec![];
    }
    let ids: Vec<u8> = PTABLE
        .iter()
        .filter(|p| p.2.contains(&kind))
        .map(|p| p.0)
        .collect();
    let mut out: Props = vec![];
    let want = s.usize(0, 7);
    for _ in 0..want {
        let id = *s.pick(&ids);
        let rep = id == 0x26 || (id == 0x0b && kind == 3);
        if rep || !out.iter().any(|p| p.id == id) {
            out.push(gen_prop(s, id));
        }
    }
    // authentication data requires a method
    if out.iter().any(|p| p.id == 0x16) && !out.iter().any(|p| p.id == 0x15) {
        out.push(gen_prop(s, 0x15));
    }
    out
}

pub fn gen_pid(s: &mut Src) -> u16 {
    s.u16().max(1)
}

pub const CONNACK5: &[u8] = &[
    0x00, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8c, 0x90, 0x95, 0x97,
    0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9f,
];
pub const PUBACK5: &[u8] = &[0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99];
pub const PUBREL5: &[u8] = &[0x00, 0x92];
pub const SUBACK5: &[u8] = &[
    0x00, 0x01, 0x02, 0x80, 0x83, 0x87, 0x8f, 0x91, 0x97, 0x9e, 0xa1, 0xa2,
];
pub const UNSUBACK5: &[u8] = &[0x00, 0x11, 0x80, 0x83, 0x87, 0x8f, 0x91];
pub const DISCONNECT5: &[u8] = &[
    0x00, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8b, 0x8d, 0x8e, 0x8f, 0x90, 0x93, 0x94, 0x95,
    0x96, 0x97, 0x98, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2,
];

pub fn gen_will(s: &mut Src, v5: bool) -> RWill {
    RWill {
        qos: s.below(3) as u8,
        retain: s.bool(),
        topic: gen_topic(s),
        payload: gen_data(s, 65535),
        props: if v5 { gen_props(s, 0) } else { vec![] },
    }
}

pub fn gen_kind(s: &mut Src, v5: bool, kind: u8) -> R {
    let props = if v5 && !matches!(kind, 12 | 13) {
        gen_props(s, kind)
    } else {
        vec![]
    };
    match kind {
        1 => {
            let user = s.opt(|s| gen_string(s, 65535));
            let pass = if user.is_some() || v5 {
                s.opt(|s| gen_data(s, 65535))
            } else {
                None
            };
            let clean = s.bool();
            let mut client_id = gen_string(s, 65535);
            if !v5 && !clean && client_id.is_empty() {
                client_id = "c".into();
            }
            R::Connect {
                clean,
                keep_alive: s.u16(),
                client_id,
                will: s.opt(|s| gen_will(s, v5)),
                user,
                pass,
                props,
            }
        }
        2 => {
            let code = if v5 {
                *s.pick(CONNACK5)
            } else {
                s.below(6) as u8
            };
            let sp = code == 0 && s.bool();
            R::Connack { sp, code, props }
        }
        3 => {
            let qos = s.below(3) as u8;
            // an empty topic is legal only together with a topic alias
            let topic = if v5 && props.iter().any(|p| p.id == 0x23) && s.bool() {
                String::new()
            } else {
                gen_topic(s)
            };
            let mut payload = gen_data(s, 65535);
            if s.chance(1, 60) {
                let n = *s.pick(&[70_000usize, 2_097_100, 2_097_152, 2_200_000]);
                payload = s.blob(n);
            }
            R::Publish {
                dup: qos > 0 && s.bool(),
                qos,
                retain: s.bool(),
                topic,
                pid: if qos > 0 { gen_pid(s) } else { 0 },
                props,
                payload,
            }
        }
        4..=7 => R::Ack {
            kind,
            pid: gen_pid(s),
            code: if !v5 {
                0
            } else if kind <= 5 {
                *s.pick(PUBACK5)
            } else {
                *s.pick(PUBREL5)
            },
            props,
        },
        8 => R::Subscribe {
            pid: gen_pid(s),
            props,
            subs: s.vec(1, 6, 2, |s| {
                let filter = gen_filter(s);
                RSub {
                    filter,
                    qos: s.below(3) as u8,
                    nl: v5 && s.bool(),
                    rap: v5 && s.bool(),
                    rh: if v5 { s.below(3) as u8 } else { 0 },
                }
            }),
        },
        9 => R::Suback {
            pid: gen_pid(s),
            props,
            codes: s.vec(1, 8, 2, |s| {
                if v5 {
                    *s.pick(SUBACK5)
                } else {
                    *s.pick(&[0u8, 1, 2, 0x80])
                }
            }),
        },
        10 => R::Unsubscribe {
            pid: gen_pid(s),
            props,
            filters: s.vec(1, 6, 2, gen_filter),
        },
        11 => R::Unsuback {
            pid: gen_pid(s),
            props,
            codes: if v5 {
                s.vec(1, 8, 2, |s| *s.pick(UNSUBACK5))
            } else {
                vec![]
            },
        },
        12 => R::Pingreq,
        13 => R::Pingresp,
        14 => R::Disconnect {
            code: if v5 { *s.pick(DISCONNECT5) } else { 0 },
            props,
        },
        _ => R::Auth {
            code: *s.pick(&[0u8, 0x18, 0x19]),
            props: {
                let mut p = props;
                if !p.iter().any(|p| p.id == 0x15) && s.bool() {
                    p.push(gen_prop(s, 0x15));
                }
                p
            },
        },
    }
}

pub fn gen_packet(s: &mut Src, v5: bool) -> R {
    let kind = if s.chance(1, 4) {
        3
    } else {
        s.range(1, if v5 { 15 } else { 14 }) as u8
    };
    gen_kind(s, v5, kind)
}

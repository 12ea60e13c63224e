//! B01: the blocking client, against a scripted broker on the loopback network.
use crate::conv;
use crate::core::{fail, Fail, Obs, Property, Res, Src, Sub};
use crate::ensure;
use crate::refcodec::{self as rc, Prop, RSub, RWill, R, V};
use flowsdk::mqtt_client::{MqttClient, MqttClientOptions};
use flowsdk::mqtt_serde::control_packet::MqttPacket as M;
use flowsdk::mqtt_session::ClientSession;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{mpsc, Arc};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ the broker

pub enum Op {
    Accept,
    /// reads that many packets
    Read(usize),
    Write(Vec<u8>, Vec<u16>),
    /// ends its direction, and reads what is left
    End,
    Drop,
}
#[derive(Default, Debug)]
pub struct Saw {
    pub frames: Vec<Vec<u8>>,
    /// bytes after the last packet read, up to the end of the connection
    pub rest: Vec<u8>,
    pub problem: Option<String>,
}
pub struct Broker {
    pub addr: String,
    tx: Option<mpsc::Sender<Vec<Op>>>,
    rx: mpsc::Receiver<Saw>,
    th: Option<std::thread::JoinHandle<()>>,
    back: Arc<AtomicBool>,
}
const PATIENCE: Duration = Duration::from_secs(5);
fn serve(l: TcpListener, rx: mpsc::Receiver<Vec<Op>>, tx: mpsc::Sender<Saw>, back: Arc<AtomicBool>) {
    // what a call sends is there when it returns; a little later nothing can come any more
    let wait = |t: &mut Option<Instant>, start: Instant| -> bool {
        if back.load(Ordering::SeqCst) && t.is_none() {
            *t = Some(Instant::now());
        }
        start.elapsed() < PATIENCE && t.is_none_or(|t| t.elapsed() < Duration::from_millis(500))
    };
    let mut conn: Option<TcpStream> = None;
    let mut buf: Vec<u8> = vec![];
    // when nothing is asked for that long, the client hangs: ending the connection ends that
    while let Ok(ops) = rx.recv_timeout(PATIENCE) {
        let mut saw = Saw::default();
        let mut run = || -> Result<(), String> {
            for op in ops {
                match op {
                    Op::Accept => {
                        buf.clear();
                        conn = None;
                        l.set_nonblocking(true).unwrap();
                        let (mut t, start) = (None, Instant::now());
                        let c = loop {
                            match l.accept() {
                                Ok((c, _)) => break c,
                                Err(_) if wait(&mut t, start) => std::thread::sleep(Duration::from_micros(50)),
                                Err(e) => return Err(format!("no connection: {e}")),
                            }
                        };
                        c.set_nonblocking(false).unwrap();
                        c.set_read_timeout(Some(Duration::from_millis(100))).unwrap();
                        c.set_write_timeout(Some(PATIENCE)).unwrap();
                        let _ = c.set_nodelay(true);
                        conn = Some(c);
                    }
                    Op::Read(n) => {
                        let c = conn.as_mut().ok_or("not connected")?;
                        for k in 0..n {
                            let (mut t, start) = (None, Instant::now());
                            let len = loop {
                                match rc::frame_len(&buf) {
                                    Ok(Some(n)) => break n,
                                    Ok(None) => {}
                                    Err(e) => return Err(format!("not a packet: {e}: {:02x?}", &buf[..buf.len().min(20)])),
                                }
                                let mut b = [0u8; 65536];
                                match c.read(&mut b) {
                                    Ok(0) => return Err(format!("the connection ends instead of packet {k}, after {:02x?}", &buf[..buf.len().min(20)])),
                                    Ok(n) => buf.extend(&b[..n]),
                                    Err(_) if wait(&mut t, start) => {}
                                    Err(e) => return Err(format!("no packet {k}: {e}, after {:02x?}", &buf[..buf.len().min(20)])),
                                }
                            };
                            saw.frames.push(buf.drain(..len).collect());
                        }
                    }
                    Op::Write(b, cut) => {
                        let c = conn.as_mut().ok_or("not connected")?;
                        let mut at = 0;
                        for n in cut {
                            let e = (at + n as usize).min(b.len());
                            c.write_all(&b[at..e]).map_err(|e| e.to_string())?;
                            at = e;
                        }
                        c.write_all(&b[at..]).map_err(|e| e.to_string())?;
                    }
                    Op::End => {
                        let c = conn.as_mut().ok_or("not connected")?;
                        let _ = c.shutdown(std::net::Shutdown::Write);
                    }
                    Op::Drop => {
                        if let Some(mut c) = conn.take() {
                            saw.rest = std::mem::take(&mut buf);
                            c.set_read_timeout(Some(PATIENCE)).unwrap();
                            let _ = c.read_to_end(&mut saw.rest);
                        }
                    }
                }
            }
            Ok(())
        };
        saw.problem = run().err();
        if saw.problem.is_some() {
            conn = None;
        }
        if tx.send(saw).is_err() {
            break;
        }
    }
}
impl Broker {
    pub fn new() -> Result<Broker, Fail> {
        let l = match TcpListener::bind("127.0.0.1:0") {
            Ok(l) => l,
            Err(e) => return fail("harness", e.to_string()),
        };
        let addr = l.local_addr().unwrap().to_string();
        let (tx, orx) = mpsc::channel();
        let (stx, rx) = mpsc::channel();
        let back = Arc::new(AtomicBool::new(false));
        let (b, th) = (back.clone(), std::thread::spawn(move || serve(l, orx, stx, back)));
        Ok(Broker { addr, tx: Some(tx), rx, th: Some(th), back: b })
    }
    fn go(&self, ops: Vec<Op>) {
        self.back.store(false, Ordering::SeqCst);
        let _ = self.tx.as_ref().unwrap().send(ops);
    }
    fn saw(&self) -> Result<Saw, Fail> {
        self.back.store(true, Ordering::SeqCst);
        match self.rx.recv_timeout(PATIENCE * 3) {
            Ok(s) => Ok(s),
            Err(e) => fail("hang", format!("the call did not return: {e}")),
        }
    }
}
impl Drop for Broker {
    fn drop(&mut self) {
        self.tx = None;
        if let Some(t) = self.th.take() {
            let _ = t.join();
        }
    }
}

// ---------------------------------------------------------------------- cases

#[derive(Debug, Serialize, Deserialize)]
enum Call {
    Connect,
    Sub(String, u8),
    Unsub(Vec<String>),
    UnsubOne(String),
    Pub { topic: String, qos: u8, retain: bool, payload: Vec<u8> },
    Ping,
    Disc(u8),
    SendConnect,
    SendSub(String, u8),
    SendUnsub(Vec<String>),
    SendUnsubOne(String),
    SendPub { topic: String, qos: u8, retain: bool, payload: Vec<u8> },
    SendPing,
    SendDisc,
    Recv,
    Done(u8, u16),
    Pop,
    ClearUnhandled,
    ClearPending,
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Ans {
    Answer,
    /// the answer is another packet (CONNECT) or none: the connection ends
    Close,
    Malformed,
    Wrong,
}
#[derive(Debug, Serialize, Deserialize)]
struct Step {
    call: Call,
    ans: Ans,
    /// at which of the two stages of QoS 2 that happens
    second: bool,
    code: u8,
    code2: u8,
    props: Vec<Prop>,
    /// packets that arrive before each of the answers and after the last
    noise: Vec<R>,
    noise2: Vec<R>,
    tail: Vec<R>,
    cut: Vec<u16>,
}
#[derive(Debug, Serialize, Deserialize)]
struct Case {
    ver: u8,
    clean: bool,
    sessionless: bool,
    keep_alive: u16,
    client_id: String,
    user: Option<String>,
    pass: Option<Vec<u8>>,
    will: Option<RWill>,
    /// packet ids already used in the session that the client is given
    used: Option<u16>,
    nobody: bool,
    steps: Vec<Step>,
}
fn word(s: &mut Src, max: usize) -> String {
    let x = rc::gen_string(s, max);
    if x.is_empty() { "t".into() } else { x }
}
fn topic(s: &mut Src) -> String {
    word(s, 200)
}
fn payload(s: &mut Src) -> Vec<u8> {
    if s.chance(1, 40) {
        let n = s.below(400_000) as usize;
        s.blob(n)
    } else {
        rc::gen_data(s, 20_000)
    }
}
fn props(s: &mut Src, kind: u8) -> Vec<Prop> {
    let mut out = vec![];
    if s.bool() {
        out.push(Prop { id: 0x26, v: V::P(word(s, 40), word(s, 40)) });
    }
    if s.bool() {
        out.push(Prop { id: 0x1f, v: V::S(word(s, 300)) });
    }
    if kind == 2 {
        for _ in 0..s.below(3) {
            let id = *s.pick(&[0x11u8, 0x21, 0x22, 0x27, 0x12, 0x13]);
            let p = rc::gen_prop(s, id);
            if !out.iter().any(|q: &Prop| q.id == p.id) {
                out.push(p);
            }
        }
    }
    out
}
fn small_pid(s: &mut Src) -> u16 {
    if s.chance(1, 8) { rc::gen_pid(s) } else { s.range(1, 12) as u16 }
}
fn noise_one(s: &mut Src, v5: bool) -> R {
    let kind = *s.pick(&[3u8, 3, 3, 4, 5, 6, 7, 9, 11, 13, 3, 14, 15, 2]);
    match kind {
        3 => {
            let qos = s.below(3) as u8;
            R::Publish {
                dup: qos > 0 && s.bool(),
                qos,
                retain: s.bool(),
                topic: topic(s),
                pid: if qos > 0 { rc::gen_pid(s) } else { 0 },
                props: if v5 && s.chance(1, 4) { vec![Prop { id: 0x26, v: V::P(word(s, 40), word(s, 40)) }] } else { vec![] },
                payload: rc::gen_data(s, 3000),
            }
        }
        4..=7 => R::Ack { kind, pid: small_pid(s), code: if !v5 { 0 } else if kind > 5 { *s.pick(&[0, 0x92u8]) } else { *s.pick(&[0, 0x10, 0x80, 0x97u8]) }, props: vec![] },
        9 => R::Suback { pid: small_pid(s), props: vec![], codes: vec![*s.pick(&[0u8, 1, 2, 0x80])] },
        11 => R::Unsuback { pid: small_pid(s), props: vec![], codes: if v5 { vec![*s.pick(&[0u8, 0x11, 0x80])] } else { vec![] } },
        13 => R::Pingresp,
        14 if v5 => R::Disconnect { code: *s.pick(rc::DISCONNECT5), props: vec![] },
        15 if v5 => R::Auth { code: 0x18, props: vec![Prop { id: 0x15, v: V::S(word(s, 20)) }] },
        _ => R::Publish { dup: false, qos: 0, retain: false, topic: topic(s), pid: 0, props: vec![], payload: vec![] },
    }
}
fn gen(s: &mut Src) -> Case {
    let ver = *s.pick(&[5u8, 5, 4, 3]);
    let v5 = ver == 5;
    let user = s.opt(|s| rc::gen_string(s, 300));
    let pass = if user.is_some() || v5 { s.opt(|s| rc::gen_data(s, 300)) } else { None };
    let max = if s.thorough { 24 } else { 10 };
    let mut lost = true;
    let steps = s.vec(1, max, max * 5 / 8, |s| {
        let q = |s: &mut Src| if s.chance(1, 40) { 3 } else { s.below(3) as u8 };
        let filters = |s: &mut Src| if s.chance(1, 40) && v5 { vec![] } else { s.vec(1, 3, 1, rc::gen_filter) };
        let ans = if s.chance(5, 6) { Ans::Answer } else { *s.pick(&[Ans::Close, Ans::Malformed, Ans::Wrong]) };
        let back = std::mem::replace(&mut lost, false) && s.chance(9, 10);
        let call = match if back { 0 } else { s.weighted(&[3, 10, 8, 3, 24, 8, 3, 3, 7, 4, 1, 9, 4, 1, 9, 7, 3, 1, 1]) } {
            0 => Call::Connect,
            1 => Call::Sub(rc::gen_filter(s), s.below(3) as u8),
            2 => Call::Unsub(filters(s)),
            3 => Call::UnsubOne(rc::gen_filter(s)),
            4 => Call::Pub { topic: topic(s), qos: q(s), retain: s.bool(), payload: payload(s) },
            5 => Call::Ping,
            6 => Call::Disc(if v5 { *s.pick(&[0, 4, 0x80]) } else { 0 }),
            7 => Call::SendConnect,
            8 => Call::SendSub(rc::gen_filter(s), s.below(3) as u8),
            9 => Call::SendUnsub(filters(s)),
            10 => Call::SendUnsubOne(rc::gen_filter(s)),
            11 => Call::SendPub { topic: topic(s), qos: q(s), retain: s.bool(), payload: payload(s) },
            12 => Call::SendPing,
            13 => Call::SendDisc,
            14 => Call::Recv,
            15 => Call::Done(s.below(3) as u8, small_pid(s)),
            16 => Call::Pop,
            17 => Call::ClearUnhandled,
            _ => Call::ClearPending,
        };
        let kind = match call {
            Call::Connect => 2,
            _ => 4,
        };
        let code = if s.chance(1, if kind == 2 { 12 } else { 3 }) { s.u8() } else { 0 };
        lost = matches!(call, Call::Disc(_) | Call::SendDisc) || kind == 2 && code != 0 || ans != Ans::Answer;
        Step {
            ans,
            second: s.bool(),
            code,
            code2: if s.chance(1, 4) { s.u8() } else { 0 },
            props: if v5 { props(s, kind) } else { vec![] },
            noise: s.vec(0, 4, 1, |s| noise_one(s, v5)),
            noise2: s.vec(0, 3, 0, |s| noise_one(s, v5)),
            tail: s.vec(0, 2, 0, |s| noise_one(s, v5)),
            cut: s.vec(0, 4, 1, |s| s.below(40) as u16),
            call,
        }
    });
    Case {
        ver,
        clean: s.bool(),
        sessionless: s.chance(1, 5),
        keep_alive: s.u16(),
        client_id: word(s, 300),
        user,
        pass,
        will: s.opt(|s| {
            let mut w = rc::gen_will(s, v5);
            w.topic.truncate(0);
            w.topic.push_str(&word(s, 300));
            w.payload.truncate(1000);
            w.props.retain(|p| matches!(p.v, V::B(_) | V::W(_)));
            w
        }),
        used: s.opt(|s| *s.pick(&[0u16, 5, 65530, 65534, 65535, 300])),
        nobody: s.chance(1, 40),
        steps,
    }
}

// ---------------------------------------------------------------------- model

#[derive(PartialEq, Debug, Clone, Copy)]
enum Conn {
    None,
    Open,
    /// the broker has ended it
    Over,
}
struct Model<'a> {
    c: &'a Case,
    v5: bool,
    conn: Conn,
    session: bool,
    last: u16,
    subs: BTreeMap<u16, String>,
    unsubs: BTreeMap<u16, Vec<String>>,
    pubs: BTreeMap<u16, (String, u8)>,
    /// on its way to the client
    inbox: VecDeque<R>,
    unhandled: Vec<R>,
}
fn same(a: &M, r: &R, v5: bool) -> bool {
    format!("{a:?}") == format!("{:?}", conv::to_flow(r, v5))
}
impl Model<'_> {
    fn bytes(&self, r: &R) -> Vec<u8> {
        rc::encode(r, self.v5, 0)
    }
    fn all(&self, rs: &[R]) -> Vec<u8> {
        rs.iter().flat_map(|r| self.bytes(r)).collect()
    }
    fn next_id(&mut self) -> u16 {
        loop {
            self.last = if self.last == u16::MAX { 1 } else { self.last + 1 };
            let l = self.last;
            if !self.subs.contains_key(&l) && !self.unsubs.contains_key(&l) && !self.pubs.contains_key(&l) {
                return l;
            }
        }
    }
    /// The client reads until it finds one; the others are put aside.
    fn find(&mut self, f: impl Fn(&R) -> bool) -> Option<R> {
        while let Some(r) = self.inbox.pop_front() {
            if f(&r) {
                return Some(r);
            }
            self.unhandled.push(r);
        }
        None
    }
    fn connect(&self) -> R {
        R::Connect {
            clean: self.c.clean || self.c.sessionless,
            keep_alive: self.c.keep_alive,
            client_id: self.c.client_id.clone(),
            will: self.c.will.clone(),
            user: self.c.user.clone(),
            pass: self.c.pass.clone(),
            props: vec![],
        }
    }
}
#[derive(Debug, PartialEq)]
enum Got {
    Err(String),
    Connack { code: u8, sp: bool, props: Vec<Prop> },
    Codes { pid: u16, codes: Vec<u8>, props: Vec<Prop> },
    Publish { pid: Option<u16>, code: Option<u8>, props: Vec<Prop>, qos: u8 },
    Pong(bool),
    Unit,
    Id(Option<u16>),
    Packet(Option<String>),
    Topic(Option<String>),
    Topics(Option<Vec<String>>),
    Pending(Option<(String, u8)>),
}
fn rprops(ps: &[flowsdk::mqtt_serde::mqttv5::common::properties::Property]) -> Vec<Prop> {
    ps.iter().map(conv::rprop).collect()
}
fn perform(cl: &mut MqttClient, call: &Call) -> Got {
    let refs = |f: &'_ [String]| -> Vec<String> { f.to_vec() };
    let e = |e: std::io::Error| Got::Err(format!("{:?}: {e}", e.kind()));
    match call {
        Call::Connect => cl.connected().map(|r| Got::Connack { code: r.reason_code, sp: r.session_present, props: rprops(&r.properties.unwrap_or_default()) }).unwrap_or_else(e),
        Call::Sub(f, q) => cl.subscribed(f, *q).map(|r| Got::Codes { pid: r.packet_id, codes: r.reason_codes, props: rprops(&r.properties) }).unwrap_or_else(e),
        Call::Unsub(f) => {
            let f = refs(f);
            cl.unsubscribed(f.iter().map(|x| x.as_str()).collect()).map(|r| Got::Codes { pid: r.packet_id, codes: r.reason_codes, props: rprops(&r.properties) }).unwrap_or_else(e)
        }
        Call::UnsubOne(f) => cl.unsubscribed_single(f).map(|r| Got::Codes { pid: r.packet_id, codes: r.reason_codes, props: rprops(&r.properties) }).unwrap_or_else(e),
        Call::Pub { topic, qos, retain, payload } => cl
            .published(topic, payload, *qos, *retain)
            .map(|r| Got::Publish { pid: r.packet_id, code: r.reason_code, props: rprops(&r.properties.unwrap_or_default()), qos: r.qos })
            .unwrap_or_else(e),
        Call::Ping => cl.pingd().map(|r| Got::Pong(r.success)).unwrap_or_else(e),
        Call::Disc(c) => cl.disconnected(*c).map(|_| Got::Unit).unwrap_or_else(e),
        Call::SendConnect => cl.connect_send().map(|_| Got::Unit).unwrap_or_else(e),
        Call::SendSub(f, q) => cl.subscribe_send(f, *q).map(|i| Got::Id(Some(i))).unwrap_or_else(e),
        Call::SendUnsub(f) => {
            let f = refs(f);
            cl.unsubscribe_send(f.iter().map(|x| x.as_str()).collect()).map(|i| Got::Id(Some(i))).unwrap_or_else(e)
        }
        Call::SendUnsubOne(f) => cl.unsubscribe_send_single(f).map(|i| Got::Id(Some(i))).unwrap_or_else(e),
        Call::SendPub { topic, qos, retain, payload } => cl.publish_send(topic, payload, *qos, *retain).map(Got::Id).unwrap_or_else(e),
        Call::SendPing => cl.ping_send().map(|_| Got::Unit).unwrap_or_else(e),
        Call::SendDisc => cl.disconnect_send().map(|_| Got::Unit).unwrap_or_else(e),
        Call::Recv => cl.recv_packet().map(|p| Got::Packet(p.map(|p| format!("{p:?}")))).unwrap_or_else(e),
        Call::Done(0, i) => Got::Topic(cl.complete_subscribe(*i)),
        Call::Done(1, i) => Got::Topics(cl.complete_unsubscribe(*i)),
        Call::Done(_, i) => Got::Pending(cl.complete_publish(*i)),
        Call::Pop => Got::Packet(cl.pop_unhandled_packet().map(|p| format!("{p:?}"))),
        Call::ClearUnhandled => {
            cl.clear_unhandled_packets();
            Got::Unit
        }
        Call::ClearPending => {
            cl.clear_pending_operations();
            Got::Unit
        }
    }
}
/// What the call must do: what it sends (one packet per stage), what it returns
/// (None: an error), and whether it may do either (the connection has ended before).
struct Plan {
    ops: Vec<Op>,
    sends: Vec<R>,
    result: Option<Got>,
    free: bool,
    over: bool,
}
fn code5(set: &[u8], c: u8, v5: bool) -> u8 {
    if v5 { set[c as usize % set.len()] } else { 0 }
}
const MALFORMED: [u8; 4] = [0xf0 | 3, 2, 0, 1];

impl Model<'_> {
    fn simple(&mut self, r: R, ok: Got) -> Plan {
        match self.conn {
            Conn::None => Plan { ops: vec![], sends: vec![], result: None, free: false, over: false },
            Conn::Over => Plan { ops: vec![], sends: vec![], result: Some(ok), free: true, over: false },
            Conn::Open => Plan { ops: vec![Op::Read(1)], sends: vec![r], result: Some(ok), free: false, over: false },
        }
    }
    /// a request and the packet that answers it
    fn request(&mut self, st: &Step, req: R, ans: R, is: impl Fn(&R) -> bool) -> (Plan, Option<R>) {
        if self.conn != Conn::Open {
            // what came before the end may still hold an answer
            let over = self.conn == Conn::Over;
            let a = if over { self.find(is) } else { None };
            return (Plan { ops: vec![], sends: vec![], result: None, free: over, over: false }, a);
        }
        let mut ops = vec![Op::Read(1)];
        let mut out = self.all(&st.noise);
        self.inbox.extend(st.noise.iter().cloned());
        let over = self.answer(st, ans, &mut out);
        if !over {
            out.extend(self.all(&st.tail));
            self.inbox.extend(st.tail.iter().cloned());
        }
        ops.push(Op::Write(out, st.cut.clone()));
        if over {
            ops.push(Op::End);
        }
        let a = self.find(is);
        (Plan { ops, sends: vec![req], result: None, free: false, over }, a)
    }
    fn answer(&mut self, st: &Step, ans: R, out: &mut Vec<u8>) -> bool {
        match st.ans {
            Ans::Answer => {
                out.extend(self.bytes(&ans));
                self.inbox.push_back(ans);
                false
            }
            Ans::Close | Ans::Wrong => true,
            Ans::Malformed => {
                out.extend(MALFORMED);
                true
            }
        }
    }
    fn plan(&mut self, st: &Step) -> Plan {
        let v5 = self.v5;
        let nothing = |result| Plan { ops: vec![], sends: vec![], result, free: false, over: false };
        let publish = |pid: u16, topic: &String, qos: u8, retain: bool, payload: &Vec<u8>| R::Publish { dup: false, qos, retain, topic: topic.clone(), pid, props: vec![], payload: payload.clone() };
        let sub = |pid, f: &String, q: u8| R::Subscribe { pid, props: vec![], subs: vec![RSub { filter: f.clone(), qos: q, nl: false, rap: false, rh: 0 }] };
        match &st.call {
            Call::Connect | Call::SendConnect => {
                if self.c.nobody {
                    return nothing(None);
                }
                let blocking = matches!(st.call, Call::Connect);
                if self.c.sessionless {
                    self.last = 0;
                } else if !self.session {
                    self.last = 0;
                }
                self.session = true;
                self.inbox.clear();
                self.conn = Conn::Open;
                let code = if !blocking { 0 } else if v5 { rc::CONNACK5[st.code as usize % rc::CONNACK5.len()] } else { st.code % 6 };
                let sp = code == 0 && st.second && !self.c.clean && !self.c.sessionless;
                let ack = R::Connack { sp, code, props: st.props.clone() };
                let mut out = vec![];
                let mut over = code != 0;
                let mut result = None;
                let mut ops = vec![Op::Accept, Op::Read(1)];
                if !blocking {
                    result = Some(Got::Unit);
                    out = self.all(&st.tail);
                    self.inbox.extend(st.tail.iter().cloned());
                } else {
                    match st.ans {
                        Ans::Answer => {
                            out = self.bytes(&ack);
                            if code == 0 {
                                out.extend(self.all(&st.tail));
                                self.inbox.extend(st.tail.iter().cloned());
                                if !sp {
                                    self.subs.clear();
                                    self.unsubs.clear();
                                    self.pubs.clear();
                                }
                            }
                            result = Some(Got::Connack { code, sp, props: st.props.clone() });
                        }
                        Ans::Wrong if !st.noise.is_empty() => {
                            out = self.bytes(&st.noise[0]);
                            over = true;
                        }
                        Ans::Malformed => {
                            out = MALFORMED.to_vec();
                            over = true;
                        }
                        _ => over = true,
                    }
                }
                ops.push(Op::Write(out, st.cut.clone()));
                if over {
                    ops.push(Op::End);
                }
                Plan { ops, sends: vec![self.connect()], result, free: false, over }
            }
            Call::Sub(..) | Call::Unsub(_) | Call::UnsubOne(_) | Call::Pub { .. } if !self.session => nothing(None),
            Call::SendSub(..) | Call::SendUnsub(_) | Call::SendUnsubOne(_) | Call::SendPub { .. } if !self.session => nothing(None),
            Call::Unsub(f) | Call::SendUnsub(f) if f.is_empty() => {
                self.next_id();
                nothing(None)
            }
            Call::Pub { qos: 3, .. } | Call::SendPub { qos: 3, .. } => {
                self.next_id();
                nothing(None)
            }
            Call::Sub(f, q) => {
                let pid = self.next_id();
                let code = if v5 { code5(rc::SUBACK5, st.code, true) } else { [0u8, 1, 2, 0x80][st.code as usize % 4] };
                let (mut p, a) = self.request(st, sub(pid, f, *q), R::Suback { pid, props: st.props.clone(), codes: vec![code] }, |r| matches!(r, R::Suback { pid: i, .. } if *i == pid));
                if let Some(R::Suback { codes, props, .. }) = a {
                    p.result = Some(Got::Codes { pid, codes, props });
                }
                p
            }
            Call::Unsub(_) | Call::UnsubOne(_) => {
                let pid = self.next_id();
                let filters = match &st.call {
                    Call::Unsub(f) => f.clone(),
                    Call::UnsubOne(f) => vec![f.clone()],
                    _ => unreachable!(),
                };
                let code = code5(rc::UNSUBACK5, st.code, v5);
                let n = filters.len();
                let codes = if v5 { vec![code; n] } else { vec![] };
                let (mut p, a) = self.request(st, R::Unsubscribe { pid, props: vec![], filters }, R::Unsuback { pid, props: st.props.clone(), codes }, |r| matches!(r, R::Unsuback { pid: i, .. } if *i == pid));
                if let Some(R::Unsuback { codes, props, .. }) = a {
                    p.result = Some(Got::Codes { pid, codes: if v5 { codes } else { vec![0; n] }, props });
                }
                p
            }
            Call::Ping => {
                let (mut p, a) = self.request(st, R::Pingreq, R::Pingresp, |r| matches!(r, R::Pingresp));
                if a.is_some() {
                    p.result = Some(Got::Pong(true));
                }
                p
            }
            Call::Pub { topic, qos: 0, retain, payload } => self.simple(publish(0, topic, 0, *retain, payload), Got::Publish { pid: None, code: None, props: vec![], qos: 0 }),
            Call::Pub { topic, qos: 1, retain, payload } => {
                let pid = self.next_id();
                let code = code5(rc::PUBACK5, st.code, v5);
                let (mut p, a) = self.request(st, publish(pid, topic, 1, *retain, payload), R::Ack { kind: 4, pid, code, props: st.props.clone() }, |r| matches!(r, R::Ack { kind: 4, pid: i, .. } if *i == pid));
                if let Some(R::Ack { code, props, .. }) = a {
                    p.result = Some(Got::Publish { pid: Some(pid), code: Some(code), props, qos: 1 });
                }
                p
            }
            Call::Pub { topic, qos, retain, payload } => {
                let pid = self.next_id();
                let code = code5(rc::PUBACK5, st.code, v5);
                let req = publish(pid, topic, *qos, *retain, payload);
                let rec = R::Ack { kind: 5, pid, code, props: if st.second { vec![] } else { st.props.clone() } };
                let first = Step { call: Call::Ping, ans: if st.second && self.conn == Conn::Open { Ans::Answer } else { st.ans }, second: false, code: 0, code2: 0, props: vec![], noise: st.noise.clone(), noise2: vec![], tail: vec![], cut: st.cut.clone() };
                let (mut p, a) = self.request(&first, req, rec, |r| matches!(r, R::Ack { kind: 5, pid: i, .. } if *i == pid));
                let Some(R::Ack { code, props, .. }) = a else { return p };
                if code >= 0x80 {
                    p.result = Some(Got::Publish { pid: Some(pid), code: Some(code), props, qos: 2 });
                    return p;
                }
                let early = p.over || p.free;
                p.sends.push(R::Ack { kind: 6, pid, code: 0, props: vec![] });
                // the packet that the client took for the PUBREC may have been there before
                if !p.free {
                    p.ops.push(Op::Read(1));
                }
                let comp = R::Ack { kind: 7, pid, code: code5(rc::PUBREL5, st.code2, v5), props: st.props.clone() };
                let mut over = p.over;
                if !early {
                    let mut out = self.all(&st.noise2);
                    self.inbox.extend(st.noise2.iter().cloned());
                    over = if st.second { self.answer(st, comp, &mut out) } else { self.answer(&Step { ans: Ans::Answer, ..first }, comp, &mut out) };
                    if !over {
                        out.extend(self.all(&st.tail));
                        self.inbox.extend(st.tail.iter().cloned());
                    }
                    p.ops.push(Op::Write(out, vec![]));
                    if over {
                        p.ops.push(Op::End);
                    }
                }
                p.over = over;
                if let Some(R::Ack { code, props, .. }) = self.find(|r| matches!(r, R::Ack { kind: 7, pid: i, .. } if *i == pid)) {
                    p.result = Some(Got::Publish { pid: Some(pid), code: Some(code), props, qos: 2 });
                }
                p
            }
            Call::Disc(code) => {
                let mut p = self.simple(R::Disconnect { code: *code, props: vec![] }, Got::Unit);
                self.ended(&mut p);
                p
            }
            Call::SendDisc => {
                let mut p = self.simple(R::Disconnect { code: 0, props: vec![] }, Got::Unit);
                self.ended(&mut p);
                p
            }
            Call::SendPing => self.simple(R::Pingreq, Got::Unit),
            Call::SendSub(f, q) => {
                let pid = self.next_id();
                let p = self.simple(sub(pid, f, *q), Got::Id(Some(pid)));
                if self.conn == Conn::Open {
                    self.subs.insert(pid, f.clone());
                }
                p
            }
            Call::SendUnsub(_) | Call::SendUnsubOne(_) => {
                let f = match &st.call {
                    Call::SendUnsub(f) => f.clone(),
                    Call::SendUnsubOne(f) => vec![f.clone()],
                    _ => unreachable!(),
                };
                let pid = self.next_id();
                let p = self.simple(R::Unsubscribe { pid, props: vec![], filters: f.clone() }, Got::Id(Some(pid)));
                if self.conn == Conn::Open {
                    self.unsubs.insert(pid, f);
                }
                p
            }
            Call::SendPub { topic, qos, retain, payload } => {
                let pid = if *qos > 0 { Some(self.next_id()) } else { None };
                let p = self.simple(publish(pid.unwrap_or(0), topic, *qos, *retain, payload), Got::Id(pid));
                if let (Conn::Open, Some(pid)) = (self.conn, pid) {
                    self.pubs.insert(pid, (topic.clone(), *qos));
                }
                p
            }
            Call::Recv => match self.conn {
                Conn::None => nothing(None),
                Conn::Over => {
                    // what is left, or the end
                    let left = self.inbox.pop_front().map(|r| Got::Packet(Some(format!("{:?}", conv::to_flow(&r, v5)))));
                    Plan { ops: vec![], sends: vec![], result: left, free: true, over: false }
                }
                Conn::Open => {
                    let mut out = vec![];
                    let mut over = false;
                    if self.inbox.is_empty() {
                        match st.ans {
                            Ans::Answer if !st.noise.is_empty() => {
                                out = self.all(&st.noise);
                                self.inbox.extend(st.noise.iter().cloned());
                            }
                            Ans::Malformed => {
                                out = MALFORMED.to_vec();
                                over = true;
                            }
                            _ => over = true,
                        }
                    }
                    let mut ops = vec![Op::Write(out, st.cut.clone())];
                    if over {
                        ops.push(Op::End);
                    }
                    let result = match self.inbox.pop_front() {
                        Some(r) => Some(Got::Packet(Some(format!("{:?}", conv::to_flow(&r, v5))))),
                        None if st.ans == Ans::Malformed => None,
                        None => Some(Got::Packet(None)),
                    };
                    Plan { ops, sends: vec![], result, free: false, over }
                }
            },
            Call::Done(0, i) => nothing(Some(Got::Topic(self.subs.remove(i)))),
            Call::Done(1, i) => nothing(Some(Got::Topics(self.unsubs.remove(i)))),
            Call::Done(_, i) => nothing(Some(Got::Pending(self.pubs.remove(i)))),
            Call::Pop => {
                let r = if self.unhandled.is_empty() { None } else { Some(self.unhandled.remove(0)) };
                nothing(Some(Got::Packet(r.map(|r| format!("{:?}", conv::to_flow(&r, v5))))))
            }
            Call::ClearUnhandled => {
                self.unhandled.clear();
                nothing(Some(Got::Unit))
            }
            Call::ClearPending => {
                self.subs.clear();
                self.unsubs.clear();
                self.pubs.clear();
                nothing(Some(Got::Unit))
            }
        }
    }
    /// after its DISCONNECT the client sends nothing more, and ends the connection
    fn ended(&mut self, p: &mut Plan) {
        if self.conn == Conn::Open {
            p.ops.push(Op::Drop);
        }
        if self.conn != Conn::None {
            self.conn = Conn::None;
        }
        self.inbox.clear();
    }
}

fn check(c: &Case, o: &mut Obs) -> Res {
    let b = Broker::new()?;
    let v5 = c.ver == 5;
    let mut opts = MqttClientOptions::builder().peer(if c.nobody { "127.0.0.1:1" } else { b.addr.as_str() }).client_id(c.client_id.as_str()).clean_start(c.clean).keep_alive(c.keep_alive).sessionless(c.sessionless).build();
    opts.mqtt_version = c.ver;
    opts.username = c.user.clone();
    opts.password = c.pass.clone();
    opts.will = c.will.as_ref().map(conv::will5);
    let mut cl = match c.used {
        None => MqttClient::new(opts),
        Some(n) => {
            let mut s = ClientSession::new();
            for _ in 0..n {
                s.next_packet_id();
            }
            MqttClient::new_with_sess(opts, s)
        }
    };
    let mut m = Model { c, v5, conn: Conn::None, session: c.used.is_some(), last: c.used.unwrap_or(0), subs: BTreeMap::new(), unsubs: BTreeMap::new(), pubs: BTreeMap::new(), inbox: VecDeque::new(), unhandled: vec![] };
    for (k, st) in c.steps.iter().enumerate() {
        let was = m.conn;
        let p = m.plan(st);
        let (asked, drops) = (!p.ops.is_empty(), p.ops.iter().any(|x| matches!(x, Op::Drop)));
        if asked {
            b.go(p.ops);
        }
        let got = perform(&mut cl, &st.call);
        let name = format!("{:?}", st.call);
        let name = name.split([' ', '(', '{']).next().unwrap();
        let at = |x: &str| format!("step {k} {name} ({}): {x}", c.ver);
        if p.free {
            // the connection was over before: no other answer can come
            if matches!(st.call, Call::Recv) || p.result.is_some() && !matches!(p.result, Some(Got::Unit | Got::Id(_))) && !matches!(st.call, Call::Pub { qos: 0, .. }) {
                ensure!(p.result.is_none() || Some(&got) == p.result.as_ref(), format!("result:{name}"), "{}", at(&format!("{got:?}, not {:?}", p.result)));
            } else if matches!(st.call, Call::Connect | Call::Sub(..) | Call::Unsub(_) | Call::UnsubOne(_) | Call::Ping | Call::Pub { qos: 1..=2, .. }) {
                ensure!(matches!(got, Got::Err(_)), format!("no-error:{name}"), "{}", at(&format!("the connection is over, and {got:?}")));
            }
            match (&st.call, &got) {
                (Call::SendSub(f, _), Got::Id(Some(i))) => drop(m.subs.insert(*i, f.clone())),
                (Call::SendUnsub(f), Got::Id(Some(i))) => drop(m.unsubs.insert(*i, f.clone())),
                (Call::SendUnsubOne(f), Got::Id(Some(i))) => drop(m.unsubs.insert(*i, vec![f.clone()])),
                (Call::SendPub { topic, qos, .. }, Got::Id(Some(i))) => drop(m.pubs.insert(*i, (topic.clone(), *qos))),
                _ => {}
            }
        } else {
            match &p.result {
                None => ensure!(matches!(got, Got::Err(_)), format!("no-error:{name}"), "{}", at(&format!("must fail, but {got:?}"))),
                Some(Got::Packet(Some(_))) | Some(_) => {
                    let want = p.result.as_ref().unwrap();
                    ensure!(&got == want, format!("result:{name}"), "{}", at(&format!("{got:?}, not {want:?}")));
                }
            }
        }
        if asked {
            let saw = b.saw()?;
            if let Some(x) = &saw.problem {
                return fail(format!("broker:{name}"), at(x));
            }
            for (f, r) in saw.frames.iter().zip(&p.sends) {
                let want = m.bytes(r);
                if f != &want {
                    let same = matches!(rc::decode(f, v5), Ok(x) if canon(&x) == canon(r));
                    ensure!(same, format!("sent:{name}"), "{}", at(&format!("{:02x?} is sent, not {:02x?}", &f[..f.len().min(60)], &want[..want.len().min(60)])));
                }
                o.label(r.kind_name());
            }
            if drops {
                ensure!(saw.rest.is_empty(), format!("sent:{name}"), "{}", at(&format!("{} bytes after the DISCONNECT", saw.rest.len())));
            }
        }
        if p.over {
            m.conn = Conn::Over;
            o.label("connection ended by the broker");
        }
        if was == Conn::None && m.conn == Conn::None && matches!(got, Got::Err(_)) {
            o.label("not connected");
        }
        let un = cl.peek_unhandled_packets();
        ensure!(un.len() == m.unhandled.len() && un.iter().zip(&m.unhandled).all(|(a, b)| same(a, b, v5)), "unhandled", "{}", at(&format!("put aside: {un:?}, not {:?}", m.unhandled)));
        o.add("put aside", un.len() as u64);
        let pend = |x: &HashMap<u16, String>| x.iter().map(|(a, b)| (*a, b.clone())).collect::<BTreeMap<_, _>>();
        ensure!(pend(cl.get_pending_subscribes()) == m.subs, "pending", "{}", at(&format!("{:?}, not {:?}", cl.get_pending_subscribes(), m.subs)));
        ensure!(cl.get_pending_unsubscribes().iter().map(|(a, b)| (*a, b.clone())).collect::<BTreeMap<_, _>>() == m.unsubs, "pending", "{}", at(&format!("{:?}, not {:?}", cl.get_pending_unsubscribes(), m.unsubs)));
        ensure!(cl.get_pending_publishes().iter().map(|(a, b)| (*a, b.clone())).collect::<BTreeMap<_, _>>() == m.pubs, "pending", "{}", at(&format!("{:?}, not {:?}", cl.get_pending_publishes(), m.pubs)));
        o.nt_if(p.sends.len() == 1 && !matches!(st.call, Call::Connect | Call::SendConnect) || p.sends.len() > 1);
    }
    let open = m.conn != Conn::None;
    drop(cl);
    if open {
        b.go(vec![Op::Drop]);
        let saw = b.saw()?;
        ensure!(m.conn == Conn::Over || saw.rest.is_empty(), "sent:end", "at the end the broker has {} bytes more: {:02x?}", saw.rest.len(), &saw.rest[..saw.rest.len().min(40)]);
    }
    Ok(())
}
fn canon(r: &R) -> R {
    let mut r = r.clone();
    if let R::Connect { will, .. } = &mut r {
        rc::canon_will(will);
    }
    r
}

pub fn b01() -> Property {
    Property {
        id: "B01",
        rule: "at least one packet other than CONNECT was sent",
        assumptions: &["The loopback network."],
        subs: vec![Box::new(Sub { name: "blocking", quick: 25_000, thorough: 600_000, threads: 0, gen, check })],
    }
}

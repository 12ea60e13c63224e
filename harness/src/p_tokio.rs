//! T01-T03: the tokio client against a mock broker over loopback TCP, in
//! simulated time (simnet).  The broker speaks the reference codec.
use crate::conv;
use crate::core::*;
use crate::ensure;
use crate::refcodec::{self, RSub, R};
use crate::simnet;
use flowsdk::mqtt_client::client::{ConnectionResult, PingResult, PublishResult, SubscribeResult, UnsubscribeResult};
use flowsdk::mqtt_client::commands::{SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_client::error::MqttClientError;
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk::mqtt_client::tokio_async_client::{TokioAsyncClientConfig, TokioAsyncMqttClient, TokioMqttEventHandler};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::{mpsc, Notify};

// ------------------------------------------------------------------ recording

#[derive(Debug, Clone, PartialEq)]
pub enum HEv {
    Connected(u8, bool),
    Disconnected(Option<u8>),
    Published(Option<u16>, Option<u8>, u8),
    Subscribed(u16, Vec<u8>),
    Unsubscribed(u16, Vec<u8>),
    Msg(String, Vec<u8>, u8),
    Ping(bool),
    Error(String),
    Lost,
    Attempt(u32),
}

#[derive(Debug, Clone, PartialEq)]
pub enum BEv {
    Accept,
    Got(R),
    Junk(String),
    /// Bytes of an incomplete packet when the connection ended.
    Tail(usize),
    Eof,
    Sent(R),
    Fault,
}

#[derive(Default)]
pub struct World {
    pub h: Vec<(u64, HEv)>,
    pub b: Vec<(u64, usize, BEv)>,
    pub results: Vec<(usize, u64, u64, Out)>,
}
pub type W = Arc<Mutex<World>>;

pub struct Handler(pub W);
impl Handler {
    fn put(&self, e: HEv) {
        self.0.lock().unwrap().h.push((simnet::now(), e));
    }
}
#[async_trait::async_trait]
impl TokioMqttEventHandler for Handler {
    async fn on_connected(&mut self, r: &ConnectionResult) {
        self.put(HEv::Connected(r.reason_code, r.session_present));
    }
    async fn on_disconnected(&mut self, r: Option<u8>) {
        self.put(HEv::Disconnected(r));
    }
    async fn on_published(&mut self, r: &PublishResult) {
        self.put(HEv::Published(r.packet_id, r.reason_code, r.qos));
    }
    async fn on_subscribed(&mut self, r: &SubscribeResult) {
        self.put(HEv::Subscribed(r.packet_id, r.reason_codes.clone()));
    }
    async fn on_unsubscribed(&mut self, r: &UnsubscribeResult) {
        self.put(HEv::Unsubscribed(r.packet_id, r.reason_codes.clone()));
    }
    async fn on_message_received(&mut self, p: &flowsdk::mqtt_client::engine::MqttMessage) {
        self.put(HEv::Msg(p.topic_name.clone(), p.payload.clone(), p.qos));
    }
    async fn on_ping_response(&mut self, r: &PingResult) {
        self.put(HEv::Ping(r.success));
    }
    async fn on_error(&mut self, e: &MqttClientError) {
        self.put(HEv::Error(format!("{e:?}")));
    }
    async fn on_connection_lost(&mut self) {
        self.put(HEv::Lost);
    }
    async fn on_reconnect_attempt(&mut self, n: u32) {
        self.put(HEv::Attempt(n));
    }
}

// --------------------------------------------------------------------- broker

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Reply {
    /// None: never answered.
    pub delay: Option<u32>,
    pub code: u8,
    /// QoS 2: PUBCOMP after this (None: never).
    pub delay2: Option<u32>,
    pub codes: Vec<u8>,
}
impl Reply {
    pub fn at(ms: u32) -> Self {
        Reply { delay: Some(ms), code: 0, delay2: Some(ms), codes: vec![] }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    Fin,
    Rst,
    /// A truncated PUBLISH, then FIN.
    Partial(u32),
    /// v5 DISCONNECT with this code, then FIN.
    Disconnect(u8),
    /// Reads on but answers nothing any more.
    Silent,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ConnPlan {
    /// (delay, code, session present); None: never answered
    pub connack: Option<(u32, u8, bool)>,
    pub fault: Option<(u32, Fault)>,
    /// the broker refuses connections this long after the fault
    pub down: u32,
    pub push: Vec<(u32, u8, Vec<u8>)>,
}

pub struct Plan {
    pub v5: bool,
    pub conns: Vec<ConnPlan>,
    /// by topic (PUBLISH) or first filter (SUBSCRIBE, UNSUBSCRIBE)
    pub replies: HashMap<String, Reply>,
    /// by order of arrival
    pub pings: Vec<Reply>,
    pub frag: Vec<u16>,
    pub initial_down: u32,
}

struct Broker {
    plan: Plan,
    w: W,
    pings: Mutex<usize>,
    down: Notify,
    down_ms: Mutex<u32>,
}

fn put(w: &W, conn: usize, e: BEv) {
    w.lock().unwrap().b.push((simnet::now(), conn, e));
}

pub enum Cmd {
    Send(R),
    Fault(Fault),
}

async fn accept_loop(b: Arc<Broker>, addr: SocketAddr) {
    let mut n = 0;
    if b.plan.initial_down > 0 {
        tokio::time::sleep(Duration::from_millis(b.plan.initial_down as u64)).await;
    }
    loop {
        let l = match TcpListener::bind(addr).await {
            Ok(l) => l,
            Err(_) => {
                tokio::time::sleep(Duration::from_millis(5)).await;
                continue;
            }
        };
        loop {
            tokio::select! {
                c = l.accept() => if let Ok((s, _)) = c {
                    let _ = s.set_nodelay(true);
                    put(&b.w, n, BEv::Accept);
                    tokio::spawn(serve(b.clone(), s, n));
                    n += 1;
                },
                _ = b.down.notified() => break,
            }
        }
        drop(l);
        let ms = *b.down_ms.lock().unwrap();
        tokio::time::sleep(Duration::from_millis(ms as u64)).await;
    }
}

fn later(tx: &mpsc::UnboundedSender<Cmd>, ms: u32, c: Cmd) {
    if ms == 0 {
        let _ = tx.send(c);
        return;
    }
    let tx = tx.clone();
    tokio::spawn(async move {
        tokio::time::sleep(Duration::from_millis(ms as u64)).await;
        let _ = tx.send(c);
    });
}

async fn serve(b: Arc<Broker>, mut s: TcpStream, conn: usize) {
    let v5 = b.plan.v5;
    let healthy = ConnPlan { connack: Some((0, 0, conn > 0), ), fault: None, down: 0, push: vec![] };
    let plan = b.plan.conns.get(conn).cloned().unwrap_or(healthy);
    let (tx, mut rx) = mpsc::unbounded_channel::<Cmd>();
    let mut buf = vec![];
    let mut tmp = vec![0u8; 65536];
    let mut silent = false;
    let mut seen: HashMap<(u8, u16), ()> = HashMap::new();
    let mut comp: HashMap<u16, Option<u32>> = HashMap::new();
    let mut fi = conn;
    loop {
        tokio::select! {
            n = s.read(&mut tmp) => {
                match n {
                    Ok(0) | Err(_) => {
                        if !buf.is_empty() {
                            put(&b.w, conn, BEv::Tail(buf.len()));
                        }
                        put(&b.w, conn, BEv::Eof);
                        return;
                    }
                    Ok(n) => buf.extend_from_slice(&tmp[..n]),
                }
                loop {
                    let len = match refcodec::frame_len(&buf) {
                        Ok(Some(l)) if l <= buf.len() => l,
                        Ok(_) => break,
                        Err(e) => {
                            put(&b.w, conn, BEv::Junk(format!("{e:?}")));
                            buf.clear();
                            break;
                        }
                    };
                    let frame: Vec<u8> = buf.drain(..len).collect();
                    let r = match refcodec::decode(&frame, v5) {
                        Ok(r) => r,
                        Err(e) => {
                            put(&b.w, conn, BEv::Junk(format!("{e:?} in {frame:02x?}")));
                            continue;
                        }
                    };
                    put(&b.w, conn, BEv::Got(r.clone()));
                    if silent {
                        continue;
                    }
                    match r {
                        R::Connect { .. } => {
                            if let Some((d, code, sp)) = plan.connack {
                                later(&tx, d, Cmd::Send(R::Connack { sp: sp && code == 0, code, props: vec![] }));
                                for (i, (at, qos, payload)) in plan.push.iter().enumerate().filter(|_| code == 0) {
                                    later(&tx, d + at, Cmd::Send(R::Publish {
                                        dup: false, qos: *qos, retain: false, topic: format!("push/{conn}/{i}"),
                                        pid: if *qos > 0 { i as u16 + 1 } else { 0 }, props: vec![], payload: payload.clone(),
                                    }));
                                }
                                if let Some((at, f)) = &plan.fault {
                                    later(&tx, d + at, Cmd::Fault(f.clone()));
                                }
                            } else if let Some((at, f)) = &plan.fault {
                                later(&tx, *at, Cmd::Fault(f.clone()));
                            }
                        }
                        R::Publish { qos, pid, topic, .. } if qos > 0 => {
                            if seen.insert((3, pid), ()).is_none() {
                                if let Some(p) = b.plan.replies.get(&topic) {
                                    comp.insert(pid, p.delay2);
                                    if let Some(d) = p.delay {
                                        later(&tx, d, Cmd::Send(R::Ack { kind: if qos == 1 { 4 } else { 5 }, pid, code: p.code, props: vec![] }));
                                    }
                                }
                            }
                        }
                        R::Ack { kind: 5, pid, code, .. } if code < 0x80 => {
                            let _ = tx.send(Cmd::Send(R::ack(6, pid)));
                        }
                        R::Ack { kind: 6, pid, .. } => {
                            if seen.insert((6, pid), ()).is_none() {
                                // an exchange begun on an earlier connection completes at once
                                if let Some(d) = comp.get(&pid).copied().unwrap_or(Some(0)) {
                                    later(&tx, d, Cmd::Send(R::ack(7, pid)));
                                }
                            }
                        }
                        // (a client of 3.1.1 may repeat an unanswered request)
                        R::Subscribe { pid, subs, .. } if seen.insert((8, pid), ()).is_none() => {
                            if let Some(p) = b.plan.replies.get(&subs[0].filter) {
                                if let Some(d) = p.delay {
                                    later(&tx, d, Cmd::Send(R::Suback { pid, props: vec![], codes: p.codes.clone() }));
                                }
                            }
                        }
                        R::Unsubscribe { pid, filters, .. } if seen.insert((10, pid), ()).is_none() => {
                            if let Some(p) = b.plan.replies.get(&filters[0]) {
                                if let Some(d) = p.delay {
                                    later(&tx, d, Cmd::Send(R::Unsuback { pid, props: vec![], codes: if v5 { p.codes.clone() } else { vec![] } }));
                                }
                            }
                        }
                        R::Pingreq => {
                            let i = {
                                let mut p = b.pings.lock().unwrap();
                                *p += 1;
                                *p - 1
                            };
                            let d = b.plan.pings.get(i).map(|r| r.delay).unwrap_or(Some(0));
                            if let Some(d) = d {
                                later(&tx, d, Cmd::Send(R::Pingresp));
                            }
                        }
                        _ => {}
                    }
                }
            }
            c = rx.recv() => {
                let mut out = vec![];
                let mut fault = None;
                let mut cur = c;
                while let Some(c) = cur {
                    match c {
                        Cmd::Send(r) => if !silent {
                            out.extend(refcodec::encode(&r, v5, 0));
                            put(&b.w, conn, BEv::Sent(r));
                        },
                        Cmd::Fault(f) => {
                            fault = Some(f);
                            break;
                        }
                    }
                    cur = rx.try_recv().ok();
                }
                // in up to three pieces
                let mut pos = 0;
                for k in 0..2 {
                    if b.plan.frag.is_empty() || out.len() - pos < 2 {
                        break;
                    }
                    let f = b.plan.frag[fi % b.plan.frag.len()] as usize;
                    fi += 1;
                    let n = (f % out.len()).min(out.len() - pos - 1);
                    if n == 0 {
                        break;
                    }
                    if s.write_all(&out[pos..pos + n]).await.is_err() {
                        break;
                    }
                    pos += n;
                    let _ = k;
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
                if s.write_all(&out[pos..]).await.is_err() {
                    put(&b.w, conn, BEv::Eof);
                    return;
                }
                if let Some(f) = fault {
                    if let Fault::Partial(n) = f {
                        let p = refcodec::encode(&R::Publish { dup: false, qos: 0, retain: false, topic: "partial".into(), pid: 0, props: vec![], payload: vec![7; 200] }, v5, 0);
                        let n = (n as usize).clamp(1, p.len() - 1);
                        let _ = s.write_all(&p[..n]).await;
                        tokio::time::sleep(Duration::from_millis(2)).await;
                    }
                    if let Fault::Disconnect(code) = f {
                        let p = if v5 { refcodec::encode(&R::Disconnect { code, props: vec![] }, true, 0) } else { vec![] };
                        let _ = s.write_all(&p).await;
                    }
                    put(&b.w, conn, BEv::Fault);
                    if plan.down > 0 {
                        *b.down_ms.lock().unwrap() = plan.down;
                        b.down.notify_one();
                    }
                    match f {
                        Fault::Silent => silent = true,
                        Fault::Rst => {
                            #[allow(deprecated)]
                            let _ = s.set_linger(Some(Duration::ZERO));
                            return;
                        }
                        _ => return,
                    }
                }
            }
        }
    }
}

pub async fn start_broker(plan: Plan, w: &W) -> SocketAddr {
    let addr = SocketAddr::from((simnet::fresh_ip(), 1883));
    let b = Arc::new(Broker { plan, w: w.clone(), pings: Mutex::new(0), down: Notify::new(), down_ms: Mutex::new(0) });
    tokio::spawn(accept_loop(b, addr));
    tokio::task::yield_now().await;
    addr
}

// --------------------------------------------------------- operations (T01)

#[derive(Debug, Clone, PartialEq)]
pub enum Out {
    Pub(Option<u16>, Option<u8>, u8),
    Sub(u16, Vec<u8>),
    Unsub(u16, Vec<u8>),
    Ping(bool),
    Conn(u8, bool),
    Timeout(String, u64),
    Err(String),
}
pub fn of_err(e: MqttClientError) -> Out {
    match e {
        MqttClientError::OperationTimeout { operation, timeout_ms } => Out::Timeout(operation, timeout_ms),
        e => Out::Err(format!("{e:?}")),
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum OpK {
    Pub { qos: u8, retain: bool, len: u32, prio: Option<u8> },
    Sub { n: u8, qos: u8 },
    Unsub { n: u8 },
    Ping,
    Connect,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Op {
    pub gap: u32,
    pub k: OpK,
    pub sync: bool,
    /// per-call time-out of the `_with_timeout` variants
    pub timeout: Option<u32>,
    pub reply: Reply,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct OpsCase {
    pub v5: bool,
    pub max_events: u16,
    pub retrans: u32,
    /// connect, subscribe, publish, unsubscribe, ping
    pub timeouts: [Option<u32>; 5],
    pub frag: Vec<u16>,
    pub ops: Vec<Op>,
    pub push: Vec<(u32, u8, Vec<u8>)>,
    pub connack: (u32, u8, bool),
    pub parser: u16,
    /// delays and time-outs are in multiples of this many milliseconds
    #[serde(default = "one")]
    pub scale: u32,
}
fn one() -> u32 {
    1
}

fn gen_timeout(s: &mut Src) -> u32 {
    // never close to a reply delay (those are 30k + 15)
    30 * s.range(1, 40) as u32
}
fn gen_delay(s: &mut Src) -> u32 {
    if s.chance(1, 4) { 0 } else { 30 * s.range(0, 40) as u32 + 15 }
}
fn gen_reply(s: &mut Src, v5: bool, k: &OpK) -> Reply {
    let delay = if s.chance(1, 5) { None } else { Some(gen_delay(s)) };
    let mut r = Reply { delay, code: 0, delay2: Some(0), codes: vec![] };
    match k {
        OpK::Pub { qos, .. } => {
            if v5 && s.chance(1, 3) {
                r.code = *s.pick(&[0x10u8, 0x80, 0x83, 0x87, 0x90, 0x97]);
            }
            if *qos == 2 {
                r.delay2 = if s.chance(1, 6) { None } else { Some(if s.bool() { 0 } else { 30 * s.range(1, 20) as u32 }) };
                if r.delay == Some(0) && r.delay2.is_some_and(|d| d > 0) {
                    r.delay = Some(15);
                }
            }
        }
        OpK::Sub { n, .. } => {
            for _ in 0..*n {
                r.codes.push(*s.pick(if v5 { &[0u8, 1, 2, 0x80, 0x87, 0x9e] } else { &[0u8, 1, 2, 0x80] }));
            }
        }
        OpK::Unsub { n } => {
            for _ in 0..*n {
                r.codes.push(if v5 { *s.pick(&[0u8, 0x11, 0x80, 0x87]) } else { 0 });
            }
        }
        _ => {}
    }
    r
}
fn gen_op(s: &mut Src, v5: bool) -> Op {
    let k = match s.weighted(&[6, 3, 2, 2]) {
        0 => OpK::Pub { qos: s.below(3) as u8, retain: s.bool(), len: match s.below(96) { 0 if s.chance(1, 20) => s.range(4_000_000, 9_000_000) as u32, 0 => s.range(30_000, 300_000) as u32, 1..=8 => s.range(3000, 30000) as u32, _ => s.below(40) as u32 }, prio: s.opt(|s| s.u8()) },
        1 => OpK::Sub { n: s.range(1, 4) as u8, qos: s.below(3) as u8 },
        2 => OpK::Unsub { n: s.range(1, 4) as u8 },
        _ => OpK::Ping,
    };
    let reply = gen_reply(s, v5, &k);
    let sync = s.chance(2, 3);
    Op {
        gap: if s.chance(2, 3) { 0 } else { 60 * s.below(6) as u32 },
        timeout: if sync && s.chance(1, 4) { Some(gen_timeout(s)) } else { None },
        reply,
        sync,
        k,
    }
}
fn gen_push(s: &mut Src, n: usize) -> Vec<(u32, u8, Vec<u8>)> {
    let mut v = s.vec(0, n, n / 3, |s| (s.range(0, 30) as u32 * 10, s.below(3) as u8, s.bytes(60)));
    v.sort_by_key(|x| x.0);
    v
}
fn gen(s: &mut Src) -> OpsCase {
    let v5 = s.bool();
    let n = if s.thorough { 40 } else { 20 };
    OpsCase {
        v5,
        max_events: *s.pick(&[1000, 1000, 1, 2, 5]),
        retrans: *s.pick(&[5000, 200, 60_000]),
        timeouts: [Some(3000), s.opt(gen_timeout), s.opt(gen_timeout), s.opt(gen_timeout), s.opt(gen_timeout)],
        frag: s.vec(0, 5, 2, |s| s.u16()),
        ops: s.vec(1, n, n / 2, |s| gen_op(s, v5)),
        push: gen_push(s, 12),
        connack: (30 * s.below(4) as u32, 0, s.bool()),
        parser: *s.pick(&[16384, 64, 1500]),
        scale: 1,
    }
    .scaled(if s.chance(1, 5) { *s.pick(&[7, 60, 1000]) } else { 1 })
}
impl OpsCase {
    fn scaled(mut self, k: u32) -> Self {
        self.scale = k;
        self.retrans = self.retrans.saturating_mul(k);
        for t in self.timeouts.iter_mut().flatten() {
            *t *= k;
        }
        for op in &mut self.ops {
            for t in [&mut op.timeout, &mut op.reply.delay, &mut op.reply.delay2].into_iter().flatten() {
                *t *= k;
            }
        }
        self
    }
}

fn topic(i: usize) -> String {
    format!("op/{i}")
}
fn payload(i: usize, len: u32) -> Vec<u8> {
    let mut p = format!("<{i}>").into_bytes();
    p.resize(p.len() + len as usize, i as u8);
    p
}

pub fn run_op(c: &Arc<TokioAsyncMqttClient>, w: &W, i: usize, op: &Op) -> tokio::task::JoinHandle<()> {
    let (c, w, op) = (c.clone(), w.clone(), op.clone());
    tokio::spawn(async move {
        let s = simnet::now();
        let t = topic(i);
        let filters: Vec<String> = match op.k {
            OpK::Sub { n, .. } | OpK::Unsub { n } => (0..n).map(|j| if j == 0 { t.clone() } else { format!("{t}/{j}") }).collect(),
            _ => vec![],
        };
        let out = match (&op.k, op.sync) {
            (OpK::Pub { qos, retain, len, prio }, true) => {
                let p = payload(i, *len);
                let r = match (op.timeout, prio) {
                    (Some(ms), _) => c.publish_sync_with_timeout(&t, &p, *qos, *retain, ms as u64).await,
                    (None, Some(pr)) => c.publish_sync_with_priority(&t, &p, *qos, *retain, *pr).await,
                    (None, None) => c.publish_sync(&t, &p, *qos, *retain).await,
                };
                Some(r.map(|r| Out::Pub(r.packet_id, r.reason_code, r.qos)).unwrap_or_else(of_err))
            }
            (OpK::Pub { qos, retain, len, prio }, false) => {
                let p = payload(i, *len);
                match prio {
                    Some(pr) => c.publish_with_priority(&t, &p, *qos, *retain, *pr).await,
                    None => c.publish(&t, &p, *qos, *retain).await,
                }
                .unwrap();
                None
            }
            (OpK::Sub { qos, n }, sync) => {
                let mut cmd = SubscribeCommand::builder();
                for f in &filters {
                    cmd = cmd.add_topic(f.clone(), *qos);
                }
                let cmd = cmd.build().unwrap();
                if !sync {
                    if *n == 1 { c.subscribe(&t, *qos).await } else { c.subscribe_with_command(cmd).await }.unwrap();
                    None
                } else {
                    let r = match op.timeout {
                        Some(ms) if *n == 1 => c.subscribe_sync_with_timeout(&t, *qos, ms as u64).await,
                        _ if *n == 1 => c.subscribe_sync(&t, *qos).await,
                        _ => c.subscribe_with_command_sync(cmd).await,
                    };
                    Some(r.map(|r| Out::Sub(r.packet_id, r.reason_codes)).unwrap_or_else(of_err))
                }
            }
            (OpK::Unsub { n }, sync) => {
                let fs: Vec<&str> = filters.iter().map(|f| f.as_str()).collect();
                if !sync {
                    c.unsubscribe(fs).await.unwrap();
                    None
                } else {
                    let r = match op.timeout {
                        Some(ms) => c.unsubscribe_sync_with_timeout(fs, ms as u64).await,
                        None if n % 2 == 0 => c.unsubscribe_with_command_sync(UnsubscribeCommand::from_topics(filters.clone())).await,
                        None => c.unsubscribe_sync(fs).await,
                    };
                    Some(r.map(|r| Out::Unsub(r.packet_id, r.reason_codes)).unwrap_or_else(of_err))
                }
            }
            (OpK::Ping, true) => {
                let r = match op.timeout {
                    Some(ms) => c.ping_sync_with_timeout(ms as u64).await,
                    None => c.ping_sync().await,
                };
                Some(r.map(|r| Out::Ping(r.success)).unwrap_or_else(of_err))
            }
            (OpK::Ping, false) => {
                c.ping().await.unwrap();
                None
            }
            (OpK::Connect, true) => {
                let r = match op.timeout {
                    Some(ms) => c.connect_sync_with_timeout(ms as u64).await,
                    None => c.connect_sync().await,
                };
                Some(r.map(|r| Out::Conn(r.reason_code, r.session_present)).unwrap_or_else(of_err))
            }
            (OpK::Connect, false) => {
                c.connect().await.unwrap();
                None
            }
        };
        if let Some(out) = out {
            w.lock().unwrap().results.push((i, s, simnet::now(), out));
        }
    })
}

pub fn config(t: &[Option<u32>; 5]) -> flowsdk::mqtt_client::tokio_async_client::ConfigBuilder {
    let mut b = TokioAsyncClientConfig::builder().no_timeouts();
    if let Some(x) = t[0] {
        b = b.connect_timeout_ms(x as u64);
    }
    if let Some(x) = t[1] {
        b = b.subscribe_timeout_ms(x as u64);
    }
    if let Some(x) = t[2] {
        b = b.publish_ack_timeout_ms(x as u64);
    }
    if let Some(x) = t[3] {
        b = b.unsubscribe_timeout_ms(x as u64);
    }
    if let Some(x) = t[4] {
        b = b.ping_timeout_ms(x as u64);
    }
    b
}

async fn play_ops(c: OpsCase) -> (W, u64) {
    let w: W = Default::default();
    let mut replies = HashMap::new();
    let mut pings = vec![];
    for (i, op) in c.ops.iter().enumerate() {
        match op.k {
            OpK::Ping => pings.push(op.reply.clone()),
            _ => {
                replies.insert(topic(i), op.reply.clone());
            }
        }
    }
    let plan = Plan {
        v5: c.v5,
        conns: vec![ConnPlan { connack: Some(c.connack), fault: None, down: 0, push: c.push.clone() }],
        replies,
        pings,
        frag: c.frag.clone(),
        initial_down: 0,
    };
    let addr = start_broker(plan, &w).await;
    let opts = MqttClientOptions::builder()
        .peer(addr.to_string())
        .client_id("c")
        .mqtt_version(conv::ver(c.v5))
        .keep_alive(0)
        .retransmission_timeout_ms(c.retrans as u64)
        .max_event_count(c.max_events as usize)
        .parser_buffer_size(c.parser as usize)
        .build();
    let cl = Arc::new(TokioAsyncMqttClient::new(opts, Box::new(Handler(w.clone())), config(&c.timeouts).build()).await.unwrap());
    let conn = Op { gap: 0, k: OpK::Connect, sync: true, timeout: None, reply: Reply::at(0) };
    let _ = run_op(&cl, &w, usize::MAX, &conn).await;
    for (i, op) in c.ops.iter().enumerate() {
        if op.gap > 0 {
            tokio::time::sleep(Duration::from_millis(op.gap as u64)).await;
        }
        run_op(&cl, &w, i, op);
        tokio::task::yield_now().await;
        tokio::task::yield_now().await;
    }
    tokio::time::sleep(Duration::from_millis(6000 * c.scale as u64)).await;
    let end = simnet::now();
    // the last clone is gone when every call has returned
    if let Ok(cl) = Arc::try_unwrap(cl) {
        let _ = cl.shutdown().await;
        tokio::time::sleep(Duration::from_millis(20)).await;
        w.lock().unwrap().h.push((simnet::now(), HEv::Error("shutdown".into())));
    }
    (w, end)
}

const TOL: u64 = 20;

fn near(t: u64, want: u64) -> bool {
    t >= want && t <= want + TOL
}

fn judge_ops(c: &OpsCase, w: &World, end: u64, o: &mut Obs) -> Res {
    let msg = |i: usize| format!("{:?}", c.ops.get(i).map(|op| (&op.k, op.sync, op.timeout, &op.reply)));
    // the connection
    let conn = w.results.iter().find(|r| r.0 == usize::MAX);
    ensure!(
        matches!(conn, Some((_, s, e, Out::Conn(0, sp))) if *sp == c.connack.2 && near(*e, s + c.connack.0 as u64)),
        "connect-sync",
        "connect_sync with a CONNACK after {} ms: {conn:?}",
        c.connack.0
    );
    let hconn: Vec<_> = w.h.iter().filter(|e| matches!(e.1, HEv::Connected(..))).collect();
    ensure!(hconn.len() == 1 && hconn[0].1 == HEv::Connected(0, c.connack.2), "on-connected", "{hconn:?}");
    for (_, e) in &w.h {
        if let HEv::Error(m) = e {
            ensure!(m == "shutdown", "error-callback", "on_error on a healthy connection: {m}");
        }
        ensure!(!matches!(e, HEv::Lost | HEv::Attempt(_) | HEv::Disconnected(_)), "spurious-loss", "{e:?} on a healthy connection");
    }
    // what the broker received
    let mut got: Vec<(u64, R)> = vec![];
    for (t, conn, e) in &w.b {
        match e {
            BEv::Got(r) => {
                ensure!(*conn == 0, "second-connection", "a second connection is opened");
                got.push((*t, r.clone()));
            }
            BEv::Junk(m) => return fail("junk-sent", format!("the broker cannot decode what the client sends: {m}")),
            BEv::Tail(n) => return fail("cut-packet", format!("the stream ends {n} bytes into a packet")),
            _ => {}
        }
    }
    ensure!(matches!(got.first(), Some((_, R::Connect { .. }))), "connect-first", "first packet {:?}", got.first());
    ensure!(got.iter().filter(|g| matches!(g.1, R::Connect { .. })).count() == 1, "connect-once", "several CONNECTs");
    // (SUBSCRIBE and UNSUBSCRIBE are repeated, too, under v3.1.1)
    let mut once = std::collections::HashSet::new();
    let fresh: Vec<&(u64, R)> = got.iter().filter(|g| match &g.1 {
        R::Subscribe { pid, .. } | R::Unsubscribe { pid, .. } => once.insert(*pid),
        _ => true,
    }).filter(|g| !matches!(&g.1, R::Publish { dup: true, .. } | R::Connect { .. } | R::Ack { .. } | R::Disconnect { .. })).collect();
    let mut k = 0;
    let mut pid_of: HashMap<usize, u16> = HashMap::new();
    for (i, op) in c.ops.iter().enumerate() {
        let want = match &op.k {
            OpK::Pub { qos, retain, len, .. } => {
                let g = fresh.get(k).map(|g| &g.1);
                let ok = matches!(g, Some(R::Publish { qos: q, retain: r, topic: t, payload: p, .. })
                    if q == qos && r == retain && *t == topic(i) && *p == payload(i, *len));
                if let Some(R::Publish { pid, .. }) = g {
                    pid_of.insert(i, *pid);
                }
                ok
            }
            OpK::Sub { n, qos } => match fresh.get(k).map(|g| &g.1) {
                Some(R::Subscribe { pid, subs, .. }) => {
                    pid_of.insert(i, *pid);
                    subs.len() == *n as usize && subs[0].filter == topic(i) && subs.iter().all(|s: &RSub| s.qos == *qos)
                }
                _ => false,
            },
            OpK::Unsub { n } => match fresh.get(k).map(|g| &g.1) {
                Some(R::Unsubscribe { pid, filters, .. }) => {
                    pid_of.insert(i, *pid);
                    filters.len() == *n as usize && filters[0] == topic(i)
                }
                _ => false,
            },
            OpK::Ping => matches!(fresh.get(k).map(|g| &g.1), Some(R::Pingreq)),
            OpK::Connect => true,
        };
        ensure!(want, "wire", "operation {i} {} appears at the broker as {:?}", msg(i), fresh.get(k).map(|g| &g.1));
        k += 1;
    }
    ensure!(fresh.len() == k, "wire-extra", "the broker receives more than was asked for: {:?}", &fresh[k].1);
    // the results
    let mut answered = 0u64;
    let mut timed_out = 0u64;
    let mut ping_no = 0;
    let mut want_cb: Vec<HEv> = vec![];
    let mut ping_sent: Vec<u64> = w.b.iter().filter(|e| matches!(e.2, BEv::Sent(R::Pingresp))).map(|e| e.0).collect();
    ping_sent.sort();
    // fire-and-forget and awaited pings, in order; the n-th PINGRESP answers the n-th
    let n_pings = c.ops.iter().filter(|op| matches!(op.k, OpK::Ping)).count();
    for (i, op) in c.ops.iter().enumerate() {
        let r = w.results.iter().find(|r| r.0 == i);
        let s = match (&op.k, r) {
            (_, Some(r)) => r.1,
            _ => 0,
        };
        let start = fresh[i].0;
        let pid = pid_of.get(&i).copied();
        let (dflt, name) = match op.k {
            OpK::Sub { .. } => (c.timeouts[1], "subscribe"),
            OpK::Pub { .. } => (c.timeouts[2], "publish"),
            OpK::Unsub { .. } => (c.timeouts[3], "unsubscribe"),
            OpK::Ping => (c.timeouts[4], "ping"),
            OpK::Connect => (c.timeouts[0], "connect"),
        };
        // several-filter subscriptions and priority publishes have no per-call time-out
        let own = match op.k {
            OpK::Sub { n, .. } => op.timeout.filter(|_| n == 1),
            _ => op.timeout,
        };
        let tmo = own.or(dflt).map(|x| x as u64);
        // when and with what the broker completes it
        let done: Option<(u64, Out)> = match &op.k {
            OpK::Pub { qos: 0, .. } => Some((0, Out::Pub(None, Some(0), 0))),
            OpK::Pub { qos, .. } => {
                let two = *qos == 2 && op.reply.code < 0x80;
                match (op.reply.delay, two, op.reply.delay2) {
                    (None, _, _) | (_, true, None) => None,
                    (Some(d), true, Some(d2)) => Some((d as u64 + d2 as u64, Out::Pub(pid, Some(0), *qos))),
                    (Some(d), false, _) => Some((d as u64, Out::Pub(pid, Some(op.reply.code), *qos))),
                }
            }
            OpK::Sub { .. } => op.reply.delay.map(|d| (d as u64, Out::Sub(pid.unwrap(), op.reply.codes.clone()))),
            OpK::Unsub { .. } => op.reply.delay.map(|d| (d as u64, Out::Unsub(pid.unwrap(), if c.v5 { op.reply.codes.clone() } else { vec![] }))),
            OpK::Ping => {
                ping_no += 1;
                ping_sent.get(ping_no - 1).map(|t| (t.saturating_sub(start), Out::Ping(true)))
            }
            OpK::Connect => None,
        };
        // the moment the broker really sent the last acknowledgement
        let sent = pid.and_then(|pid| w.b.iter().find(|e| match (&e.2, &op.k) {
            (BEv::Sent(R::Ack { kind, pid: p, code, .. }), OpK::Pub { qos, .. }) => *p == pid && (*qos == 1 && *kind == 4 || *qos == 2 && (*kind == 7 || *kind == 5 && *code >= 0x80)),
            (BEv::Sent(R::Suback { pid: p, .. }), OpK::Sub { .. }) | (BEv::Sent(R::Unsuback { pid: p, .. }), OpK::Unsub { .. }) => *p == pid,
            _ => false,
        }).map(|e| e.0));
        let done = match (done, sent) {
            (Some((d, out)), Some(t)) => {
                ensure!(t >= start + d && t <= start + d + 60, "exchange-late", "operation {i} {}: received at {start}, the last acknowledgement was due {d} ms later, sent at {t}", msg(i));
                Some((t.saturating_sub(s), out))
            }
            (d, _) => d,
        };
        match (&done, &op.k) {
            (Some((_, Out::Pub(p, code, q))), OpK::Pub { qos, .. }) if *qos > 0 => want_cb.push(HEv::Published(*p, *code, *q)),
            (Some((_, Out::Sub(p, codes))), _) => want_cb.push(HEv::Subscribed(*p, codes.clone())),
            (Some((_, Out::Unsub(p, codes))), _) => want_cb.push(HEv::Unsubscribed(*p, codes.clone())),
            _ => {}
        }
        if !op.sync {
            continue;
        }
        if matches!(op.k, OpK::Ping) {
            // responses carry no identifier: an earlier ping's may complete it
            let early = match r {
                Some((_, _, e, Out::Ping(true))) => ping_sent.iter().any(|t| *t >= s && near(*e, *t)) && done.as_ref().is_none_or(|d| *e <= s + d.0 + TOL),
                _ => false,
            };
            if early {
                answered += 1;
                continue;
            }
        }
        // nor are requests answered at about their time-out
        if let (Some((d, _)), Some(t)) = (&done, tmo) {
            if d.abs_diff(t) < TOL + 4 {
                continue;
            }
        }
        match (done, tmo) {
            (Some((d, out)), t) if t.is_none_or(|t| d < t) => {
                answered += 1;
                let Some((_, _, e, res)) = r else {
                    return fail("no-result", format!("operation {i} {} answered after {d} ms never returns", msg(i)));
                };
                let same = match (&out, res) {
                    (Out::Unsub(p, _), Out::Unsub(q, codes)) if !c.v5 => p == q && codes.iter().all(|c| *c == 0),
                    (a, b) => a == b,
                };
                ensure!(same, "wrong-result", "operation {i} {}: returns {res:?}, the broker answered {out:?}", msg(i));
                ensure!(near(*e, s + d), "late-result", "operation {i} {}: answered after {d} ms, returns after {} ms", msg(i), e - s);
            }
            (_, Some(t)) => {
                timed_out += 1;
                let Some((_, _, e, res)) = r else {
                    return fail("no-timeout", format!("operation {i} {} does not return after its time-out of {t} ms", msg(i)));
                };
                ensure!(*res == Out::Timeout(name.into(), t), "timeout-result", "operation {i} {} unanswered for {t} ms: returns {res:?}", msg(i));
                ensure!(near(*e, s + t), "timeout-time", "operation {i} {}: time-out {t} ms, returns after {} ms", msg(i), e - s);
            }
            (None, None) => ensure!(r.is_none(), "made-up-result", "operation {i} {} was never answered and has no time-out, but returns {r:?}", msg(i)),
            _ => unreachable!(),
        }
    }
    // the callbacks
    let mut have: Vec<HEv> = w.h.iter().filter(|e| matches!(e.1, HEv::Published(..) | HEv::Subscribed(..) | HEv::Unsubscribed(..))).map(|e| e.1.clone()).collect();
    if !c.v5 {
        for h in have.iter_mut().chain(want_cb.iter_mut()) {
            if let HEv::Unsubscribed(_, codes) = h {
                codes.clear();
            }
        }
    }
    let key = |e: &HEv| format!("{e:?}");
    have.sort_by_key(key);
    want_cb.sort_by_key(key);
    ensure!(have == want_cb, "callbacks", "completion callbacks {have:?}, the broker answered {want_cb:?}");
    let hp = w.h.iter().filter(|e| matches!(e.1, HEv::Ping(true))).count();
    ensure!(hp == ping_sent.len() && n_pings >= hp, "ping-callbacks", "{hp} ping callbacks for {} responses", ping_sent.len());
    // messages from the broker
    let msgs: Vec<HEv> = w.h.iter().filter(|e| matches!(e.1, HEv::Msg(..))).map(|e| e.1.clone()).collect();
    let want: Vec<HEv> = c.push.iter().enumerate().map(|(i, p)| HEv::Msg(format!("push/0/{i}"), p.2.clone(), p.1)).collect();
    ensure!(msgs == want, "messages", "the broker sent {} messages, the handler got {}: {msgs:?}", want.len(), msgs.len());
    for (i, p) in c.push.iter().enumerate() {
        let pid = i as u16 + 1;
        let n = |kind: u8| got.iter().filter(|g| matches!(&g.1, R::Ack { kind: k, pid: q, .. } if *k == kind && *q == pid)).count();
        ensure!(n(4) == (p.1 == 1) as usize, "push-ack", "{} PUBACKs for a QoS {} message", n(4), p.1);
        ensure!(n(5) == (p.1 == 2) as usize && n(7) == (p.1 == 2) as usize, "push-ack", "{} PUBRECs, {} PUBCOMPs for a QoS {} message", n(5), n(7), p.1);
    }
    if w.h.last().map(|e| &e.1) == Some(&HEv::Error("shutdown".into())) {
        ensure!(w.b.iter().any(|e| e.2 == BEv::Eof), "shutdown", "after shutdown the connection stays open");
    }
    let _ = end;
    o.add("answered calls", answered);
    o.add("timed-out calls", timed_out);
    o.add("messages", c.push.len() as u64);
    o.nt_if(answered + timed_out >= 2);
    Ok(())
}


/// Runs a case; a failure counts only if it shows again when every jump of the
/// clock first gives the kernel real time to deliver what is on its way.
fn twice<C: Clone + std::fmt::Debug>(o: &mut Obs, run: impl Fn(i32, &mut Obs) -> Res) -> Res {
    let mut o1 = Obs::default();
    if run(0, &mut o1).is_ok() {
        *o = o1;
        return Ok(());
    }
    run(4, o)
}

fn trace(w: &World) {
    if std::env::var("VH_TRACE").is_ok() {
        eprintln!("results {:#?}\nhandler", w.results);
        for h in &w.h {
            eprintln!("  {h:?}");
        }
        eprintln!("broker");
        for h in &w.b {
            eprintln!("  {h:?}");
        }
    }
}

fn check(c: &OpsCase, o: &mut Obs) -> Res {
    twice::<OpsCase>(o, |grace, o| {
        let (w, end) = simnet::run(grace, play_ops(c.clone()));
        let w = w.lock().unwrap();
        trace(&w);
        judge_ops(c, &w, end, o)
    })
}


// ------------------------------------------------- loss and reconnection (T02)

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum StepK {
    Op(Op),
    Disconnect,
    Auto(bool),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Step {
    pub gap: u32,
    pub k: StepK,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct LossCase {
    pub v5: bool,
    pub clean: bool,
    pub keep_alive: u16,
    pub mult: u8,
    pub auto: bool,
    pub base: u32,
    pub max: u32,
    pub attempts: u32,
    pub initial_down: u32,
    pub conns: Vec<ConnPlan>,
    pub frag: Vec<u16>,
    pub steps: Vec<Step>,
    pub first_sync: bool,
    pub tail: u32,
}

fn gen_fault(s: &mut Src, v5: bool) -> Fault {
    match s.weighted(&[4, 3, 4, 2, 2]) {
        0 => Fault::Fin,
        1 => Fault::Rst,
        2 => Fault::Partial(s.range(1, 215) as u32),
        3 => Fault::Disconnect(if v5 { *s.pick(&[0x8bu8, 0x89, 0x8e]) } else { 0 }),
        _ => Fault::Silent,
    }
}
fn gen_loss(s: &mut Src) -> LossCase {
    let v5 = s.bool();
    let auto = s.chance(4, 5);
    let conns = s.vec(1, 5, 3, |s| {
        let code = if s.chance(1, 8) { if v5 { 0x88 } else { 3 } } else { 0 };
        let fault = if code != 0 {
            Some((s.range(0, 5) as u32 * 10, Fault::Fin))
        } else if s.chance(3, 4) {
            Some((s.range(5, 300) as u32 * 10, gen_fault(s, v5)))
        } else {
            None
        };
        let connack = if s.chance(1, 12) { None } else { Some((s.pick(&[0, 0, 20, 40, 60, 300, 1000]).to_owned(), code, s.chance(3, 4))) };
        ConnPlan {
            connack,
            fault: if connack.is_none() { Some((s.range(5, 100) as u32 * 10, Fault::Fin)) } else { fault },
            down: if s.chance(1, 2) { s.range(0, 60) as u32 * 100 } else { 0 },
            push: vec![(0, s.below(3) as u8, s.bytes(20))],
        }
    });
    let n = if s.thorough { 24 } else { 12 };
    let steps = s.vec(0, n, n / 2, |s| Step {
        gap: s.below(40) as u32 * 60,
        k: match s.weighted(&[10, 1, 1, 1]) {
            0 => {
                let mut op = gen_op(s, v5);
                op.gap = 0;
                op.timeout = None;
                if let OpK::Pub { len, .. } = &mut op.k {
                    *len = (*len).min(50);
                }
                StepK::Op(op)
            }
            1 => StepK::Op(Op { gap: 0, k: OpK::Connect, sync: s.bool(), timeout: None, reply: Reply::at(0) }),
            2 => StepK::Disconnect,
            _ => StepK::Auto(s.bool()),
        },
    });
    LossCase {
        v5,
        clean: s.bool(),
        keep_alive: *s.pick(&[0, 1, 2, 5]),
        mult: s.range(1, 3) as u8,
        auto,
        base: *s.pick(&[50, 100, 200, 1000]),
        max: *s.pick(&[100, 400, 3000, 60_000]),
        attempts: *s.pick(&[0, 0, 1, 2, 4]),
        initial_down: if s.chance(1, 4) { s.range(1, 40) as u32 * 50 } else { 0 },
        conns,
        frag: s.vec(0, 4, 2, |s| s.u16()),
        steps,
        first_sync: s.bool(),
        tail: *s.pick(&[20_000, 60_000]),
    }
}

/// What the driver did, with its time.
type Done = Vec<(u64, StepK)>;

async fn play_loss(c: LossCase) -> (W, Done, u64) {
    let w: W = Default::default();
    let mut replies = HashMap::new();
    let mut pings = vec![];
    for (i, st) in c.steps.iter().enumerate() {
        if let StepK::Op(op) = &st.k {
            match op.k {
                OpK::Ping => pings.push(Reply::at(0)),
                _ => {
                    replies.insert(topic(i), op.reply.clone());
                }
            }
        }
    }
    let plan = Plan { v5: c.v5, conns: c.conns.clone(), replies, pings, frag: c.frag.clone(), initial_down: c.initial_down };
    let addr = start_broker(plan, &w).await;
    let opts = MqttClientOptions::builder()
        .peer(format!("mqtt://{addr}"))
        .client_id("c")
        .mqtt_version(conv::ver(c.v5))
        .clean_start(c.clean)
        .keep_alive(c.keep_alive)
        .ping_timeout_multiplier(c.mult as u32)
        .reconnect_base_delay_ms(c.base as u64)
        .reconnect_max_delay_ms(c.max as u64)
        .max_reconnect_attempts(c.attempts)
        .build();
    let cfg = config(&[Some(T_CONN), Some(T_OP), Some(T_OP), Some(T_OP), Some(T_OP)]).auto_reconnect(c.auto).build();
    let cl = Arc::new(TokioAsyncMqttClient::new(opts, Box::new(Handler(w.clone())), cfg).await.unwrap());
    let mut done: Done = vec![];
    let first = Op { gap: 0, k: OpK::Connect, sync: c.first_sync, timeout: None, reply: Reply::at(0) };
    done.push((simnet::now(), StepK::Op(first.clone())));
    run_op(&cl, &w, 1000, &first);
    for (i, st) in c.steps.iter().enumerate() {
        tokio::time::sleep(Duration::from_millis(st.gap as u64)).await;
        done.push((simnet::now(), st.k.clone()));
        match &st.k {
            StepK::Op(op) => {
                run_op(&cl, &w, i, op);
            }
            StepK::Disconnect => cl.disconnect().await.unwrap(),
            StepK::Auto(b) => cl.set_auto_reconnect(*b).await.unwrap(),
        }
        tokio::task::yield_now().await;
        tokio::task::yield_now().await;
    }
    tokio::time::sleep(Duration::from_millis(c.tail as u64)).await;
    let end = simnet::now();
    (w, done, end)
}

const T_CONN: u32 = 4010;
const T_OP: u32 = 2010;

fn judge_loss(c: &LossCase, w: &World, done: &Done, end: u64, o: &mut Obs) -> Res {
    // ---- every connection is a fresh, well-formed stream
    let nconn = w.b.iter().filter(|e| e.2 == BEv::Accept).count();
    let at = |conn: usize, f: &dyn Fn(&BEv) -> bool| w.b.iter().find(|e| e.1 == conn && f(&e.2)).map(|e| e.0);
    for k in 0..nconn {
        let got: Vec<&R> = w.b.iter().filter(|e| e.1 == k).filter_map(|e| if let BEv::Got(r) = &e.2 { Some(r) } else { None }).collect();
        if let Some((_, _, BEv::Junk(m))) = w.b.iter().find(|e| e.1 == k && matches!(e.2, BEv::Junk(_))) {
            return fail("junk-sent", format!("connection {k}: the broker cannot decode what the client sends: {m}"));
        }
        let reset = c.conns.get(k).is_some_and(|p| matches!(p.fault, Some((_, Fault::Rst))));
        ensure!(reset || !w.b.iter().any(|e| e.1 == k && matches!(e.2, BEv::Tail(_))), "cut-packet", "connection {k} ends within a packet");
        if let Some(r) = got.first() {
            ensure!(matches!(r, R::Connect { .. }), "connect-first", "connection {k} begins with {r:?}");
            ensure!(got.iter().filter(|r| matches!(r, R::Connect { .. })).count() == 1, "connect-once", "connection {k}: two CONNECTs");
        }
        let pos = got.iter().position(|r| matches!(r, R::Disconnect { .. }));
        ensure!(pos.is_none_or(|p| p + 1 == got.len()), "after-disconnect", "connection {k}: {:?} after DISCONNECT", got.last());
    }
    // (a silenced broker leaves the connection open)
    let silenced = |k: usize| c.conns.get(k).is_some_and(|p| matches!(p.fault, Some((_, Fault::Silent))));
    let gone = |k: usize| at(k, &|e| *e == BEv::Eof || (*e == BEv::Fault && !silenced(k)));
    for k in 1..nconn {
        // never two connections at a time
        let a = at(k, &|e| *e == BEv::Accept).unwrap();
        let over = gone(k - 1).is_some_and(|t| t <= a + 3);
        ensure!(over, "parallel-connection", "connection {k} is opened while connection {} is up", k - 1);
    }
    // ---- CONNACKs and messages reach the handler
    let hc: Vec<(u64, u8, bool)> = w.h.iter().filter_map(|e| if let HEv::Connected(a, b) = e.1 { Some((e.0, a, b)) } else { None }).collect();
    let disc: Vec<u64> = done.iter().filter(|d| matches!(d.1, StepK::Disconnect)).map(|d| d.0).collect();
    let by_user = |a: u64, b: u64| disc.iter().any(|t| *t >= a && *t <= b);
    let fits = |h: &(u64, u8, bool), t: u64, code: u8, sp: bool| h.0 + 1 >= t && h.0 <= t + TOL && h.1 == code && h.2 == sp;
    let mut hc_used = vec![false; hc.len()];
    let mut connected: Vec<(u64, u64, bool)> = vec![]; // (from, to, session present)
    // (connections that may or may not have seen their CONNACK take what is left)
    let mut excused_after: Vec<(usize, u64, u8, bool)> = vec![];
    for k in 0..nconn {
        let sent = w.b.iter().find_map(|e| match (&e.2, e.1 == k) {
            (BEv::Sent(R::Connack { code, sp, .. }), true) => Some((e.0, *code, *sp)),
            _ => None,
        });
        let ends = gone(k).unwrap_or(end);
        let Some((t, code, sp)) = sent else { continue };
        let rst = c.conns.get(k).is_some_and(|p| matches!(p.fault, Some((_, Fault::Rst))));
        if code == 0 && ends > t + 10 {
            connected.push((t, ends, sp));
        }
        if by_user(at(k, &|e| *e == BEv::Accept).unwrap_or(0), t + 5) || (rst && ends < t + 10) || t + TOL > end {
            excused_after.push((k, t, code, sp));
        } else {
            let i = (0..hc.len()).find(|i| !hc_used[*i] && fits(&hc[*i], t, code, sp));
            ensure!(i.is_some(), "on-connected", "connection {k}: CONNACK ({code:#x}, {sp}) at {t}, on_connected {hc:?}");
            hc_used[i.unwrap()] = true;
        }
        if code == 0 {
            for (i, (pt, qos, payload)) in c.conns.get(k).map(|p| p.push.clone()).unwrap_or_default().iter().enumerate() {
                let n = w.h.iter().filter(|h| h.1 == HEv::Msg(format!("push/{k}/{i}"), payload.clone(), *qos)).count();
                let must = ends > t + *pt as u64 + 10 && !by_user(0, t + *pt as u64 + 10) || n > 0;
                ensure!(!must || n == 1, "message", "connection {k}: the message sent after CONNACK arrives {n} times");
            }
        }
    }
    for (_, t, code, sp) in excused_after {
        if let Some(i) = (0..hc.len()).find(|i| !hc_used[*i] && fits(&hc[*i], t, code, sp)) {
            hc_used[i] = true;
        }
    }
    ensure!(hc_used.iter().all(|u| *u), "on-connected", "on_connected without a CONNACK: {hc:?}");
    ensure!(!w.h.iter().any(|h| matches!(&h.1, HEv::Msg(t, _, _) if t == "partial")), "partial-delivered", "a truncated message is delivered");
    // ---- losses
    let losses: Vec<u64> = w.h.iter().filter(|h| h.1 == HEv::Lost).map(|h| h.0).collect();
    let mut used = vec![false; losses.len()];
    for k in 0..nconn {
        let Some(t) = at(k, &|e| *e == BEv::Fault) else { continue };
        let silent = c.conns.get(k).is_some_and(|p| matches!(p.fault, Some((_, Fault::Silent))));
        let from = at(k, &|e| *e == BEv::Accept).unwrap();
        if silent || by_user(from, t + 20) {
            continue;
        }
        let n = losses.iter().filter(|l| **l >= from && **l <= t + 20).count();
        // (the next connection's own loss may fall into the window)
        let next = at(k + 1, &|e| *e == BEv::Accept).is_some_and(|a| a <= t + 20);
        ensure!(n == 1 || (n > 1 && next), "loss-reported", "connection {k} broken by the broker at {t}: on_connection_lost {n} times by {} ({losses:?})", t + 20);
    }
    for k in 0..nconn {
        // each connection explains at most one loss
        let from = at(k, &|e| *e == BEv::Accept).unwrap();
        let to = at(k + 1, &|e| *e == BEv::Accept).unwrap_or(end + 1);
        let mut n = 0;
        for (i, l) in losses.iter().enumerate() {
            if *l >= from && (*l < to || (*l == to && n == 0)) && !used[i] {
                used[i] = true;
                n += 1;
            }
        }
        ensure!(n <= 1, "loss-twice", "connection {k}: on_connection_lost {n} times");
        if let Some(e) = at(k, &|e| *e == BEv::Eof) {
            // the client closed it: asked to, or it was refused, or it was unresponsive
            let asked = by_user(from, e);
            let refused = w.b.iter().any(|b| b.1 == k && matches!(b.2, BEv::Sent(R::Connack { code, .. }) if code != 0));
            let silent = at(k, &|e| *e == BEv::Fault).is_some() && c.keep_alive > 0;
            let slow = w.b.iter().any(|b| b.1 == k && b.2 == BEv::Got(R::Pingreq));
            ensure!(asked || refused || silent || slow, "closed", "connection {k} is closed by the client at {e} for no reason");
        }
    }
    ensure!(used.iter().all(|u| *u), "spurious-loss", "on_connection_lost without a connection: {losses:?}");
    // ---- DISCONNECT on request closes the connection for good
    for t in &disc {
        for k in 0..nconn {
            let (from, to) = (at(k, &|e| *e == BEv::Accept).unwrap(), at(k, &|e| matches!(e, BEv::Eof | BEv::Fault)).unwrap_or(end));
            if from + 10 < *t && *t + 10 < to {
                return fail("disconnect-open", format!("disconnect at {t}, connection {k} stays open until {to}"));
            }
            if from + 10 < *t && *t <= to && to <= *t + 10 {
                let up = connected.iter().any(|(a, _, _)| *a >= from && *a + 5 < *t);
                let byb = at(k, &|e| *e == BEv::Fault).is_some_and(|f| f <= *t + 10);
                let said = w.b.iter().any(|e| e.1 == k && matches!(e.2, BEv::Got(R::Disconnect { .. })));
                ensure!(said || !up || byb, "disconnect-silent", "disconnect at {t}: connection {k} is closed without DISCONNECT");
                o.label("disconnect");
            }
        }
    }
    // ---- attempts
    #[derive(Debug, Clone, Copy, PartialEq, PartialOrd)]
    enum Ev {
        Auto(bool),
        Disc,
        Conn,
        Attempt(bool),
        Up,
        Lost,
    }
    let mut evs: Vec<(u64, Ev)> = vec![];
    for (t, d) in done {
        match d {
            StepK::Auto(b) => evs.push((*t, Ev::Auto(*b))),
            StepK::Disconnect => evs.push((*t, Ev::Disc)),
            StepK::Op(Op { k: OpK::Connect, .. }) => evs.push((*t, Ev::Conn)),
            _ => {}
        }
    }
    for e in &w.b {
        if e.2 == BEv::Accept {
            evs.push((e.0, Ev::Attempt(true)));
        }
    }
    for h in &w.h {
        match &h.1 {
            HEv::Error(m) if m.contains("TCP connection failed") => evs.push((h.0, Ev::Attempt(false))),
            HEv::Connected(0, _) => evs.push((h.0, Ev::Up)),
            HEv::Lost => evs.push((h.0, Ev::Lost)),
            _ => {}
        }
    }
    evs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let user = |e: &Ev| matches!(e, Ev::Auto(_) | Ev::Disc | Ev::Conn);
    // a command within a few ms of a loss or an attempt may act before or after it
    let mut close = false;
    for (i, a) in evs.iter().enumerate() {
        for b in &evs[i + 1..] {
            if b.0 <= a.0 + 40 && user(&a.1) != user(&b.1) && !(matches!(a.1, Ev::Conn) && matches!(b.1, Ev::Attempt(_) | Ev::Up)) && !(b.0 == a.0 && matches!(b.1, Ev::Conn)) {
                close = true;
            }
        }
    }
    let mut retries = 0u64;
    if close {
        o.label("command close to a loss");
    } else {
        let (mut auto, mut n, mut due, mut up) = (c.auto, 0u32, None::<u64>, false);
        let mut cut = false;
        let mut want_numbers: Vec<(u64, u32)> = vec![];
        let mut asked: Option<u64> = None;
        let mut old: Option<u64> = None;
        let delay = |n: u32| (c.base as u64).saturating_mul(1 << n.min(10)).min(c.max as u64);
        for (t, e) in &evs {
            if let Some(d) = due {
                ensure!(*t <= d + 30 || matches!(e, Ev::Attempt(_)), "no-retry", "no attempt at {d} (the next event is {e:?} at {t})");
            }
            let schedule = |n: &mut u32, due: &mut Option<u64>, wn: &mut Vec<(u64, u32)>| {
                *due = None;
                if auto && (c.attempts == 0 || *n < c.attempts) {
                    *due = Some(t + delay(*n));
                    *n += 1;
                    wn.push((t + delay(*n - 1), *n));
                }
            };
            match e {
                Ev::Auto(b) => auto = *b,
                Ev::Disc => {
                    if let Some(d) = due {
                        want_numbers.retain(|x| x.0 != d);
                    }
                    due = None;
                    n = 0;
                    up = false;
                }
                Ev::Conn => {
                    if due.or(old).is_some_and(|d| d <= *t + 40) {
                        o.label("command close to a loss");
                        cut = true;
                        break;
                    }
                    if !up {
                        asked = Some(*t);
                    }
                }
                Ev::Attempt(ok) => {
                    let by_due = due.is_some_and(|d| *t >= d && *t <= d + 30);
                    let by_user = asked.is_some_and(|a| *t >= a && *t <= a + 10);
                    let by_old = old.is_some_and(|d| *t >= d && *t <= d + 30);
                    ensure!(by_due || by_user || by_old, "unexpected-attempt", "a connection attempt at {t}; due: {due:?}, asked for: {asked:?} ({n} attempts so far)");
                    if by_due {
                        retries += 1;
                    } else if by_old {
                        old = None;
                    } else if let Some(d) = due {
                        // the pending attempt is superseded
                        want_numbers.retain(|x| x.0 != d);
                    }
                    // whether a failed explicit attempt cancels one scheduled before
                    // reconnection was turned off is not specified
                    if !auto && !*ok && !by_due {
                        old = due.or(old);
                    }
                    due = None;
                    asked = None;
                    up = *ok;
                    if !*ok {
                        schedule(&mut n, &mut due, &mut want_numbers);
                    }
                }
                Ev::Up => n = 0,
                Ev::Lost => {
                    up = false;
                    schedule(&mut n, &mut due, &mut want_numbers);
                }
            }
        }
        if let Some(d) = due.filter(|_| !cut) {
            ensure!(d + 30 > end, "no-retry", "no attempt at {d}, nothing follows until {end}");
        }
        let numbers: Vec<u32> = w.h.iter().filter_map(|h| if let HEv::Attempt(n) = h.1 { Some(n) } else { None }).collect();
        let mut sup = false;
        for (_, e) in &evs {
            sup |= user(e);
        }
        let wn: Vec<u32> = want_numbers.iter().map(|x| x.1).collect();
        let must = want_numbers.iter().filter(|x| x.0 + 30 < end).count();
        // (a scheduled attempt that a command superseded may or may not be announced)
        let single = evs.iter().filter(|e| user(&e.1)).count() <= 1;
        ensure!(cut || !single || (numbers.len() >= must && wn.starts_with(&numbers)), "attempt-numbers", "on_reconnect_attempt {numbers:?}, expected {wn:?}");
        let _ = sup;
    }
    // ---- awaited calls
    let mut calls = 0u64;
    for (i, st) in c.steps.iter().enumerate() {
        let StepK::Op(op) = &st.k else { continue };
        if !op.sync {
            continue;
        }
        let issued = done[i + 1].0;
        let tmo = if matches!(op.k, OpK::Connect) { T_CONN } else { T_OP } as u64;
        let r = w.results.iter().find(|r| r.0 == i);
        let Some((_, s, e, out)) = r else {
            ensure!(issued + tmo + TOL > end, "no-result", "step {i} {:?} at {issued} never returns", op.k);
            continue;
        };
        calls += 1;
        ensure!(*e <= s + tmo + TOL, "late-result", "step {i} {:?}: returns after {} ms, its time-out is {tmo} ms", op.k, e - s);
        // acknowledgements of this request sent by the broker
        let pids: Vec<(usize, u16)> = w.b.iter().filter_map(|b| match &b.2 {
            BEv::Got(R::Publish { topic: t, pid, .. }) if *t == topic(i) => Some((b.1, *pid)),
            BEv::Got(R::Subscribe { subs, pid, .. }) if subs[0].filter == topic(i) => Some((b.1, *pid)),
            BEv::Got(R::Unsubscribe { filters, pid, .. }) if filters[0] == topic(i) => Some((b.1, *pid)),
            _ => None,
        }).collect();
        let acks: Vec<(u64, usize, R)> = w.b.iter().filter_map(|b| match (&b.2, &op.k) {
            (BEv::Sent(r @ R::Ack { kind, pid, code, .. }), OpK::Pub { qos, .. }) => {
                let fin = if *qos == 1 { *kind == 4 } else { *kind == 7 || (*kind == 5 && *code >= 0x80) };
                (fin && pids.iter().any(|p| p.1 == *pid)).then(|| (b.0, b.1, r.clone()))
            }
            (BEv::Sent(r @ R::Suback { pid, .. }), OpK::Sub { .. }) => pids.contains(&(b.1, *pid)).then(|| (b.0, b.1, r.clone())),
            (BEv::Sent(r @ R::Unsuback { pid, .. }), OpK::Unsub { .. }) => pids.contains(&(b.1, *pid)).then(|| (b.0, b.1, r.clone())),
            (BEv::Sent(R::Pingresp), OpK::Ping) => Some((b.0, b.1, R::Pingresp)),
            (BEv::Sent(r @ R::Connack { .. }), OpK::Connect) => Some((b.0, b.1, r.clone())),
            _ => None,
        }).collect();
        let justified = |ok: &dyn Fn(&R) -> bool| acks.iter().any(|a| a.0 <= *e && a.0 + TOL >= *e && ok(&a.2));
        let ok = match out {
            Out::Pub(None, _, 0) => true,
            Out::Pub(Some(p), code, _) => justified(&|r| matches!(r, R::Ack { pid, code: c, .. } if pid == p && Some(*c) == *code)),
            Out::Sub(p, codes) => justified(&|r| matches!(r, R::Suback { pid, codes: c, .. } if pid == p && c == codes)) || codes.as_slice() == [128] && *p == 0,
            Out::Unsub(p, codes) => justified(&|r| matches!(r, R::Unsuback { pid, codes: k, .. } if pid == p && (!c.v5 || k == codes))) || codes.as_slice() == [128] && *p == 0,
            Out::Ping(true) => justified(&|_| true),
            Out::Conn(code, sp) => {
                let already = connected.iter().any(|(a, b, _)| *a <= *s + 1 && *b >= *s);
                justified(&|r| matches!(r, R::Connack { code: c, sp: p, .. } if c == code && p == sp)) || (already && *code == 0 && *e <= *s + 2)
            }
            Out::Timeout(_, t) => *t == tmo && near(*e, s + tmo),
            Out::Ping(false) | Out::Err(_) | Out::Pub(..) => true,
        };
        ensure!(ok, "unjustified-result", "step {i} {:?} (from {s}): returns {out:?} at {e}; acknowledgements {acks:?}", op.k);
        // a request the broker has forgotten fails when the new session begins
        if c.v5 && !matches!(op.k, OpK::Ping | OpK::Connect) {
            for (a, b, sp) in connected.iter().filter(|x| !x.2 && x.0 + TOL < x.1) {
                let _ = sp;
                let sent = w.b.iter().filter(|x| match &x.2 {
                    BEv::Got(R::Publish { topic: t, .. }) => *t == topic(i),
                    BEv::Got(R::Subscribe { subs, .. }) => subs[0].filter == topic(i),
                    BEv::Got(R::Unsubscribe { filters, .. }) => filters[0] == topic(i),
                    _ => false,
                }).map(|x| x.0).min();
                let conn_from = at(w.b.iter().find(|x| x.0 == *a && matches!(x.2, BEv::Sent(R::Connack { .. }))).map_or(0, |x| x.1), &|e| *e == BEv::Accept).unwrap_or(0);
                let before = sent.is_some_and(|t| t + 5 < conn_from);
                ensure!(!before || *e <= a + TOL || *s > *a || *b <= a + TOL, "forgotten-call", "step {i} {:?}: sent before the connection of {a}, where the broker has no session; returns {out:?} at {e}", op.k);
                o.label(if before && *s < *a { "request of a dropped session" } else { "session dropped" });
            }
        }
        // an acknowledgement that arrives in time settles the call
        if matches!(op.k, OpK::Pub { .. } | OpK::Sub { .. } | OpK::Unsub { .. }) {
            for (t, conn, r) in &acks {
                let broken = at(*conn, &|e| matches!(e, BEv::Eof | BEv::Fault)).unwrap_or(u64::MAX);
                if *t >= *s && *t + 20 < s + tmo && broken > *t + 20 && !by_user(t.saturating_sub(20), *t + 20) {
                    let good = matches!(out, Out::Pub(..) | Out::Sub(..) | Out::Unsub(..));
                    // calls that were already failed by a loss stay failed
                    ensure!(good || *e < *t, "answer-lost", "step {i} {:?}: the broker sent {r:?} at {t}, the call returned {out:?} at {e}", op.k);
                }
            }
        }
        if let Out::Err(m) = out {
            // an early failure needs a reason: no connection, or its loss
            let idle = !connected.iter().any(|(a, b, _)| *a <= *s && *b > *s + 5);
            // or the broker did not keep the session of an unanswered request
            let dropped = w.b.iter().any(|b| matches!(b.2, BEv::Sent(R::Connack { sp: false, code: 0, .. })) && b.0 > *s && b.0 <= *e && b.0 + TOL >= *e);
            let lost = losses.iter().any(|l| *l <= *e + 2 && *l + 20 >= *e) || by_user(e.saturating_sub(20), *e);
            let attempt = matches!(op.k, OpK::Connect);
            ensure!(idle || lost || attempt || dropped, "failed-call", "step {i} {:?}: fails at {e} with {m} on a live connection", op.k);
        }
    }
    // ---- no accepted QoS 1 or 2 message is lost while the broker keeps the session
    let kept = w.b.iter().filter(|b| b.1 > 0).all(|b| !matches!(b.2, BEv::Sent(R::Connack { sp: false, code: 0, .. })));
    let last_up = connected.last().is_some_and(|(a, b, _)| *b == end && end > *a + 500);
    let no_silent = c.conns.iter().take(nconn).all(|p| !matches!(p.fault, Some((_, Fault::Silent))));
    if kept && last_up && no_silent {
        for (i, st) in c.steps.iter().enumerate() {
            if let StepK::Op(Op { k: OpK::Pub { qos: 1..=2, .. }, .. }) = &st.k {
                let seen = w.b.iter().any(|b| matches!(&b.2, BEv::Got(R::Publish { topic: t, .. }) if *t == topic(i)));
                // (refused before the first connection, when there is no session)
                let early = done[i + 1].0 <= at(0, &|e| *e == BEv::Accept).unwrap_or(u64::MAX);
                ensure!(seen || early, "message-lost", "the QoS>0 message of step {i} never reaches the broker");
            }
        }
        o.label("session kept to the end");
    }
    o.add("connections", nconn as u64);
    o.add("losses", losses.len() as u64);
    o.add("retries", retries);
    o.add("awaited calls", calls);
    o.nt_if(nconn >= 2 && !losses.is_empty());
    Ok(())
}

fn check_loss(c: &LossCase, o: &mut Obs) -> Res {
    twice::<LossCase>(o, |grace, o| {
        let (w, done, end) = simnet::run(grace, play_loss(c.clone()));
        let w = w.lock().unwrap();
        trace(&w);
        judge_loss(c, &w, &done, end, o)
    })
}

pub fn t02() -> Property {
    Property {
        id: "T02",
        rule: "at least two connections and one loss",
        assumptions: &[
            "Commands given within 40 ms of a loss or of a reconnection attempt may act before or after it: the reconnection schedule is not judged there.",
            "Time is simulated: no real scheduling delay is part of a case.",
        ],
        subs: vec![Box::new(Sub { name: "losses", quick: 60_000, thorough: 900_000, threads: 0, gen: gen_loss, check: check_loss })],
    }
}

pub fn t01() -> Property {
    Property {
        id: "T01",
        rule: "at least two awaited calls were answered or timed out",
        assumptions: &[
            "The broker answers each request at most once, with its packet identifier, and PINGREQs in order.",
            "Time is simulated: no real scheduling delay is part of a case.",
        ],
        subs: vec![Box::new(Sub { name: "calls", quick: 60_000, thorough: 900_000, threads: 0, gen, check })],
    }
}

//! X02, X03: the QUIC engine against an in-memory QUIC server with a broker
//! behind it (quicnet), in virtual time, over a network that loses, delays,
//! duplicates and reorders datagrams.
use crate::conv;
use crate::core::*;
use crate::ensure;
use crate::p_tls;
use crate::quicnet::*;
use crate::refcodec::{RSub, R};
use crate::vclock::{self, VClock};
use flowsdk::mqtt_client::commands::{PublishCommand, SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_client::engine::{MqttEvent, QuicMqttEngine};
use flowsdk::mqtt_client::error::MqttClientError;
use flowsdk::mqtt_client::opts::MqttClientOptions;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::time::Instant;

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Open,
    /// to: None is the default stream, otherwise one of the known streams
    Pub { to: Option<u8>, qos: u8, len: u32, silent: bool, delay: u16, code: u8 },
    Sub { to: Option<u8>, silent: bool, delay: u16 },
    Unsub { to: Option<u8>, silent: bool, delay: u16 },
    Raw { to: u8, n: u8, len: u32 },
    Ping,
    Finish(u8),
    Reset(u8, u32),
    Stop(u8, u32),
    SOpen { n: u8, qos: u8 },
    SPub { to: u8, n: u8, qos: u8, len: u32 },
    SFin(u8),
    SReset(u8, u32),
    SStop(u8, u32),
    Pause(u8, bool),
    Step { ms: u8, n: u8 },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    v5: bool,
    max_events: usize,
    max_out: usize,
    retrans: u32,
    parser: usize,
    window: u32,
    streams: u32,
    delay: u8,
    fates: Vec<u8>,
    ops: Vec<Op>,
}

fn glen(s: &mut Src) -> u32 {
    match s.weighted(&[8, 3, 2, 1]) {
        0 => s.below(40) as u32,
        1 => s.below(3000) as u32,
        2 => s.range(3000, 30_000) as u32,
        _ => s.range(30_000, 200_000) as u32,
    }
}
fn fates(s: &mut Src) -> Vec<u8> {
    if s.chance(1, 3) {
        return vec![];
    }
    let mut last = false;
    s.vec(8, 60, 24, |s| {
        let f = match s.weighted(&[14, 3, 2, 1]) {
            0 => 0,
            1 => 160 + s.below(40) as u8,
            2 => 210,
            _ => 226 + s.below(30) as u8,
        };
        let f = if f == 210 && last { 0 } else { f };
        last = f == 210;
        f
    })
}
fn gen(s: &mut Src) -> Case {
    let n = if s.thorough { 60 } else { 30 };
    let reply = |s: &mut Src| (s.chance(1, 6), if s.bool() { 0 } else { s.below(400) as u16 });
    Case {
        v5: s.bool(),
        max_events: *s.pick(&[1000, 1000, 1, 2, 5]),
        max_out: *s.pick(&[1000, 1000, 3, 10]),
        retrans: *s.pick(&[5000, 300, 60_000]),
        parser: *s.pick(&[16384, 64, 1500]),
        window: *s.pick(&[1_000_000, 100_000, 4000, 600]),
        streams: *s.pick(&[100, 100, 3, 1]),
        delay: *s.pick(&[1, 1, 5, 20]),
        fates: fates(s),
        ops: s.vec(1, n, n / 2, |s| match s.weighted(&[3, 8, 2, 1, 2, 1, 2, 1, 1, 2, 7, 1, 1, 1, 1, 8]) {
            0 => Op::Open,
            1 => {
                let (silent, delay) = reply(s);
                Op::Pub { to: s.opt(|s| s.u8()), qos: s.below(3) as u8, len: glen(s), silent, delay, code: *s.pick(&[0u8, 0, 0, 0x10, 0x80, 0x97]) }
            }
            2 => {
                let (silent, delay) = reply(s);
                Op::Sub { to: s.opt(|s| s.u8()), silent, delay }
            }
            3 => {
                let (silent, delay) = reply(s);
                Op::Unsub { to: s.opt(|s| s.u8()), silent, delay }
            }
            4 => Op::Raw { to: s.u8(), n: s.range(1, 4) as u8, len: glen(s) },
            5 => Op::Ping,
            6 => Op::Finish(s.u8()),
            7 => Op::Reset(s.u8(), s.below(1000) as u32),
            8 => Op::Stop(s.u8(), s.below(1000) as u32),
            9 => Op::SOpen { n: s.range(1, 4) as u8, qos: s.below(3) as u8 },
            10 => Op::SPub { to: s.u8(), n: s.range(1, 6) as u8, qos: s.below(3) as u8, len: glen(s) },
            11 => Op::SFin(s.u8()),
            12 => Op::SReset(s.u8(), s.below(1000) as u32),
            13 => Op::SStop(s.u8(), s.below(1000) as u32),
            14 => Op::Pause(s.u8(), s.bool()),
            _ => Op::Step { ms: *s.pick(&[1, 1, 5, 50]), n: s.range(1, 8) as u8 },
        }),
    }
}

/// What is known on the client side about a stream.
#[derive(Default, Debug)]
struct Cl {
    by_client: bool,
    accepted: Vec<R>,
    finished: bool,
    reset: Option<u64>,
    stopped: Option<u64>,
    /// StreamReset or StreamStopped was reported
    gone: bool,
    seen: bool,
    /// the server's doing
    s_fin: bool,
    s_reset: Option<u64>,
    s_stop: Option<u64>,
}

struct Sim {
    e: QuicMqttEngine,
    n: Net,
    ev: Vec<(u64, MqttEvent)>,
    st: BTreeMap<u64, Cl>,
    order: Vec<u64>,
    next_id: u64,
    dpub: Option<u64>,
    dsub: Option<u64>,
    /// timed retransmissions also take buffer space
    retrans: bool,
}

fn quic_server(p: &Params) -> std::sync::Arc<quinn_proto::ServerConfig> {
    server(p_tls::server_config(true), p)
}
fn tls_client() -> rustls::ClientConfig {
    let mut c = p_tls::client_config();
    c.resumption = rustls::client::Resumption::disabled();
    c
}

fn ident(e: &MqttEvent) -> String {
    let s = format!("{e:?}");
    s.chars().take(160).collect()
}

impl Sim {
    fn conn(&mut self) -> &mut SConn {
        self.n.conns.last_mut().unwrap()
    }
    fn step(&mut self, ms: u64) -> Res {
        let ev = self.n.step(&mut self.e, ms);
        let t = vclock::now_ms();
        for e in ev {
            match &e {
                MqttEvent::StreamReset { stream_id, .. } | MqttEvent::StreamStopped { stream_id, .. } => {
                    if let Some(c) = self.st.get_mut(stream_id) {
                        c.gone = true;
                        c.seen = true;
                    }
                    if self.dpub == Some(*stream_id) {
                        self.dpub = None;
                    }
                    if self.dsub == Some(*stream_id) {
                        self.dsub = None;
                    }
                }
                MqttEvent::StreamClosed { stream_id, .. } => {
                    if let Some(c) = self.st.get_mut(stream_id) {
                        c.seen = true;
                    }
                }
                MqttEvent::PublishReceived { stream: Some(id), .. } => {
                    if let Some(c) = self.st.get_mut(id) {
                        c.seen = true;
                    }
                }
                MqttEvent::Error(x) => return fail("error-event", format!("an error event without an error: {x:?}")),
                MqttEvent::Disconnected(_) | MqttEvent::TransportClosed { .. } | MqttEvent::ReconnectNeeded => {
                    return fail("spurious-loss", format!("{} on a live connection", ident(&e)));
                }
                _ => {}
            }
            self.ev.push((t, e));
        }
        Ok(())
    }
    /// Until nothing moves any more.
    fn settle(&mut self) -> Res {
        self.n.faults = false;
        for s in self.conn().streams.values_mut() {
            s.paused = false;
        }
        let mut quiet = 0;
        self.n.delay = 1;
        for _ in 0..20_000 {
            let (a, b) = (self.n.n_c2s + self.n.n_s2c, self.ev.len());
            let idle = self.n.idle();
            self.step(if idle { 40 } else { 1 })?;
            if idle && self.n.n_c2s + self.n.n_s2c == a && self.ev.len() == b {
                quiet += 1;
            } else {
                quiet = 0;
            }
            if quiet > 60 {
                return Ok(());
            }
        }
        Ok(())
    }
    /// A stream other than the control stream.
    fn data(&self, k: u8) -> Option<u64> {
        let v: Vec<u64> = self.order.iter().copied().filter(|x| *x != 0).collect();
        (!v.is_empty()).then(|| v[k as usize % v.len()])
    }
    fn any(&self, k: u8) -> u64 {
        self.order[k as usize % self.order.len()]
    }
    fn new_stream(&mut self, id: u64, by_client: bool) {
        self.order.push(id);
        self.st.insert(id, Cl { by_client, ..Default::default() });
    }
    /// Is this error what a caller has to expect here?
    fn judge_err(&mut self, id: u64, what: &str, e: &MqttClientError, max_out: usize) -> Res {
        let c = &self.st[&id];
        if c.finished || c.reset.is_some() || c.gone || (!c.by_client && !c.seen) {
            return Ok(());
        }
        if matches!(e, MqttClientError::BufferFull { .. }) {
            let got = self.n.conns.last().unwrap().streams.get(&id).map(|s| s.got.len()).unwrap_or(0);
            let acks: usize = self.n.conns.last().unwrap().streams.get(&id).map(|s| s.sent.len() * 2 + s.acks_sent.len()).unwrap_or(0);
            ensure!(
                self.retrans || c.accepted.len() + acks >= max_out,
                "false-buffer-full",
                "{what} on stream {id}: {e:?} though only {} packets were ever queued there (the broker has {got})",
                c.accepted.len() + acks
            );
            return Ok(());
        }
        fail("refused", format!("{what} on the open stream {id} is refused: {e:?}"))
    }
}

fn msg(topic: &str, qos: u8, pid: u16, len: u32) -> R {
    let mut payload = format!("<{topic}>").into_bytes();
    payload.resize(payload.len() + len as usize, topic.len() as u8 ^ pid as u8);
    R::Publish { dup: false, qos, retain: false, topic: topic.into(), pid, props: vec![], payload }
}
fn undup(r: &R) -> R {
    let mut r = r.clone();
    if let R::Publish { dup, .. } = &mut r {
        *dup = false;
    }
    r
}
fn short(r: Option<&R>) -> String {
    format!("{r:?}").chars().take(140).collect()
}

fn check(c: &Case, o: &mut Obs) -> Res {
    // the flow-control window bounds how much a case can carry
    let cap = |len: u32| len.min(c.window.saturating_mul(20));
    let _clk = VClock::start();
    let cfg = quic_server(&Params { window: c.window, streams: c.streams, idle_ms: 300_000 });
    let mut n = Net::new(cfg, c.v5);
    n.fates = c.fates.clone();
    n.delay = c.delay as u64;
    let mut opts = MqttClientOptions::builder()
        .client_id("q")
        .mqtt_version(conv::ver(c.v5))
        .keep_alive(0)
        .retransmission_timeout_ms(c.retrans as u64)
        .parser_buffer_size(c.parser)
        .build();
    opts.max_event_count = c.max_events;
    opts.max_outgoing_packet_count = c.max_out;
    let mut e = QuicMqttEngine::new(opts).unwrap();
    e.connect(saddr(), "localhost", tls_client(), Instant::now()).map_err(|x| Fail { sig: "connect".into(), msg: format!("{x:?}") })?;
    let mut s = Sim { e, n, ev: vec![], st: BTreeMap::new(), order: vec![], next_id: 4, dpub: None, dsub: None, retrans: !c.v5 };
    for k in 0..4000 {
        if k == 600 {
            s.n.faults = false;
        }
        s.step(if k < 600 { 5 } else { 20 })?;
        if s.e.is_connected() {
            break;
        }
    }
    s.n.faults = true;
    ensure!(s.e.is_connected(), "no-connection", "no MQTT connection after a minute without faults: {:?}", s.ev.iter().map(|x| ident(&x.1)).collect::<Vec<_>>());
    ensure!(s.e.control_stream_id() == Some(0), "control-stream", "control stream {:?}", s.e.control_stream_id());
    s.new_stream(0, true);

    // client requests, by topic: (stream, qos, pid)
    let mut reqs: Vec<(u64, u8, u16, Op, String)> = vec![];
    let mut pings = 0usize;
    let mut in_pid = 0u16;
    for (i, op) in c.ops.iter().enumerate() {
        let t = format!("c/{i}");
        match op {
            Op::Step { ms, n } => {
                for _ in 0..*n {
                    s.step(*ms as u64)?;
                }
            }
            Op::Open => match s.e.open_data_stream() {
                Ok(id) => {
                    ensure!(id == s.next_id, "stream-id", "open_data_stream returns {id}, expected {}", s.next_id);
                    s.next_id += 4;
                    s.new_stream(id, true);
                    o.label("stream opened");
                }
                Err(x) => {
                    let open = s.order.iter().filter(|k| *k % 4 == 0).count();
                    ensure!(open >= c.streams as usize, "open-refused", "open_data_stream with {open} of {} streams: {x:?}", c.streams);
                }
            },
            Op::Pub { to, qos, len, silent, delay, code } => {
                let mut cmd = PublishCommand::simple(t.clone(), vec![], *qos, false);
                let R::Publish { payload, .. } = msg(&t, *qos, 0, cap(*len)) else { unreachable!() };
                cmd.payload = payload.clone();
                s.n.replies.insert(t.clone(), Reply { silent: *silent, delay: *delay as u64, code: *code });
                let (id, r) = match to {
                    Some(k) => match s.data(*k) {
                        Some(id) => (id, s.e.publish_on(id, cmd)),
                        None => continue,
                    },
                    None => {
                        let fresh = s.dpub.is_none();
                        let before = s.e.data_stream_count();
                        let r = s.e.publish(cmd);
                        if fresh && s.e.data_stream_count() > before {
                            s.dpub = Some(s.next_id);
                            s.new_stream(s.next_id, true);
                            s.next_id += 4;
                        }
                        let Some(id) = s.dpub else {
                            let open = s.order.iter().filter(|k| *k % 4 == 0).count();
                            ensure!(open >= c.streams as usize, "open-refused", "publish with {open} of {} streams: {r:?}", c.streams);
                            continue;
                        };
                        (id, r)
                    }
                };
                match r {
                    Ok(pid) => {
                        ensure!(pid.is_some() == (*qos > 0), "packet-id", "QoS {qos} publish returns {pid:?}");
                        let pid = pid.unwrap_or(0);
                        let cl = s.st.get_mut(&id).unwrap();
                        ensure!(!cl.finished && cl.reset.is_none(), "accepted-after-finish", "publish on stream {id} accepted after it was finished or reset");
                        cl.accepted.push(R::Publish { dup: false, qos: *qos, retain: false, topic: t.clone(), pid, props: vec![], payload });
                        reqs.push((id, *qos, pid, op.clone(), t));
                    }
                    Err(x) => s.judge_err(id, "publish", &x, c.max_out)?,
                }
            }
            Op::Sub { to, silent, delay } | Op::Unsub { to, silent, delay } => {
                let sub = matches!(op, Op::Sub { .. });
                s.n.replies.insert(t.clone(), Reply { silent: *silent, delay: *delay as u64, code: 0 });
                let call = |e: &mut QuicMqttEngine, id: Option<u64>| match (sub, id) {
                    (true, None) => e.subscribe(SubscribeCommand::single(t.clone(), 1)),
                    (true, Some(id)) => e.subscribe_on(id, SubscribeCommand::single(t.clone(), 1)),
                    (false, None) => e.unsubscribe(UnsubscribeCommand::from_topics(vec![t.clone()])),
                    (false, Some(id)) => e.unsubscribe_on(id, UnsubscribeCommand::from_topics(vec![t.clone()])),
                };
                let (id, r) = match to {
                    Some(k) => match s.data(*k) {
                        Some(id) => (id, call(&mut s.e, Some(id))),
                        None => continue,
                    },
                    None => {
                        let fresh = s.dsub.is_none();
                        let before = s.e.data_stream_count();
                        let r = call(&mut s.e, None);
                        if fresh && s.e.data_stream_count() > before {
                            s.dsub = Some(s.next_id);
                            s.new_stream(s.next_id, true);
                            s.next_id += 4;
                        }
                        let Some(id) = s.dsub else {
                            let open = s.order.iter().filter(|k| *k % 4 == 0).count();
                            ensure!(open >= c.streams as usize, "open-refused", "subscribe with {open} of {} streams: {r:?}", c.streams);
                            continue;
                        };
                        (id, r)
                    }
                };
                match r {
                    Ok(pid) => {
                        let cl = s.st.get_mut(&id).unwrap();
                        cl.accepted.push(if sub {
                            R::Subscribe { pid, props: vec![], subs: vec![RSub { filter: t.clone(), qos: 1, nl: false, rap: false, rh: 0 }] }
                        } else {
                            R::Unsubscribe { pid, props: vec![], filters: vec![t.clone()] }
                        });
                        reqs.push((id, 9, pid, op.clone(), t));
                    }
                    Err(x) => s.judge_err(id, "subscribe", &x, c.max_out)?,
                }
            }
            Op::Raw { to, n, len } => {
                let id = s.any(*to);
                for k in 0..*n {
                    let r = msg(&format!("raw/{i}/{k}"), 0, 0, cap(*len));
                    match s.e.send_raw_on(id, &crate::refcodec::encode(&r, c.v5, 0)) {
                        Ok(()) => s.st.get_mut(&id).unwrap().accepted.push(r),
                        Err(x) => s.judge_err(id, "send_raw_on", &x, usize::MAX)?,
                    }
                }
            }
            Op::Ping => match s.e.ping() {
                Ok(()) => {
                    pings += 1;
                }
                Err(x) => ensure!(matches!(x, MqttClientError::BufferFull { .. }) && c.max_out < 100, "ping-refused", "{x:?}"),
            },
            Op::Finish(k) => {
                if let Some(id) = s.data(*k) {
                    match s.e.finish_stream(id) {
                        Ok(()) => {
                            let cl = s.st.get_mut(&id).unwrap();
                            if cl.reset.is_none() {
                                cl.finished = true;
                            }
                        }
                        Err(x) => s.judge_err(id, "finish_stream", &x, usize::MAX)?,
                    }
                }
            }
            Op::Reset(k, code) => {
                if let Some(id) = s.data(*k) {
                    match s.e.reset_stream(id, *code as u64) {
                        Ok(()) => {
                            let cl = s.st.get_mut(&id).unwrap();
                            cl.reset = cl.reset.or(Some(*code as u64));
                        }
                        Err(x) => s.judge_err(id, "reset_stream", &x, usize::MAX)?,
                    }
                }
            }
            Op::Stop(k, code) => {
                if let Some(id) = s.data(*k) {
                    match s.e.stop_stream(id, *code as u64) {
                        Ok(()) => {
                            let cl = s.st.get_mut(&id).unwrap();
                            cl.stopped = cl.stopped.or(Some(*code as u64));
                        }
                        Err(x) => {
                            let cl = &s.st[&id];
                            if !cl.s_fin && cl.stopped.is_none() && cl.s_reset.is_none() {
                                s.judge_err(id, "stop_stream", &x, usize::MAX)?;
                            }
                        }
                    }
                }
            }
            Op::SOpen { n, qos } => {
                let v5 = c.v5;
                if let Some(id) = s.conn().open() {
                    s.new_stream(id, false);
                    for k in 0..*n {
                        in_pid += 1;
                        let r = msg(&format!("s/{i}/{k}"), *qos, if *qos > 0 { in_pid } else { 0 }, 5);
                        s.conn().push(id, r, v5);
                    }
                    o.label("server stream");
                }
            }
            Op::SPub { to, n, qos, len } => {
                let v5 = c.v5;
                let id = s.any(*to);
                if !s.conn().streams.contains_key(&id) {
                    continue;
                }
                for k in 0..*n {
                    in_pid += 1;
                    let r = msg(&format!("s/{i}/{k}"), *qos, if *qos > 0 { in_pid } else { 0 }, if k == 0 { *len } else { 3 });
                    s.conn().push(id, r, v5);
                }
            }
            Op::SFin(k) | Op::SReset(k, _) | Op::SStop(k, _) => {
                let Some(id) = s.data(*k) else { continue };
                let sc = s.n.conns.last_mut().unwrap();
                let Some(ss) = sc.streams.get_mut(&id) else { continue };
                let cl = s.st.get_mut(&id).unwrap();
                match op {
                    Op::SFin(_) => {
                        if !ss.send_over && !ss.want_fin {
                            ss.want_fin = true;
                            cl.s_fin = true;
                        }
                    }
                    Op::SReset(_, code) => {
                        if !ss.send_over && !ss.want_fin {
                            ss.send_over = true;
                            ss.out.clear();
                            let _ = sc.c.send_stream(sid(id)).reset(quinn_proto::VarInt::from_u32(*code));
                            cl.s_reset = Some(*code as u64);
                        }
                    }
                    Op::SStop(_, code) => {
                        if !ss.read_over && sc.c.recv_stream(sid(id)).stop(quinn_proto::VarInt::from_u32(*code)).is_ok() {
                            ss.read_over = true;
                            cl.s_stop = Some(*code as u64);
                        }
                    }
                    _ => {}
                }
            }
            Op::Pause(k, on) => {
                let id = s.any(*k);
                if let Some(ss) = s.conn().streams.get_mut(&id) {
                    ss.paused = *on;
                    if *on {
                        o.label("stalled reader");
                    }
                }
            }
        }
    }
    s.settle()?;
    judge(c, s, reqs, pings, o)
}

fn judge(c: &Case, mut s: Sim, reqs: Vec<(u64, u8, u16, Op, String)>, pings: usize, o: &mut Obs) -> Res {
    ensure!(s.n.conns.iter().filter(|k| k.up).count() == 1, "connections", "{} QUIC connections", s.n.conns.len());
    let conn = s.n.conns.pop().unwrap();
    ensure!(conn.lost.is_none(), "spurious-loss", "the server lost the connection: {:?}", conn.lost);
    ensure!(conn.connect_on == Some(0), "control-stream", "CONNECT on stream {:?}", conn.connect_on);
    // events
    let mut msgs: HashMap<u64, Vec<(String, Vec<u8>, u8)>> = HashMap::new();
    let mut last_stream: Option<Option<u64>> = None;
    let mut published: HashMap<u16, Vec<Option<u8>>> = HashMap::new();
    let mut subbed: HashMap<u16, usize> = HashMap::new();
    let mut pongs = 0;
    let mut stream_ev: HashMap<u64, Vec<String>> = HashMap::new();
    for (_, e) in &s.ev {
        match e {
            MqttEvent::PublishReceived { stream, .. } => last_stream = Some(*stream),
            MqttEvent::MessageReceived(m) => {
                let Some(st) = last_stream.take() else {
                    return fail("no-metadata", "MessageReceived without PublishReceived before it");
                };
                let (t, p, q) = (m.topic_name.clone(), m.payload.clone(), m.qos);
                msgs.entry(st.unwrap_or(0)).or_default().push((t, p, q));
            }
            MqttEvent::Published(r) => published.entry(r.packet_id.unwrap_or(0)).or_default().push(r.reason_code),
            MqttEvent::Subscribed(r) => *subbed.entry(r.packet_id).or_default() += 1,
            MqttEvent::Unsubscribed(r) => *subbed.entry(r.packet_id).or_default() += 1,
            MqttEvent::PingResponse(_) => pongs += 1,
            MqttEvent::StreamClosed { stream_id, by_peer, .. } => stream_ev.entry(*stream_id).or_default().push(format!("closed by {}", if *by_peer { "peer" } else { "us" })),
            MqttEvent::StreamReset { stream_id, error_code } => stream_ev.entry(*stream_id).or_default().push(format!("reset {error_code}")),
            MqttEvent::StreamStopped { stream_id, error_code } => stream_ev.entry(*stream_id).or_default().push(format!("stopped {error_code}")),
            _ => {}
        }
    }
    for id in conn.streams.keys() {
        ensure!(s.st.contains_key(id), "unknown-stream", "the client opens stream {id} unasked");
    }
    let empty = SStream::default();
    let mut all_acks: HashMap<(u8, u16), Vec<u64>> = HashMap::new();
    for (id, ss) in &conn.streams {
        for (_, r) in &ss.got {
            if let R::Ack { kind, pid, .. } = r {
                all_acks.entry((*kind, *pid)).or_default().push(*id);
            }
        }
    }
    let (mut nmsg, mut nreq) = (0u64, 0u64);
    for (id, cl) in &s.st {
        let id = *id;
        let ss = conn.streams.get(&id).unwrap_or(&empty);
        if let Some(j) = &ss.junk {
            return fail("junk", format!("stream {id}: the broker cannot decode what it receives: {j}"));
        }
        // 1. what the client wrote
        let cut = cl.reset.is_some() || cl.s_stop.is_some() || cl.s_reset.is_some();
        let mut seen = HashSet::new();
        let mut k = 0;
        let mut pgot = 0;
        for (n, (_, r)) in ss.got.iter().enumerate() {
            match r {
                R::Connect { .. } => ensure!(id == 0 && n == 0, "connect-misplaced", "CONNECT is packet {n} of stream {id}"),
                R::Ack { .. } => {}
                R::Pingreq => {
                    pgot += 1;
                    ensure!(id == 0, "ping-misplaced", "PINGREQ on stream {id}");
                }
                R::Disconnect { .. } | R::Auth { .. } => return fail("unasked", format!("stream {id} carries {r:?}")),
                r => {
                    let pid = match r {
                        R::Publish { pid, .. } | R::Subscribe { pid, .. } | R::Unsubscribe { pid, .. } => *pid,
                        _ => 0,
                    };
                    if pid != 0 && !seen.insert(pid) {
                        // repeated: only under v3.1.1, and only what was sent here
                        let orig = ss.got[..n].iter().map(|x| undup(&x.1)).any(|x| x == undup(r));
                        ensure!(!c.v5 && orig, "repeat", "stream {id}: unexpected repetition {}", short(Some(r)));
                        continue;
                    }
                    let want = cl.accepted.get(k);
                    ensure!(
                        want == Some(r) || matches!(r, R::Publish { dup: true, .. }) && want == Some(&undup(r)),
                        "stream-content",
                        "stream {id}: request {k} is {}, the broker receives {}",
                        short(want),
                        short(Some(r))
                    );
                    k += 1;
                }
            }
        }
        if id == 0 {
            ensure!(matches!(ss.got.first(), Some((_, R::Connect { .. }))), "connect-first", "control stream begins with {}", short(ss.got.first().map(|x| &x.1)));
            ensure!(pgot == pings, "pings", "{pings} pings, {pgot} PINGREQs");
            ensure!(pongs == pings, "pongs", "{pings} pings, {pongs} responses");
        }
        nreq += k as u64;
        if !cut {
            ensure!(
                k == cl.accepted.len() && (ss.rbuf.is_empty() || !c.v5),
                "lost-request",
                "stream {id}: {} packets accepted, {k} arrived ({} bytes of another one); first missing {}",
                cl.accepted.len(),
                ss.rbuf.len(),
                short(cl.accepted.get(k))
            );
            ensure!(ss.fin.is_some() == cl.finished || !cl.accepted.is_empty() && !conn.streams.contains_key(&id), "fin", "stream {id}: finished {}, the broker saw {:?}", cl.finished, ss.fin);
        }
        if let (Some(code), true, true) = (ss.reset, cl.reset.is_some(), cl.s_stop.is_none()) {
            ensure!(Some(code) == cl.reset, "reset-code", "stream {id} reset with {:?}, the broker sees {code}", cl.reset);
        }
        ensure!(ss.reset.is_none() || cl.reset.is_some() || cl.s_stop.is_some(), "spurious-reset", "stream {id} is reset");
        ensure!(ss.stopped.is_none() || ss.stopped == cl.stopped, "stop-code", "stream {id} stopped with {:?}, the broker sees {:?}", cl.stopped, ss.stopped);
        ensure!(cl.stopped.is_none() || ss.stopped.is_some() || cl.s_reset.is_some() || cl.s_fin || cl.s_stop.is_some() || ss.nbytes == 0 && ss.acks_sent.is_empty() && ss.sent.is_empty(), "stop-lost", "STOP_SENDING for stream {id} never arrives");
        // 2. what the broker wrote
        let got = msgs.get(&id).cloned().unwrap_or_default();
        let want: Vec<(String, Vec<u8>, u8)> = ss
            .sent
            .iter()
            .filter_map(|r| match r {
                R::Publish { topic, payload, qos, .. } => Some((topic.clone(), payload.clone(), *qos)),
                _ => None,
            })
            .collect();
        nmsg += got.len() as u64;
        ensure!(
            got.len() <= want.len() && got[..] == want[..got.len()],
            "messages",
            "stream {id}: the broker sent {:?}, the application received {:?}",
            want.iter().map(|x| &x.0).collect::<Vec<_>>(),
            got.iter().map(|x| &x.0).collect::<Vec<_>>()
        );
        let rx_cut = cl.stopped.is_some() || cl.s_reset.is_some() || cl.s_stop.is_some();
        if !rx_cut {
            ensure!(
                got.len() == want.len(),
                "lost-message",
                "stream {id}: {} messages sent, {} received; missing {:?}",
                want.len(),
                got.len(),
                want[got.len()..].iter().map(|x| &x.0).collect::<Vec<_>>()
            );
        }
        // 3. acknowledgements of the broker's messages stay on the stream
        let tx_cut = cut || cl.finished;
        for (n, r) in ss.sent.iter().enumerate() {
            let R::Publish { qos, pid, topic, .. } = r else { continue };
            if *qos == 0 {
                continue;
            }
            let kinds: &[u8] = if *qos == 1 { &[4] } else { &[5, 7] };
            for kind in kinds {
                let on = all_acks.get(&(*kind, *pid)).cloned().unwrap_or_default();
                // the client's own PUBRELs and the broker's share no kind; a
                // PUBCOMP answers the broker's PUBREL
                ensure!(on.iter().all(|x| *x == id), "ack-elsewhere", "{topic} came on stream {id}, acknowledged (kind {kind}) on {on:?}");
                let must = n < got.len() && !tx_cut && !rx_cut && !(cl.s_fin && *kind == 7);
                ensure!(on.len() <= 1, "ack-twice", "{topic} on stream {id}: {} acknowledgements of kind {kind}", on.len());
                ensure!(!must || on.len() == 1, "ack-missing", "{topic} (QoS {qos}) on stream {id} is never acknowledged with kind {kind}");
                ensure!(n < got.len() || on.is_empty() || rx_cut, "ack-undelivered", "{topic} acknowledged but not delivered");
            }
        }
        // 4. stream events
        let evs = stream_ev.get(&id).cloned().unwrap_or_default();
        let mut want_ev: Vec<(String, bool)> = vec![];
        if cl.s_fin {
            want_ev.push(("closed by peer".into(), !rx_cut));
        }
        if let Some(k) = cl.s_reset {
            want_ev.push((format!("reset {k}"), cl.stopped.is_none() && cl.s_stop.is_none()));
        }
        if let Some(k) = cl.s_stop {
            want_ev.push((format!("stopped {k}"), !cl.finished && cl.reset.is_none() && cl.s_reset.is_none()));
        }
        if cl.finished {
            want_ev.push(("closed by us".into(), !cut));
        }
        for e in &evs {
            ensure!(want_ev.iter().any(|w| w.0 == *e), "stream-event", "stream {id}: event '{e}', expected {want_ev:?}");
            ensure!(evs.iter().filter(|x| *x == e).count() == 1, "stream-event-twice", "stream {id}: '{e}' reported twice");
        }
        for (w, must) in &want_ev {
            ensure!(!*must || evs.contains(w), "stream-event-missing", "stream {id}: no event '{w}' (have {evs:?})");
        }
    }
    // requests and their completions
    let mut answered = 0u64;
    for (id, qos, pid, op, t) in &reqs {
        let cl = &s.st[id];
        let ss = conn.streams.get(id).unwrap_or(&empty);
        let rx_cut = cl.stopped.is_some() || cl.s_reset.is_some() || cl.s_stop.is_some();
        let tx_cut = cl.finished || cl.reset.is_some();
        let arrived = ss.got.iter().any(|x| match &x.1 {
            R::Publish { topic, .. } => topic == t,
            R::Subscribe { subs, .. } => subs[0].filter == *t,
            R::Unsubscribe { filters, .. } => filters[0] == *t,
            _ => false,
        });
        let acked = |k: u8| ss.acks_sent.iter().any(|x| matches!(&x.1, R::Ack { kind, pid: p, .. } if *kind == k && p == pid));
        match op {
            Op::Pub { code, .. } if *qos > 0 => {
                let code = if c.v5 { *code } else { 0 };
                let p = published.get(pid).cloned().unwrap_or_default();
                let two = *qos == 2 && code < 0x80;
                let last = match (*qos, two) {
                    (1, _) => acked(4),
                    (_, true) => acked(7),
                    _ => acked(5),
                };
                ensure!(p.len() <= 1, "published-twice", "{t}: {} completions", p.len());
                ensure!(p.is_empty() || last && arrived, "made-up-completion", "{t} on stream {id}: completed, but the broker never acknowledged it");
                if let Some(k) = p.first() {
                    ensure!(*k == Some(if two { 0 } else { code }), "completion-code", "{t}: code {k:?}, the broker said {code}");
                }
                ensure!(!last || p.len() == 1 || rx_cut, "completion-lost", "{t} on stream {id}: the broker acknowledged it, no Published event");
                if *qos == 2 {
                    let rel = all_acks.get(&(6, *pid)).cloned().unwrap_or_default();
                    ensure!(rel.iter().all(|x| x == id), "pubrel-elsewhere", "{t}: PUBREL on {rel:?} instead of {id}");
                    ensure!(rel.is_empty() || acked(5), "pubrel-early", "{t}: PUBREL without PUBREC");
                    ensure!(rel.len() <= 1 || !c.v5, "pubrel-twice", "{t}: {} PUBRELs", rel.len());
                    ensure!(!(two && acked(5) && !rx_cut && !tx_cut) || !rel.is_empty(), "pubrel-missing", "{t} on stream {id}: PUBREC is never answered");
                }
                answered += p.len() as u64;
            }
            Op::Sub { .. } | Op::Unsub { .. } => {
                let n = subbed.get(pid).copied().unwrap_or(0);
                // v3.1.1 repeats an unanswered request, which may be answered twice
                let a = ss.acks_sent.iter().filter(|x| matches!(&x.1, R::Suback { pid: p, .. } | R::Unsuback { pid: p, .. } if p == pid)).count();
                ensure!(n <= a && (n == 0 || arrived), "subscribed", "{t}: {n} completions, acknowledged {a} times");
                ensure!(n >= 1 || a == 0 || rx_cut, "subscribed-lost", "{t} on stream {id}: acknowledged, no event");
                ensure!(!c.v5 || n <= 1, "subscribed-twice", "{t} on stream {id}: {n} events");
                answered += n as u64;
            }
            _ => {}
        }
    }
    o.add("packets client to broker", nreq);
    o.add("messages broker to client", nmsg);
    o.add("completions", answered);
    o.add("datagrams lost", s.n.dropped);
    o.nt_if(nreq + nmsg >= 3);
    Ok(())
}

pub fn x02() -> Property {
    Property {
        id: "X02",
        rule: "at least three packets crossed the streams",
        assumptions: &[],
        subs: vec![Box::new(Sub { name: "streams", quick: 40_000, thorough: 1_500_000, threads: 0, gen, check })],
    }
}

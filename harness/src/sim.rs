//! Generated histories for the MQTT engine: the real engine on one side, a
//! simulated broker speaking through the independent codec on the other, a
//! virtual clock, and a model that judges everything the engine emits.
//!
//! Every judgement carries the ids of the properties it belongs to; a check
//! reports only its own.

use crate::conv;
use crate::core::{Fail, Obs, Res, Src};
use crate::refcodec::{self, Prop, Props, RSub, R, V};
use crate::vclock::VClock;
use flowsdk::mqtt_client::commands::{PublishCommand, SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_client::engine::{MqttEngine, MqttEvent};
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk::mqtt_serde::control_packet::MqttPacket;
use flowsdk::mqtt_serde::mqttv5::subscribev5::TopicSubscription;
use flowsdk::mqtt_serde::parser::ParseOk;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::time::Instant;

pub type Chan = Option<u64>;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PubSpec {
    pub qos: u8,
    pub retain: bool,
    pub topic: u8,
    pub len: u16,
    pub prio: u8,
    pub nprops: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum InAct {
    Pub { qos: u8, retain: bool, id: u16, len: u16, topic: u8, props: u8 },
    /// Repeat a QoS 2 PUBLISH that has not been released (index).
    Dup2(u16),
    /// Release a QoS 2 message (index).
    Rel(u16),
    StrayRel(u16),
    StrayAck { kind: u8, id: u16 },
    Pingresp,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    Pub(PubSpec),
    /// publish_encoded, on a stream or untagged
    PubEnc(PubSpec, Option<u8>),
    Sub { n: u8, enc: bool, chan: Option<u8> },
    Unsub { n: u8, enc: bool, chan: Option<u8> },
    Drain,
    /// The broker answers one of the packets it holds unanswered.
    Ack { n: u16, code: u8 },
    /// The broker answers all of them (in one burst, cut into pieces).
    AckAll { split: u8 },
    /// PUBREC repeated by the broker.
    DupRec(u16),
    In { acts: Vec<InAct>, split: u8, chan: Option<u8> },
    Wait { ms: u32 },
    Tick { ms: u32 },
    /// `torn`: so many bytes of a packet arrive before the end.
    Lose { reset: bool, lost: bool, #[serde(default)] torn: u8 },
    Reconnect { present: bool, rmax: Option<u16>, code: u8 },
    Quiesce,
    SkipIds(u32),
    Ping,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Hist {
    pub ver: u8,
    pub auto_ack: bool,
    pub rm: u16,
    pub max_out: u16,
    pub timeout_ms: u32,
    pub skip: u32,
    pub ops: Vec<Op>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum St {
    Waiting,
    /// the transport was replaced before we saw it leave: it may or may not have been moved out
    Maybe,
    Sent,
    Rel,
    Done,
    Dropped,
}

struct Msg {
    qos: u8,
    id: u16,
    topic: String,
    payload: Vec<u8>,
    retain: bool,
    props: Props,
    prio: u8,
    chan: Chan,
    st: St,
    enc: bool,
    order: u64,
    rel_order: u64,
    recs: u32,
    last_tx: u64,
    rel_due: u32,
    /// transmissions seen in the current network connection
    tx_conn: u32,
    resume: bool,
}

struct Req {
    pkt: R,
    chan: Chan,
    seen: u32,
    last_tx: u64,
    maybe: bool,
    resume: bool,
}

enum Exp {
    Published { id: u16, code: u8, qos: u8, nprops: usize },
    PubRecv { id: Option<u16>, chan: Chan },
    Message { p: R },
    PubRel { id: u16, chan: Chan },
    Subd { id: u16, codes: Vec<u8> },
    Unsubd { id: u16, codes: Vec<u8> },
    Ping,
    Connected { code: u8, sp: bool },
}

/// (property ids, failure)
type V2 = Result<(), (&'static [&'static str], Fail)>;
fn v<T>(ids: &'static [&'static str], sig: &str, msg: String) -> Result<T, (&'static [&'static str], Fail)> {
    Err((ids, Fail { sig: sig.to_string(), msg }))
}
macro_rules! must {
    ($c:expr, $ids:expr, $sig:expr, $($a:tt)*) => {
        if !($c) { return v($ids, $sig, format!($($a)*)); }
    };
}

pub struct Sim<'a> {
    v5: bool,
    h: &'a Hist,
    e: MqttEngine,
    clk: VClock,
    msgs: Vec<Msg>,
    reqs: BTreeMap<u16, Req>,
    /// unfinished exchange per packet id
    by_id: HashMap<u16, usize>,
    order: u64,
    connected: bool,
    ever_connected: bool,
    limit: usize,
    /// packets the broker received and has not answered
    pending: VecDeque<(Chan, R)>,
    exp: VecDeque<Exp>,
    /// acknowledgements the engine owes the broker, per channel
    owed: BTreeMap<Chan, VecDeque<R>>,
    late_rel: BTreeMap<u16, u32>,
    in2: BTreeMap<u16, (Chan, R)>,
    resuming: bool,
    timers_exact: bool,
    allow_timer: bool,
    conn_no: u32,
    pub o: Obs,
    tag: u64,
    just_connected_fresh: bool,
}

const TOPICS: [&str; 6] = ["t", "a/b", "dev/1/x", "é/ü", "q", "long/topic/with/several/levels/here"];

fn topic(i: u8) -> String {
    TOPICS[i as usize % TOPICS.len()].to_string()
}

fn gen_uprops(v5: bool, n: u8) -> Props {
    if !v5 {
        return vec![];
    }
    let mut p = vec![];
    for i in 0..n {
        p.push(match i % 4 {
            0 => Prop { id: 0x26, v: V::P("k".into(), format!("v{i}")) },
            1 => Prop { id: 0x03, v: V::S("text/plain".into()) },
            2 => Prop { id: 0x02, v: V::W(100 + i as u32) },
            _ => Prop { id: 0x09, v: V::D(vec![i; 3]) },
        });
    }
    p
}

impl<'a> Sim<'a> {
    fn new(h: &'a Hist) -> Self {
        let clk = VClock::start();
        let o = MqttClientOptions::builder()
            .client_id("sim")
            .mqtt_version(h.ver)
            .clean_start(false)
            .keep_alive(0)
            .auto_ack(h.auto_ack);
        let mut o = o.build();
        o.receive_maximum = h.rm;
        o.max_outgoing_packet_count = h.max_out as usize;
        o.max_event_count = 1_000_000;
        o.retransmission_timeout_ms = h.timeout_ms as u64;
        Sim {
            v5: h.ver == 5,
            h,
            e: MqttEngine::new(o),
            clk,
            msgs: vec![],
            reqs: BTreeMap::new(),
            by_id: HashMap::new(),
            order: 0,
            connected: false,
            ever_connected: false,
            limit: if h.rm == 0 { 65535 } else { h.rm as usize },
            pending: VecDeque::new(),
            exp: VecDeque::new(),
            owed: BTreeMap::new(),
            late_rel: BTreeMap::new(),
            in2: BTreeMap::new(),
            resuming: false,
            timers_exact: true,
            allow_timer: false,
            conn_no: 0,
            o: Obs::default(),
            tag: 0,
            just_connected_fresh: false,
        }
    }

    fn now(&self) -> u64 {
        self.clk.ms()
    }
    fn outstanding(&self) -> usize {
        self.msgs.iter().filter(|m| matches!(m.st, St::Sent | St::Rel) && m.qos > 0).count()
    }
    /// exchanges that may hold a slot
    fn outstanding_max(&self) -> usize {
        self.msgs
            .iter()
            .filter(|m| m.qos > 0 && matches!(m.st, St::Sent | St::Rel | St::Waiting | St::Maybe))
            .count()
    }

    // ------------------------------------------------------------ client ops

    fn fresh_id_check(&self, id: u16, what: &str) -> V2 {
        must!(id != 0, &["E03"], "packet-id-zero", "{what} was given packet identifier 0");
        must!(
            !self.by_id.contains_key(&id) && !self.reqs.contains_key(&id),
            &["E03"],
            "packet-id-reused",
            "{what} was given packet identifier {id}, which an unfinished exchange still uses"
        );
        Ok(())
    }

    fn mk_cmd(&mut self, p: &PubSpec) -> (PublishCommand, Msg) {
        self.tag += 1;
        let mut payload = self.tag.to_be_bytes().to_vec();
        payload.resize(8 + p.len as usize, (self.tag & 0xff) as u8);
        let props = gen_uprops(self.v5, p.nprops);
        let cmd = PublishCommand {
            topic_name: topic(p.topic),
            payload: payload.clone(),
            qos: p.qos,
            retain: p.retain,
            dup: false,
            packet_id: None,
            properties: conv::props(&props),
            priority: p.prio,
        };
        let m = Msg {
            qos: p.qos,
            id: 0,
            topic: topic(p.topic),
            payload,
            retain: p.retain,
            props,
            prio: p.prio,
            chan: None,
            st: St::Waiting,
            enc: false,
            order: 0,
            rel_order: 0,
            recs: 0,
            last_tx: 0,
            rel_due: 0,
            tx_conn: 0,
            resume: false,
        };
        (cmd, m)
    }

    fn op_pub(&mut self, p: &PubSpec) -> V2 {
        if !self.ever_connected && p.qos > 0 {
            return Ok(());
        }
        let (cmd, mut m) = self.mk_cmd(p);
        match self.e.publish(cmd) {
            Ok(id) => {
                must!(
                    id.is_some() == (p.qos > 0),
                    &["E01"],
                    "publish-id-presence",
                    "publish QoS {} returned packet id {id:?}",
                    p.qos
                );
                if let Some(id) = id {
                    self.fresh_id_check(id, "publish")?;
                    m.id = id;
                    self.by_id.insert(id, self.msgs.len());
                }
                self.msgs.push(m);
            }
            Err(e) => return v(&["E01"], "publish-refused", format!("publish was refused: {e:?}")),
        }
        Ok(())
    }

    fn op_pub_enc(&mut self, p: &PubSpec, chan: Option<u8>) -> V2 {
        if !self.connected {
            return Ok(());
        }
        self.drain()?;
        let (cmd, mut m) = self.mk_cmd(p);
        let chan = chan.map(|c| c as u64);
        m.chan = chan;
        m.enc = true;
        match self.e.publish_encoded(cmd, chan) {
            Ok((id, bytes)) => {
                must!(id.is_some() == (p.qos > 0), &["E01"], "publish-id-presence", "id {id:?} for QoS {}", p.qos);
                if let Some(id) = id {
                    self.fresh_id_check(id, "publish_encoded")?;
                    m.id = id;
                    self.by_id.insert(id, self.msgs.len());
                }
                self.msgs.push(m);
                self.on_out_bytes(chan, &bytes)?;
            }
            Err(e) => {
                must!(
                    p.qos > 0 && self.outstanding_max() >= self.limit,
                    &["E02", "E01"],
                    "publish-refused-below-limit",
                    "publish_encoded QoS {} refused ({e:?}) with at most {} unfinished of {}",
                    p.qos,
                    self.outstanding_max(),
                    self.limit
                );
                self.o.label("refused:quota");
            }
        }
        Ok(())
    }

    fn op_sub(&mut self, n: u8, unsub: bool, enc: bool, chan: Option<u8>) -> V2 {
        if !self.connected {
            return Ok(());
        }
        let chan = if enc { chan.map(|c| c as u64) } else { None };
        self.tag += 1;
        let n = n.max(1);
        let filters: Vec<String> = (0..n).map(|i| format!("f/{}/{i}/+", self.tag)).collect();
        let props = if self.v5 && n % 2 == 0 {
            vec![Prop { id: 0x26, v: V::P("a".into(), "b".into()) }]
        } else {
            vec![]
        };
        let (res, pkt): (Result<(u16, Option<Vec<u8>>), _>, R) = if unsub {
            let cmd = UnsubscribeCommand::new(None, filters.clone(), conv::props(&props));
            let r = if enc {
                self.e.unsubscribe_encoded(cmd, chan).map(|(i, b)| (i, Some(b)))
            } else {
                self.e.unsubscribe(cmd).map(|i| (i, None))
            };
            (r, R::Unsubscribe { pid: 0, props, filters })
        } else {
            let subs: Vec<RSub> = filters
                .iter()
                .enumerate()
                .map(|(i, f)| RSub {
                    filter: f.clone(),
                    qos: (i % 3) as u8,
                    nl: self.v5 && i % 2 == 1,
                    rap: self.v5 && i % 3 == 1,
                    rh: if self.v5 { (i % 3) as u8 } else { 0 },
                })
                .collect();
            let cmd = SubscribeCommand::new(
                None,
                subs.iter()
                    .map(|s| TopicSubscription::new(s.filter.clone(), s.qos, s.nl, s.rap, s.rh))
                    .collect(),
                conv::props(&props),
            );
            let r = if enc {
                self.e.subscribe_encoded(cmd, chan).map(|(i, b)| (i, Some(b)))
            } else {
                self.e.subscribe(cmd).map(|i| (i, None))
            };
            (r, R::Subscribe { pid: 0, props, subs })
        };
        match res {
            Ok((id, bytes)) => {
                self.fresh_id_check(id, if unsub { "unsubscribe" } else { "subscribe" })?;
                let mut pkt = pkt;
                match &mut pkt {
                    R::Subscribe { pid, .. } | R::Unsubscribe { pid, .. } => *pid = id,
                    _ => {}
                }
                self.reqs.insert(
                    id,
                    Req { pkt, chan, seen: 0, last_tx: self.now(), maybe: false, resume: false },
                );
                if let Some(b) = bytes {
                    self.on_out_bytes(chan, &b)?;
                }
            }
            Err(e) => {
                must!(
                    !enc && self.h.max_out < 50,
                    &["E11"],
                    "subscribe-refused",
                    "subscribe/unsubscribe refused although nothing is full: {e:?}"
                );
                self.o.label("refused:outgoing");
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------- outgoing

    fn drain(&mut self) -> V2 {
        let bytes = self.e.take_outgoing();
        self.on_out_bytes(None, &bytes)?;
        for (s, b) in self.e.take_stream_retransmissions() {
            self.on_out_bytes(Some(s), &b)?;
        }
        if self.connected {
            self.after_drain()?;
        }
        Ok(())
    }

    fn after_drain(&mut self) -> V2 {
        // every owed direct response has been produced by now
        for (c, q) in &self.owed {
            must!(
                q.is_empty(),
                &["E08"],
                "acknowledgement-missing",
                "channel {c:?}: acknowledgement {:?} was never sent",
                q.front()
            );
        }
        for m in &self.msgs {
            must!(
                m.rel_due == 0,
                &["E01"],
                "pubrel-missing",
                "PUBREC for id {} was received but no PUBREL was sent",
                m.id
            );
        }
        if self.resuming {
            self.resuming = false;
            for m in &self.msgs {
                must!(
                    !m.resume || m.st == St::Done,
                    &["E04", "E01"],
                    "not-resent-on-resume",
                    "session resumed, but {} id {} was not sent again",
                    if m.st == St::Rel { "PUBREL" } else { "PUBLISH" },
                    m.id
                );
            }
        }
        self.just_connected_fresh = false;
        Ok(())
    }

    fn on_out_bytes(&mut self, chan: Chan, b: &[u8]) -> V2 {
        let pkts = match refcodec::decode_all(b, self.v5) {
            Ok(p) => p,
            Err(e) => {
                return v(
                    &["E01", "E08", "E11"],
                    "undecodable-output",
                    format!("the engine sent bytes that are not a packet sequence: {e:?}: {b:02x?}"),
                )
            }
        };
        for p in pkts {
            self.on_out(chan, p)?;
        }
        Ok(())
    }

    fn on_out(&mut self, chan: Chan, p: R) -> V2 {
        let now = self.now();
        match &p {
            R::Publish { dup, qos, retain, topic, pid, props, payload } => {
                let tag = payload.get(..8).map(|b| u64::from_be_bytes(b.try_into().unwrap())).unwrap_or(0);
                let i = (tag as usize).wrapping_sub(1);
                let idx = self.msgs.iter().position(|m| m.payload.get(..8) == payload.get(..8));
                let _ = i;
                let Some(idx) = idx else {
                    return v(&["E01"], "unknown-publish", format!("a PUBLISH was sent that nobody asked for: {p:?}"));
                };
                let m = &self.msgs[idx];
                must!(
                    *qos == m.qos
                        && *retain == m.retain
                        && *topic == m.topic
                        && *payload == m.payload
                        && *props == m.props
                        && (*qos == 0 || *pid == m.id),
                    &["E01"],
                    "publish-altered",
                    "sent {p:?}, published topic {:?} qos {} retain {} id {} props {:?} {} bytes",
                    m.topic,
                    m.qos,
                    m.retain,
                    m.id,
                    m.props,
                    m.payload.len()
                );
                must!(self.connected, &["E01", "E04"], "publish-while-disconnected", "PUBLISH sent while not connected: {p:?}");
                if *qos == 0 {
                    must!(
                        m.st == St::Waiting || m.st == St::Maybe,
                        &["E01"],
                        "qos0-sent-twice",
                        "a QoS 0 message was sent twice: {p:?}"
                    );
                    must!(!dup, &["E01"], "dup-on-first", "QoS 0 PUBLISH with DUP: {p:?}");
                    self.priority_check(idx)?;
                    self.msgs[idx].st = St::Done;
                    self.o.label("sent:qos0");
                    return Ok(());
                }
                match m.st {
                    St::Waiting | St::Maybe => {
                        must!(
                            !*dup || m.st == St::Maybe,
                            &["E01", "E05"],
                            "dup-on-first",
                            "first transmission carries DUP: {p:?}"
                        );
                        must!(
                            m.chan == chan || m.st == St::Maybe,
                            &["E05"],
                            "wrong-channel",
                            "sent on {chan:?}, expected {:?}",
                            m.chan
                        );
                        if self.resuming && !*dup {
                            must!(
                                !self.msgs.iter().any(|m| m.resume),
                                &["E04"],
                                "new-before-resend",
                                "a new PUBLISH (id {pid}) was sent before the resumed session's unfinished ones"
                            );
                        }
                        self.priority_check(idx)?;
                        self.order += 1;
                        let order = self.order;
                        let m = &mut self.msgs[idx];
                        let was_maybe = m.st == St::Maybe;
                        m.st = St::Sent;
                        if was_maybe {
                            self.by_id.insert(*pid, idx);
                        }
                        // first sent in bytes that were lost: its place is unknown
                        m.order = if was_maybe && *dup { u64::MAX } else { order };
                        m.tx_conn = 1;
                        m.last_tx = now;
                        m.chan = chan;
                        self.o.label("sent:qos12");
                        let out = self.outstanding();
                        must!(
                            out <= self.limit || *dup,
                            &["E02"],
                            "receive-maximum-exceeded",
                            "{out} unfinished QoS 1/2 messages outstanding, the limit is {}",
                            self.limit
                        );
                        if out == self.limit {
                            self.o.label("window:full");
                        }
                    }
                    St::Sent => {
                        must!(*dup, &["E01", "E04", "E05"], "retransmission-without-dup", "PUBLISH id {pid} sent again without DUP");
                        if m.resume && self.resuming {
                            let first = self
                                .msgs
                                .iter()
                                .filter(|m| m.resume && m.st == St::Sent)
                                .map(|m| m.order)
                                .min()
                                .unwrap();
                            must!(
                                m.order == first || m.order == u64::MAX,
                                &["E04"],
                                "resend-order",
                                "PUBLISH id {pid} was resent before one that had been sent earlier"
                            );
                            self.msgs[idx].resume = false;
                            self.o.label("resend:publish");
                        } else {
                            must!(
                                !self.just_connected_fresh,
                                &["E04"],
                                "resend-without-session",
                                "session not present, but PUBLISH id {pid} of the old session was sent again"
                            );
                            must!(
                                self.allow_timer && !self.v5,
                                &["E05"],
                                "spurious-retransmission",
                                "PUBLISH id {pid} sent again on the same connection outside a retransmission timeout"
                            );
                            must!(
                                chan == m.chan,
                                &["E05"],
                                "wrong-channel",
                                "PUBLISH id {pid} first sent on {:?}, retransmitted on {chan:?}",
                                m.chan
                            );
                            if self.timers_exact {
                                must!(
                                    now - m.last_tx >= self.h.timeout_ms as u64,
                                    &["E05"],
                                    "early-retransmission",
                                    "PUBLISH id {pid} retransmitted after {} ms, timeout {} ms",
                                    now - m.last_tx,
                                    self.h.timeout_ms
                                );
                            }
                            self.o.label("retx:publish");
                        }
                        let m = &mut self.msgs[idx];
                        m.tx_conn += 1;
                        m.last_tx = now;
                        m.chan = chan;
                    }
                    st => {
                        return v(
                            &["E01", "E04"],
                            "publish-after-completion",
                            format!("PUBLISH id {pid} sent again in state {st:?}"),
                        )
                    }
                }
                self.broker_got(chan, p);
            }
            R::Ack { kind: 6, pid, code, .. } => {
                // the answer to a repeated PUBREC, still buffered when the
                // exchange was completed
                if let Some(n) = self.late_rel.get_mut(pid) {
                    if *n > 0 && *code == 0 {
                        *n -= 1;
                        return Ok(());
                    }
                }
                let Some(&idx) = self.by_id.get(pid) else {
                    must!(
                        *code >= 0x80,
                        &["E01"],
                        "unexpected-pubrel",
                        "PUBREL for id {pid}, which belongs to no unfinished exchange"
                    );
                    return Ok(());
                };
                let m = &self.msgs[idx];
                must!(
                    m.st == St::Rel,
                    &["E01"],
                    "unexpected-pubrel",
                    "PUBREL for id {pid} although no PUBREC was received"
                );
                must!(*code == 0, &["E01"], "pubrel-code", "PUBREL id {pid} with reason {code}");
                if m.rel_due > 0 {
                    must!(chan == m.chan, &["E05", "E08"], "wrong-channel", "PUBREL id {pid} sent on {chan:?}, PUBREC came on {:?}", m.chan);
                    self.msgs[idx].rel_due -= 1;
                    self.o.label("sent:pubrel");
                } else if m.resume && self.resuming {
                    if m.recs == 1 {
                        let first = self
                            .msgs
                            .iter()
                            .filter(|m| m.resume && m.st == St::Rel && m.recs == 1)
                            .map(|m| m.rel_order)
                            .min()
                            .unwrap();
                        must!(m.rel_order == first, &["E04"], "resend-order", "PUBREL id {pid} was resent out of order");
                    }
                    self.msgs[idx].resume = false;
                    self.o.label("resend:pubrel");
                } else {
                    must!(
                        !self.just_connected_fresh,
                        &["E04"],
                        "resend-without-session",
                        "session not present, but PUBREL id {pid} of the old session was sent again"
                    );
                    must!(
                        self.allow_timer && !self.v5,
                        &["E05", "E01"],
                        "spurious-retransmission",
                        "PUBREL id {pid} sent again on the same connection"
                    );
                    must!(chan == m.chan, &["E05"], "wrong-channel", "PUBREL id {pid} retransmitted on {chan:?}, not {:?}", m.chan);
                    if self.timers_exact {
                        must!(
                            now - m.last_tx >= self.h.timeout_ms as u64,
                            &["E05"],
                            "early-retransmission",
                            "PUBREL id {pid} retransmitted after {} ms",
                            now - m.last_tx
                        );
                    }
                    self.o.label("retx:pubrel");
                }
                let m = &mut self.msgs[idx];
                m.last_tx = now;
                m.chan = chan;
                self.broker_got(chan, p);
            }
            R::Ack { kind, .. } => {
                let want = self.owed.get_mut(&chan).and_then(|q| q.pop_front());
                must!(
                    want.as_ref() == Some(&p),
                    &["E08"],
                    "acknowledgement-mismatch",
                    "channel {chan:?}: sent {p:?}, owed next {want:?}"
                );
                self.o.label(match kind {
                    4 => "ack:puback",
                    5 => "ack:pubrec",
                    _ => "ack:pubcomp",
                });
            }
            R::Subscribe { pid, .. } | R::Unsubscribe { pid, .. } => {
                let Some(r) = self.reqs.get_mut(pid) else {
                    return v(&["E11"], "unknown-subscribe", format!("sent {p:?}, which nobody asked for"));
                };
                must!(r.pkt == p, &["E11"], "subscribe-altered", "sent {p:?}, requested {:?}", r.pkt);
                if r.seen == 0 {
                    must!(r.chan == chan || r.maybe, &["E11"], "wrong-channel", "{p:?} on {chan:?}, expected {:?}", r.chan);
                } else if !r.resume {
                    must!(
                        self.allow_timer && !self.v5,
                        &["E11", "E05"],
                        "subscribe-repeated",
                        "{p:?} sent again on the same connection"
                    );
                    if self.timers_exact {
                        must!(
                            now - r.last_tx >= self.h.timeout_ms as u64 && chan == r.chan,
                            &["E05"],
                            "early-retransmission",
                            "{p:?} retransmitted after {} ms on {chan:?} ({:?})",
                            now - r.last_tx,
                            r.chan
                        );
                    }
                }
                r.resume = false;
                r.seen += 1;
                r.last_tx = now;
                r.chan = chan;
                self.broker_got(chan, p);
            }
            R::Pingreq => self.broker_got(chan, p),
            R::Connect { .. } => {}
            _ => return v(&["E01"], "unexpected-packet", format!("the engine sent {p:?}")),
        }
        Ok(())
    }

    /// No message of higher priority, and none of equal priority accepted
    /// earlier, may still be waiting when this one leaves.
    fn priority_check(&mut self, idx: usize) -> V2 {
        let m = &self.msgs[idx];
        if m.enc || m.st == St::Maybe || !self.prio_checked() {
            return Ok(());
        }
        for (j, w) in self.msgs.iter().enumerate() {
            if j != idx && w.st == St::Waiting && !w.enc {
                must!(
                    w.prio < m.prio || (w.prio == m.prio && j > idx),
                    &["E13"],
                    "priority-order",
                    "a message of priority {} (#{idx}) left while one of priority {} (#{j}) was still waiting",
                    m.prio,
                    w.prio
                );
            }
        }
        Ok(())
    }
    fn prio_checked(&self) -> bool {
        // exact only if the outgoing buffer is drained after every operation
        self.h.skip & 0x8000_0000 != 0
    }

    fn broker_got(&mut self, chan: Chan, p: R) {
        // a repeated PUBLISH replaces the unanswered original
        if let R::Publish { pid, .. } = &p {
            let pid = *pid;
            self.pending.retain(|(_, q)| !matches!(q, R::Publish { pid: x, .. } if *x == pid));
        } else {
            let key = |r: &R| match r {
                R::Ack { kind, pid, .. } => Some((*kind, *pid)),
                R::Subscribe { pid, .. } => Some((8, *pid)),
                R::Unsubscribe { pid, .. } => Some((10, *pid)),
                _ => None,
            };
            let k = key(&p);
            if k.is_some() {
                self.pending.retain(|(_, q)| key(q) != k);
            }
        }
        self.pending.push_back((chan, p));
    }

    // -------------------------------------------------------------- incoming

    /// The broker's answer to a packet, as the model must see it.
    fn answer(&mut self, p: &R, code: u8) -> R {
        let c5 = |c: u8, v5: bool| if v5 { c } else { 0 };
        match p {
            R::Publish { qos: 1, pid, .. } => R::Ack { kind: 4, pid: *pid, code: c5(code, self.v5), props: self.ack_props(code) },
            R::Publish { pid, .. } => R::Ack { kind: 5, pid: *pid, code: c5(code, self.v5), props: self.ack_props(code) },
            R::Ack { kind: 6, pid, .. } => R::Ack { kind: 7, pid: *pid, code: if self.v5 && code >= 0x80 { 0x92 } else { 0 }, props: self.ack_props(code) },
            R::Subscribe { pid, subs, .. } => R::Suback {
                pid: *pid,
                props: vec![],
                codes: subs.iter().enumerate().map(|(i, s)| if i % 3 == 2 && code != 0 { 0x80 } else { s.qos }).collect(),
            },
            R::Unsubscribe { pid, filters, .. } => R::Unsuback {
                pid: *pid,
                props: vec![],
                codes: if self.v5 { filters.iter().map(|_| if code != 0 { 0x11 } else { 0 }).collect() } else { vec![] },
            },
            _ => R::Pingresp,
        }
    }
    fn ack_props(&self, code: u8) -> Props {
        if self.v5 && code & 1 == 1 {
            vec![Prop { id: 0x1f, v: V::S("why".into()) }]
        } else {
            vec![]
        }
    }

    /// Model effect of a packet reaching the engine.
    fn expect_in(&mut self, chan: Chan, p: &R) {
        match p {
            R::Ack { kind: 4, pid, code, props } | R::Ack { kind: 7, pid, code, props } => {
                if let Some(idx) = self.by_id.remove(pid) {
                    let m = &mut self.msgs[idx];
                    m.st = St::Done;
                    m.resume = false;
                    *self.late_rel.entry(*pid).or_default() += std::mem::take(&mut m.rel_due);
                    self.exp.push_back(Exp::Published { id: *pid, code: *code, qos: m.qos, nprops: props.len() });
                    self.o.label("done:qos12");
                }
            }
            R::Ack { kind: 5, pid, code, props } => {
                if let Some(&idx) = self.by_id.get(pid) {
                    if *code >= 0x80 {
                        self.by_id.remove(pid);
                        self.msgs[idx].st = St::Done;
                        self.exp.push_back(Exp::Published { id: *pid, code: *code, qos: 2, nprops: props.len() });
                        self.o.label("done:refused");
                    } else {
                        self.order += 1;
                        let m = &mut self.msgs[idx];
                        m.st = St::Rel;
                        m.recs += 1;
                        m.rel_due += 1;
                        m.rel_order = self.order;
                        m.last_tx = self.clk.ms();
                        m.chan = chan;
                    }
                }
            }
            R::Publish { qos, pid, .. } => {
                let id = (*qos > 0).then_some(*pid);
                let repeat = *qos == 2 && self.h.auto_ack && self.in2.contains_key(pid);
                if repeat {
                    self.o.label("in:qos2-repeat");
                } else {
                    self.exp.push_back(Exp::PubRecv { id, chan });
                    self.exp.push_back(Exp::Message { p: p.clone() });
                }
                if *qos == 2 {
                    self.in2.insert(*pid, (chan, p.clone()));
                }
                if self.h.auto_ack && *qos > 0 {
                    let k = if *qos == 1 { 4 } else { 5 };
                    self.owed.entry(chan).or_default().push_back(R::ack(k, *pid));
                }
                self.o.label(["in:qos0", "in:qos1", "in:qos2"][*qos as usize]);
            }
            R::Ack { kind: 6, pid, .. } => {
                self.in2.remove(pid);
                self.exp.push_back(Exp::PubRel { id: *pid, chan });
                if self.h.auto_ack {
                    self.owed.entry(chan).or_default().push_back(R::ack(7, *pid));
                }
            }
            R::Suback { pid, codes, .. } => {
                self.reqs.remove(pid);
                self.exp.push_back(Exp::Subd { id: *pid, codes: codes.clone() });
            }
            R::Unsuback { pid, codes, .. } => {
                self.reqs.remove(pid);
                self.exp.push_back(Exp::Unsubd { id: *pid, codes: codes.clone() });
            }
            R::Pingresp => self.exp.push_back(Exp::Ping),
            R::Connack { sp, code, .. } => self.exp.push_back(Exp::Connected { code: *code, sp: *sp }),
            _ => {}
        }
    }

    fn feed(&mut self, chan: Chan, pkts: &[R], split: u8) -> V2 {
        for p in pkts {
            self.expect_in(chan, p);
        }
        let mut events = vec![];
        match chan {
            None => {
                let mut bytes = vec![];
                for p in pkts {
                    bytes.extend(refcodec::encode(p, self.v5, split % 3));
                }
                let n = (split as usize % 5) + 1;
                let step = (bytes.len() / n).max(1);
                for c in bytes.chunks(step) {
                    events.extend(self.e.handle_incoming(c));
                }
            }
            Some(s) => {
                for p in pkts {
                    let b = refcodec::encode(p, self.v5, split % 3);
                    match MqttPacket::from_bytes_with_version(&b, self.h.ver) {
                        Ok(ParseOk::Packet(pk, _)) => {
                            let (ev, resp) = self.e.ingest_stream_packet(pk, s);
                            events.extend(ev);
                            self.on_out_bytes(chan, &resp)?;
                        }
                        x => return v(&[], "undecodable", format!("{x:?}")),
                    }
                }
            }
        }
        self.match_events(events)
    }

    fn match_events(&mut self, events: Vec<MqttEvent>) -> V2 {
        for ev in events {
            let Some(x) = self.exp.pop_front() else {
                let ids: &'static [&'static str] = match ev {
                    MqttEvent::Published(_) => &["E01"],
                    MqttEvent::MessageReceived(_) | MqttEvent::PublishReceived { .. } | MqttEvent::PubRelReceived { .. } => &["E08"],
                    MqttEvent::Subscribed(_) | MqttEvent::Unsubscribed(_) => &["E11"],
                    _ => &["E01", "E08"],
                };
                return v(ids, "unexpected-event", format!("event without cause: {ev:?}"));
            };
            match (&x, &ev) {
                (Exp::Published { id, code, qos, nprops }, MqttEvent::Published(r)) => must!(
                    r.packet_id == Some(*id)
                        && r.reason_code == Some(*code)
                        && r.qos == *qos
                        && r.properties.as_ref().map_or(0, |p| p.len()) == *nprops,
                    &["E01"],
                    "published-event-wrong",
                    "acknowledged id {id} code {code} qos {qos} ({nprops} properties), event {r:?}"
                ),
                (Exp::PubRecv { id, chan }, MqttEvent::PublishReceived { packet_id, stream }) => must!(
                    packet_id == id && stream == chan,
                    &["E08"],
                    "publish-received-wrong",
                    "PUBLISH id {id:?} on {chan:?}, event {ev:?}"
                ),
                (Exp::Message { p }, MqttEvent::MessageReceived(m)) => {
                    let R::Publish { dup, qos, retain, topic, pid, props, payload } = p else { unreachable!() };
                    let mp: Props = m.properties.iter().map(conv::rprop).collect();
                    must!(
                        m.dup == *dup
                            && m.qos == *qos
                            && m.retain == *retain
                            && m.topic_name == *topic
                            && m.packet_id == (*qos > 0).then_some(*pid)
                            && m.payload == *payload
                            && mp == *props,
                        &["E08"],
                        "message-altered",
                        "broker sent {p:?}, application got {m:?}"
                    );
                }
                (Exp::PubRel { id, chan }, MqttEvent::PubRelReceived { packet_id, stream }) => must!(
                    packet_id == id && stream == chan,
                    &["E08"],
                    "pubrel-event-wrong",
                    "PUBREL id {id}, event {ev:?}"
                ),
                (Exp::Subd { id, codes }, MqttEvent::Subscribed(r)) => must!(
                    r.packet_id == *id && r.reason_codes == *codes,
                    &["E11"],
                    "suback-event-wrong",
                    "SUBACK id {id} {codes:?}, event {r:?}"
                ),
                (Exp::Unsubd { id, codes }, MqttEvent::Unsubscribed(r)) => must!(
                    r.packet_id == *id && r.reason_codes == *codes,
                    &["E11"],
                    "unsuback-event-wrong",
                    "UNSUBACK id {id} {codes:?}, event {r:?}"
                ),
                (Exp::Ping, MqttEvent::PingResponse(_)) => {}
                (Exp::Connected { code, sp }, MqttEvent::Connected(r)) => must!(
                    r.reason_code == *code && r.session_present == *sp,
                    &["E04"],
                    "connected-event-wrong",
                    "CONNACK {code} {sp}, event {r:?}"
                ),
                _ => {
                    let ids: &'static [&'static str] = match x {
                        Exp::Published { .. } => &["E01"],
                        Exp::PubRecv { .. } | Exp::Message { .. } | Exp::PubRel { .. } => &["E08"],
                        Exp::Subd { .. } | Exp::Unsubd { .. } => &["E11"],
                        _ => &["E04"],
                    };
                    return v(ids, "event-mismatch", format!("got {ev:?} instead of the event that was due"));
                }
            }
        }
        if let Some(x) = self.exp.front() {
            let (ids, what): (&'static [&'static str], String) = match x {
                Exp::Published { id, .. } => (&["E01"], format!("no Published event for id {id}")),
                Exp::PubRecv { id, .. } => (&["E08"], format!("PUBLISH {id:?} was not reported")),
                Exp::Message { p } => (&["E08"], format!("{p:?} was not delivered")),
                Exp::PubRel { id, .. } => (&["E08"], format!("PUBREL {id} was not reported")),
                Exp::Subd { id, .. } | Exp::Unsubd { id, .. } => (&["E11"], format!("no completion event for request {id}")),
                Exp::Ping => (&["E06"], "no ping response event".into()),
                Exp::Connected { .. } => (&["E04"], "no Connected event".into()),
            };
            return v(ids, "event-missing", what);
        }
        Ok(())
    }

    // ----------------------------------------------------------- connection

    fn lose(&mut self, reset: bool, lost: bool, torn: u8) -> V2 {
        if !self.connected {
            return Ok(());
        }
        if torn > 0 {
            let p = R::Publish { dup: false, qos: 1, retain: false, topic: "torn/topic".into(), pid: 7, props: vec![], payload: vec![0x20; 60] };
            let b = refcodec::encode(&p, self.v5, 0);
            let ev = self.e.handle_incoming(&b[..(torn as usize).min(b.len() - 1)]);
            self.match_events(ev)?;
            self.o.label("lost:within-a-packet");
        }
        if reset {
            if !lost {
                self.drain()?;
            }
            self.e.reset_for_new_transport();
            for m in self.msgs.iter_mut() {
                if m.st == St::Waiting && !m.enc {
                    // may have been in the discarded buffer
                    m.st = St::Maybe;
                    self.o.label("lost-in-buffer");
                }
                // the PUBREL of the discarded buffer is sent again on resume
                m.rel_due = 0;
            }
            self.late_rel.clear();
            for r in self.reqs.values_mut() {
                if r.seen == 0 {
                    r.maybe = true;
                }
            }
            self.owed.clear();
        } else {
            // bytes that left may still be lost in the network
            self.drain()?;
            self.e.handle_connection_lost();
        }
        self.pending.clear();
        self.connected = false;
        self.timers_exact = false;
        self.o.label("lost");
        must!(!self.e.is_connected(), &["E07", "E04"], "still-connected", "is_connected() after connection loss");
        Ok(())
    }

    fn reconnect(&mut self, present: bool, rmax: Option<u16>, code: u8) -> V2 {
        if self.connected {
            return Ok(());
        }
        let first = !self.ever_connected;
        let code = if code == 0 || self.v5 { code } else { 5 };
        let present = present && !first && code == 0 && self.h.ver != 3;
        self.clk.advance_ms(1);
        self.e.connect();
        self.ever_connected = true;
        // the logical channels of the old connection are gone
        for m in self.msgs.iter_mut().filter(|m| m.st != St::Done) {
            m.chan = None;
        }
        for r in self.reqs.values_mut() {
            r.chan = None;
        }
        let out = self.e.take_outgoing();
        let pk = refcodec::decode_all(&out, self.v5);
        match pk.as_deref() {
            Ok([R::Connect { .. }]) => {}
            x => {
                return v(
                    &["E04", "E10"],
                    "connect-not-first",
                    format!("connect() must queue exactly one CONNECT, got {x:?}"),
                )
            }
        }
        let mut props = vec![];
        if self.v5 && code == 0 {
            if let Some(m) = rmax {
                props.push(Prop { id: 0x21, v: V::H(m.max(1)) });
            }
        }
        if code == 0 {
            self.connected = true;
            self.conn_no += 1;
            self.limit = match (self.v5, rmax) {
                (true, Some(m)) => m.max(1) as usize,
                _ => if self.h.rm == 0 { 65535 } else { self.h.rm as usize },
            };
            for m in self.msgs.iter_mut() {
                m.tx_conn = 0;
            }
            if present {
                self.o.label("resumed");
                self.resuming = true;
                for m in self.msgs.iter_mut() {
                    m.resume = matches!(m.st, St::Sent | St::Rel);
                }
                for r in self.reqs.values_mut() {
                    r.resume = true;
                }
            } else {
                if self.conn_no > 1 {
                    self.o.label("not-resumed");
                    self.just_connected_fresh = true;
                }
                self.in2.clear();
                if self.v5 {
                    for m in self.msgs.iter_mut() {
                        if matches!(m.st, St::Sent | St::Rel) {
                            m.st = St::Dropped;
                            self.by_id.remove(&m.id);
                        } else if m.st == St::Maybe && self.by_id.get(&m.id).is_some() {
                            self.by_id.remove(&m.id);
                        }
                    }
                    self.reqs.clear();
                }
            }
        }
        self.feed(None, &[R::Connack { sp: present, code, props }], 0)?;
        must!(
            self.e.is_connected() == (code == 0),
            &["E04", "E07"],
            "connected-state",
            "CONNACK code {code}, is_connected() = {}",
            self.e.is_connected()
        );
        // look at what follows the CONNACK at once
        self.drain()
    }

    fn quiesce(&mut self) -> V2 {
        if !self.connected {
            return Ok(());
        }
        for _ in 0..10_000 {
            let before = self.msgs.iter().filter(|m| matches!(m.st, St::Waiting | St::Maybe)).count();
            self.drain()?;
            let ev = self.e.handle_incoming(&[]);
            self.match_events(ev)?;
            self.drain()?;
            let after = self.msgs.iter().filter(|m| matches!(m.st, St::Waiting | St::Maybe)).count();
            if after == before {
                break;
            }
        }
        // a Maybe message may hold a slot without our knowledge (v5, not resumed: discarded)
        let out = self.outstanding();
        let stuck = self.msgs.iter().filter(|m| m.st == St::Waiting && !m.enc).count();
        let maybe = self.msgs.iter().filter(|m| m.st == St::Maybe && m.qos > 0).count();
        must!(
            stuck == 0 || out + maybe >= self.limit,
            &["E02", "E01"],
            "stalled-below-limit",
            "{stuck} accepted messages are not sent although only {out} of {} slots are in use",
            self.limit
        );
        self.o.label("quiesced");
        Ok(())
    }

    fn tick(&mut self, ms: u32) -> V2 {
        self.drain()?;
        self.clk.advance_ms(ms as u64);
        let now = self.now();
        let to = self.h.timeout_ms as u64;
        if self.connected && !self.v5 && self.timers_exact {
            let due = self
                .msgs
                .iter()
                .filter(|m| matches!(m.st, St::Sent | St::Rel))
                .map(|m| m.last_tx)
                .chain(self.reqs.values().filter(|r| r.seen > 0).map(|r| r.last_tx))
                .min();
            if let Some(d) = due {
                let nt = self.e.next_tick_at().map(|t| t.saturating_duration_since(Instant::now()).as_millis() as u64);
                must!(
                    nt.is_some_and(|t| now + t <= (d + to).max(now)),
                    &["E05"],
                    "next-tick-too-late",
                    "retransmission due at {} ms, next_tick_at {nt:?} ms after {now}",
                    d + to
                );
            }
        }
        let due: BTreeSet<usize> = self
            .msgs
            .iter()
            .enumerate()
            .filter(|(_, m)| matches!(m.st, St::Sent | St::Rel) && now - m.last_tx >= to)
            .map(|(i, _)| i)
            .collect();
        let ev = self.e.handle_tick(Instant::now());
        self.match_events(ev)?;
        let before: Vec<u64> = self.msgs.iter().map(|m| m.last_tx).collect();
        self.allow_timer = true;
        let r = self.drain();
        self.allow_timer = false;
        r?;
        if self.connected && !self.v5 && self.timers_exact {
            for i in due {
                must!(
                    self.msgs[i].last_tx == now && before[i] != now,
                    &["E05", "E01"],
                    "retransmission-missing",
                    "id {} ({:?}) is unacknowledged for {} ms (timeout {to}) and was not retransmitted",
                    self.msgs[i].id,
                    self.msgs[i].st,
                    now - before[i]
                );
            }
            if let Some(t) = self.e.next_tick_at() {
                must!(t > Instant::now(), &["E05"], "busy-tick", "next_tick_at is not in the future after handle_tick");
            }
        }
        Ok(())
    }

    fn ack_one(&mut self, n: usize, code: u8) -> V2 {
        if self.pending.is_empty() || !self.connected {
            return Ok(());
        }
        let (chan, p) = self.pending.remove(n % self.pending.len()).unwrap();
        let a = self.answer(&p, code);
        self.feed(chan, &[a], code)
    }

    fn ack_all(&mut self, split: u8) -> V2 {
        if !self.connected {
            return Ok(());
        }
        let all: Vec<(Chan, R)> = self.pending.drain(..).collect();
        let mut batch = vec![];
        for (chan, p) in all {
            let a = self.answer(&p, 0);
            if chan.is_none() {
                batch.push(a);
            } else {
                self.feed(chan, &[a], split)?;
            }
        }
        if !batch.is_empty() {
            self.feed(None, &batch, split)?;
        }
        Ok(())
    }

    fn op_in(&mut self, acts: &[InAct], split: u8, chan: Option<u8>) -> V2 {
        if !self.connected {
            return Ok(());
        }
        let chan = chan.map(|c| c as u64);
        let mut in2: BTreeMap<u16, (Chan, R)> = self.in2.clone();
        let mut batch = vec![];
        for a in acts {
            match a {
                InAct::Pub { qos, retain, id, len, topic: t, props } => {
                    let id = (*id).max(1);
                    if *qos == 2 && in2.contains_key(&id) {
                        continue;
                    }
                    if *qos == 1 && in2.contains_key(&id) {
                        continue;
                    }
                    let p = R::Publish {
                        dup: false,
                        qos: *qos,
                        retain: *retain,
                        topic: topic(*t),
                        pid: if *qos > 0 { id } else { 0 },
                        props: gen_uprops(self.v5, *props),
                        payload: vec![id as u8; *len as usize],
                    };
                    if *qos == 2 {
                        in2.insert(id, (chan, p.clone()));
                    }
                    batch.push(p);
                }
                InAct::Dup2(n) => {
                    if !self.h.auto_ack || in2.is_empty() {
                        continue;
                    }
                    let (_, p) = in2.values().nth(*n as usize % in2.len()).unwrap();
                    let mut p = p.clone();
                    if let R::Publish { dup, .. } = &mut p {
                        *dup = true;
                    }
                    batch.push(p);
                }
                InAct::Rel(n) => {
                    if in2.is_empty() {
                        continue;
                    }
                    let id = *in2.keys().nth(*n as usize % in2.len()).unwrap();
                    in2.remove(&id);
                    batch.push(R::ack(6, id));
                }
                InAct::StrayRel(id) => {
                    let id = (*id).max(1);
                    if !in2.contains_key(&id) {
                        batch.push(R::ack(6, id));
                    }
                }
                InAct::StrayAck { kind, id } => {
                    let id = (*id).max(1);
                    if !self.by_id.contains_key(&id)
                        && !self.reqs.contains_key(&id)
                        && !self.msgs.iter().any(|m| m.id == id && m.st == St::Maybe)
                    {
                        self.o.label("stray-ack");
                        batch.push(R::ack([4, 5, 7][*kind as usize % 3], id));
                    }
                }
                InAct::Pingresp => batch.push(R::Pingresp),
            }
        }
        self.feed(chan, &batch, split)
    }

    fn op(&mut self, op: &Op) -> V2 {
        match op {
            Op::Pub(p) => self.op_pub(p)?,
            Op::PubEnc(p, c) => self.op_pub_enc(p, *c)?,
            Op::Sub { n, enc, chan } => self.op_sub(*n, false, *enc, *chan)?,
            Op::Unsub { n, enc, chan } => self.op_sub(*n, true, *enc, *chan)?,
            Op::Drain => self.drain()?,
            Op::Ack { n, code } => self.ack_one(*n as usize, *code)?,
            Op::AckAll { split } => self.ack_all(*split)?,
            Op::DupRec(n) => {
                let rel: Vec<(Chan, u16)> =
                    self.msgs.iter().filter(|m| m.st == St::Rel && m.rel_due == 0).map(|m| (m.chan, m.id)).collect();
                if self.connected && !rel.is_empty() {
                    let (c, id) = rel[*n as usize % rel.len()];
                    self.o.label("dup-pubrec");
                    self.feed(c, &[R::ack(5, id)], 0)?;
                }
            }
            Op::In { acts, split, chan } => self.op_in(acts, *split, *chan)?,
            Op::Wait { ms } => {
                self.drain()?;
                self.clk.advance_ms(*ms as u64);
            }
            Op::Tick { ms } => self.tick(*ms)?,
            Op::Lose { reset, lost, torn } => self.lose(*reset, *lost, *torn)?,
            Op::Reconnect { present, rmax, code } => self.reconnect(*present, *rmax, *code)?,
            Op::Quiesce => self.quiesce()?,
            Op::SkipIds(n) => {
                if self.ever_connected {
                    for _ in 0..*n {
                        match self.e.next_packet_id() {
                            Ok(id) => self.fresh_id_check(id, "next_packet_id")?,
                            Err(e) => return v(&["E03"], "no-packet-id", format!("no identifier: {e:?}")),
                        }
                    }
                }
            }
            Op::Ping => {
                if self.connected {
                    let _ = self.e.try_send_ping();
                }
            }
        }
        if self.prio_checked() {
            self.drain()?;
        }
        Ok(())
    }

    /// The broker becomes cooperative: everything accepted must complete.
    fn finish(&mut self) -> V2 {
        if !self.connected {
            self.reconnect(true, None, 0)?;
        }
        let total = self.msgs.len() + self.reqs.len() + 10;
        for _ in 0..(6 * total) {
            self.quiesce()?;
            if self.pending.is_empty() {
                if self.v5 {
                    break;
                }
                // what was lost with an earlier connection comes back by timeout
                let open = self.msgs.iter().any(|m| matches!(m.st, St::Sent | St::Rel | St::Maybe)) || !self.reqs.is_empty();
                if !open {
                    break;
                }
                self.tick(self.h.timeout_ms + 1)?;
                if self.pending.is_empty() {
                    break;
                }
            }
            self.ack_all(1)?;
        }
        self.quiesce()?;
        for m in &self.msgs {
            match m.st {
                St::Done | St::Dropped => {}
                St::Maybe if m.qos == 0 || self.v5 => {}
                st => {
                    return v(
                        &["E01", "E02"],
                        "message-never-completed",
                        format!(
                            "QoS {} message id {} is still {st:?} after the broker answered everything ({} outstanding, limit {})",
                            m.qos,
                            m.id,
                            self.outstanding(),
                            self.limit
                        ),
                    )
                }
            }
        }
        for (id, r) in &self.reqs {
            must!(
                r.maybe,
                &["E11"],
                "request-never-completed",
                "request {id} ({}) never completed",
                r.pkt.kind_name()
            );
        }
        Ok(())
    }
}

pub fn run_hist(h: &Hist, want: &'static str, o: &mut Obs) -> Res {
    let mut s = Sim::new(h);
    let r = (|| -> V2 {
        s.reconnect(false, None, 0)?;
        let skip = h.skip & 0x7fff_ffff;
        if skip > 0 {
            s.op(&Op::SkipIds(skip))?;
        }
        for op in &h.ops {
            s.op(op)?;
        }
        s.finish()
    })();
    let labels = std::mem::take(&mut s.o);
    for (k, n) in labels.labels {
        o.add(k, n);
    }
    match r {
        Ok(()) => Ok(()),
        Err((ids, f)) => {
            if ids.contains(&want) {
                Err(f)
            } else {
                o.label("stopped:other-property");if std::env::var("VH_DEV").is_ok() { eprintln!("STOP {:?} {} {}", ids, f.sig, f.msg); }
                o.inconclusive = true;
                Ok(())
            }
        }
    }
}

// ----------------------------------------------------------------- generators

#[derive(Clone, Copy)]
pub struct Prof {
    pub vers: &'static [u8],
    /// weights: Pub, PubEnc, Sub, Unsub, Drain, Ack, AckAll, DupRec, In, Wait, Tick, Lose+Reconnect, Quiesce, Skip, Ping
    pub w: [u32; 15],
    pub ops: usize,
    pub streams: bool,
    pub small_rm: bool,
    pub small_out: bool,
    pub qos0: bool,
    pub wrap: bool,
    pub prio: bool,
    pub manual: bool,
}

fn gen_pub(s: &mut Src, p: &Prof) -> PubSpec {
    PubSpec {
        qos: if p.qos0 { s.below(3) as u8 } else { 1 + s.below(2) as u8 },
        retain: s.chance(1, 4),
        topic: s.below(6) as u8,
        len: if s.chance(1, 10) { s.below(400) as u16 } else { s.below(6) as u16 },
        prio: if p.prio { *s.pick(&[128u8, 0, 255, 5, 127, 129]) } else { 128 },
        nprops: if s.chance(1, 4) { s.below(5) as u8 } else { 0 },
    }
}

fn gen_chan(s: &mut Src, p: &Prof) -> Option<u8> {
    if p.streams && s.chance(2, 3) {
        Some(s.below(4) as u8)
    } else {
        None
    }
}

pub fn gen_hist(s: &mut Src, p: &Prof) -> Hist {
    let ver = *s.pick(p.vers);
    let timeout_ms = *s.pick(&[5000u32, 1000, 200, 20000]);
    let rm = if p.small_rm { *s.pick(&[3u16, 1, 2, 5, 10, 65535]) } else { *s.pick(&[65535u16, 20, 0, 3]) };
    let max_out = if p.small_out { *s.pick(&[1000u16, 1, 2, 4]) } else { 1000 };
    let mut skip = 0u32;
    if p.wrap {
        skip = match s.below(4) {
            0 => 0,
            1 => 65535 - s.below(12) as u32,
            2 => 65535 * 2 - s.below(12) as u32,
            _ => s.below(70000) as u32,
        };
    }
    if p.prio {
        skip |= 0x8000_0000;
    }
    let auto_ack = !p.manual || s.chance(2, 3);
    let n = if s.thorough { p.ops * 2 } else { p.ops };
    let ops = s.vec(0, n * 3, n, |s| {
        let k = s.weighted(&p.w);
        match k {
            0 => Op::Pub(gen_pub(s, p)),
            1 => {
                let c = gen_chan(s, p);
                Op::PubEnc(gen_pub(s, p), c)
            }
            2 => Op::Sub { n: 1 + s.below(4) as u8, enc: p.streams && s.bool(), chan: gen_chan(s, p) },
            3 => Op::Unsub { n: 1 + s.below(4) as u8, enc: p.streams && s.bool(), chan: gen_chan(s, p) },
            4 => Op::Drain,
            5 => Op::Ack { n: s.below(64) as u16, code: *s.pick(&[0u8, 0, 0, 0x10, 0x80, 0x97, 0x01]) },
            6 => Op::AckAll { split: s.below(15) as u8 },
            7 => Op::DupRec(s.below(16) as u16),
            8 => Op::In {
                acts: s.vec(1, 12, 3, |s| match s.below(12) {
                    0..=5 => InAct::Pub {
                        qos: s.below(3) as u8,
                        retain: s.bool(),
                        id: if s.chance(3, 4) { s.range(1, 6) as u16 } else { s.u16() },
                        len: s.below(40) as u16,
                        topic: s.below(6) as u8,
                        props: s.below(5) as u8,
                    },
                    6 | 7 => InAct::Dup2(s.below(8) as u16),
                    8 | 9 => InAct::Rel(s.below(8) as u16),
                    10 => InAct::StrayAck { kind: s.below(3) as u8, id: s.range(1, 40) as u16 },
                    _ => {
                        if s.bool() {
                            InAct::StrayRel(s.range(1, 9) as u16)
                        } else {
                            InAct::Pingresp
                        }
                    }
                }),
                split: s.below(15) as u8,
                chan: gen_chan(s, p),
            },
            9 => Op::Wait { ms: s.below(timeout_ms as u64 * 2) as u32 },
            10 => Op::Tick {
                ms: match s.below(4) {
                    0 => timeout_ms,
                    1 => timeout_ms - 1,
                    2 => timeout_ms / 2,
                    _ => s.below(timeout_ms as u64 * 3) as u32,
                },
            },
            11 => {
                // lose and come back are generated together most of the time
                if s.chance(1, 3) {
                    Op::Reconnect {
                        present: s.chance(2, 3),
                        rmax: s.opt(|s| *s.pick(&[2u16, 1, 3, 8, 65535])),
                        code: if s.chance(1, 6) { 0x88 } else { 0 },
                    }
                } else {
                    Op::Lose { reset: s.bool(), lost: s.chance(1, 3), torn: if s.chance(1, 3) { s.range(1, 60) as u8 } else { 0 } }
                }
            }
            12 => Op::Quiesce,
            13 => Op::SkipIds(s.below(40) as u32),
            _ => Op::Ping,
        }
    });
    // after a loss, come back: insert reconnects so that most of the history is connected
    let mut out = vec![];
    let mut r = 0u64;
    for op in ops {
        let lose = matches!(op, Op::Lose { .. });
        out.push(op);
        if lose {
            r += 1;
            if s.chance(2, 3) {
                out.push(Op::Reconnect {
                    present: s.chance(2, 3),
                    rmax: if s.chance(1, 3) { Some(*s.pick(&[2u16, 1, 3, 8])) } else { None },
                    code: 0,
                });
            }
        }
    }
    let _ = r;
    Hist { ver, auto_ack, rm, max_out, timeout_ms, skip, ops: out }
}

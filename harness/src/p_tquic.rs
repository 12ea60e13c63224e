//! Q01: the QUIC client that runs in a tokio task.  The check is the broker, behind a real quinn server.
use crate::conv;
use crate::core::{fail, Fail, Obs, Property, Res, Src, Sub};
use crate::ensure;
use crate::p_tls;
use crate::refcodec::{self as rc, Prop, RSub, R, V};
use flowsdk::mqtt_client::engine::MqttEvent;
use flowsdk::mqtt_client::tokio_quic_client::TokioQuicMqttClient;
use flowsdk::mqtt_client::{MqttClientOptions, PublishCommand, SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_serde::mqttv5::common::properties::Property as FP;
use flowsdk::mqtt_serde::mqttv5::publishv5::MqttPublish;
use flowsdk::mqtt_serde::mqttv5::subscribev5::TopicSubscription;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::net::SocketAddr;
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};
use tokio::time::{timeout, Instant};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Cmd {
    Sub(Vec<(String, u8)>, Vec<Prop>),
    Unsub(Vec<String>, Vec<Prop>),
    Pub { topic: String, qos: u8, retain: bool, len: u32, props: Vec<Prop> },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct In {
    qos: u8,
    retain: bool,
    len: u32,
    props: Vec<Prop>,
    /// on the stream of: 0 the session, 1 the publishes, 2 the subscriptions
    on: u8,
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Way {
    /// the broker closes the connection
    Peer(u32),
    /// the application disconnects, then the broker closes
    Asked(u32),
    /// a DISCONNECT of the broker, which then closes
    Told(u32),
    /// the application just connects again
    Again,
}
#[derive(Debug, Serialize, Deserialize)]
enum Step {
    Batch { cmds: Vec<Cmd>, msgs: Vec<In>, order: Vec<u16>, codes: Vec<u8>, cut: Vec<u16>, props: Vec<Prop> },
    /// this many small messages at once
    Flood { n: u16, qos: u8 },
    /// 1: to an address that is not of this host
    Rebind(u8),
    Over { way: Way, cmds: Vec<Cmd>, bad: u8 },
    /// until the client has sent a PINGREQ
    Idle,
    /// the application reads no event for the next steps
    Deaf(bool),
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum End {
    Drop,
    Disconnect,
    Peer(u32),
}
#[derive(Debug, Serialize, Deserialize)]
struct Case {
    v5: bool,
    v6: bool,
    bind: bool,
    keep_alive: bool,
    key: u8,
    /// refused ways to connect before the first connection
    bad: u8,
    before: Vec<Cmd>,
    never: bool,
    steps: Vec<Step>,
    end: End,
}

fn len(s: &mut Src) -> u32 {
    match s.weighted(&[6, 3, 1]) {
        0 => s.below(40) as u32,
        1 => s.below(3000) as u32,
        _ => s.below(200_000) as u32,
    }
}
fn some_props(s: &mut Src, v5: bool) -> Vec<Prop> {
    if v5 && s.chance(1, 3) {
        vec![Prop { id: 0x26, v: V::P(rc::gen_string(s, 20), rc::gen_string(s, 20)) }]
    } else {
        vec![]
    }
}
fn cmd(s: &mut Src, v5: bool) -> Cmd {
    let topic = |s: &mut Src| *s.pick(&["a", "a/b", "c", "+/x", "d/#", "é"]);
    match s.weighted(&[3, 2, 6]) {
        0 => Cmd::Sub(s.vec(1, 3, 1, |s| (topic(s).to_string(), s.below(3) as u8)), some_props(s, v5)),
        1 => Cmd::Unsub(s.vec(1, 3, 1, |s| topic(s).to_string()), some_props(s, v5)),
        _ => Cmd::Pub { topic: rc::gen_string(s, 40) + "t", qos: s.below(3) as u8, retain: s.bool(), len: len(s), props: some_props(s, v5) },
    }
}
fn code(s: &mut Src) -> u32 {
    *s.pick(&[0, 1, 63, 64, 255, 70_000])
}
fn gen(s: &mut Src) -> Case {
    let v5 = s.bool();
    let keep_alive = s.chance(1, 30);
    Case {
        v5,
        v6: s.chance(1, 4),
        bind: s.bool(),
        keep_alive,
        key: s.below(p_tls::EXPIRED as u64) as u8,
        bad: if s.chance(1, 4) { s.below(4) as u8 } else { 0 },
        before: if s.chance(1, 4) { s.vec(0, 3, 1, |s| cmd(s, v5)) } else { vec![] },
        never: s.chance(1, 40),
        steps: s.vec(1, 8, 4, |s| match s.weighted(if keep_alive { &[5, 0, 0, 0, 5, 0] } else { &[20, 3, 5, 5, 0, 4] }) {
            0 => Step::Batch {
                cmds: s.vec(0, 10, 3, |s| cmd(s, v5)),
                msgs: s.vec(0, 6, 1, |s| In { qos: s.below(3) as u8, retain: s.bool(), len: len(s), props: some_props(s, v5), on: s.below(3) as u8 }),
                order: s.vec(16, 16, 16, |s| s.u16()),
                codes: s.vec(4, 4, 4, |s| if s.chance(1, 3) { s.u8() } else { 0 }),
                cut: s.vec(0, 6, 2, |s| s.below(50) as u16),
                props: some_props(s, v5),
            },
            1 => Step::Flood { n: s.range(1, 400) as u16, qos: s.below(3) as u8 },
            2 => Step::Rebind(s.chance(1, 4) as u8),
            3 => Step::Over {
                way: match s.below(4) {
                    0 => Way::Peer(code(s)),
                    1 => Way::Asked(code(s)),
                    2 => Way::Told(code(s)),
                    _ => Way::Again,
                },
                cmds: if s.bool() { s.vec(0, 3, 1, |s| cmd(s, v5)) } else { vec![] },
                bad: if s.chance(1, 4) { s.below(4) as u8 } else { 0 },
            },
            4 => Step::Idle,
            _ => Step::Deaf(s.chance(2, 3)),
        }),
        end: match s.below(3) {
            0 => End::Drop,
            1 => End::Disconnect,
            _ => End::Peer(code(s)),
        },
    }
}

const PATIENCE: Duration = Duration::from_secs(20);

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Connected(u8, bool, Vec<Prop>),
    Closed(bool, Option<u64>),
    Published(Option<u16>, Option<u8>, u8, Vec<Prop>),
    Subscribed(u16, Vec<u8>, Vec<Prop>),
    Unsubscribed(u16, Vec<u8>, Vec<Prop>),
    Message(String),
    Pong(bool),
}
impl Ev {
    /// Events of one class have an order.
    fn class(&self) -> u8 {
        match self {
            Ev::Connected(..) | Ev::Closed(..) => 0,
            Ev::Published(..) => 2,
            Ev::Subscribed(..) | Ev::Unsubscribed(..) => 3,
            Ev::Message(m) => 4 + m.as_bytes()[0] - b'0',
            Ev::Pong(_) => 7,
        }
    }
}
fn rp(ps: &[FP]) -> Vec<Prop> {
    ps.iter().map(conv::rprop).collect()
}
/// the events that the check is about
fn ev(e: MqttEvent, v5: bool) -> Option<Ev> {
    Some(match e {
        MqttEvent::Connected(r) => Ev::Connected(r.reason_code, r.session_present, rp(r.properties.as_deref().unwrap_or(&[]))),
        MqttEvent::TransportClosed { by_peer, error_code, .. } => Ev::Closed(by_peer, error_code),
        // whether QoS 0 is reported at all is the engine's choice
        MqttEvent::Published(r) if r.qos > 0 => Ev::Published(r.packet_id, r.reason_code, r.qos, rp(r.properties.as_deref().unwrap_or(&[]))),
        MqttEvent::Subscribed(r) => Ev::Subscribed(r.packet_id, r.reason_codes.clone(), rp(&r.properties)),
        MqttEvent::Unsubscribed(r) => Ev::Unsubscribed(r.packet_id, if v5 { r.reason_codes.clone() } else { vec![] }, rp(&r.properties)),
        MqttEvent::MessageReceived(m) => Ev::Message(text(&m)),
        MqttEvent::PingResponse(r) => Ev::Pong(r.success),
        _ => return None,
    })
}
fn text(m: &MqttPublish) -> String {
    let h = crate::core::hash64(&m.payload);
    let mut m = m.clone();
    let n = std::mem::take(&mut m.payload).len();
    format!("{} {n} {h:x} {m:?}", &m.topic_name.chars().next().unwrap_or('0'))
}
fn pattern(len: u32, salt: u32) -> Vec<u8> {
    (0..len).map(|k| (k.wrapping_mul(7).wrapping_add(salt) ^ (k >> 8)) as u8).collect()
}

/// A connection as the broker sees it.
struct Conn {
    k: quinn::Connection,
    rx: UnboundedReceiver<(u64, Result<R, String>)>,
    tx: BTreeMap<u64, quinn::SendStream>,
    txs: UnboundedReceiver<(u64, quinn::SendStream)>,
    /// packets of other streams than the one asked for
    kept: BTreeMap<u64, VecDeque<R>>,
    publish: Option<u64>,
    sub: Option<u64>,
}
async fn reader(mut r: quinn::RecvStream, n: u64, v5: bool, tx: UnboundedSender<(u64, Result<R, String>)>) {
    let mut buf = vec![];
    loop {
        loop {
            match rc::frame_len(&buf) {
                Ok(Some(n2)) => {
                    let f: Vec<u8> = buf.drain(..n2).collect();
                    let x = rc::decode(&f, v5).map_err(|x| format!("{x}: {:02x?}", &f[..f.len().min(60)]));
                    tx.send((n, x)).ok();
                }
                Ok(None) => break,
                Err(x) => {
                    tx.send((n, Err(format!("{x}: {:02x?}", &buf[..buf.len().min(30)])))).ok();
                    return;
                }
            }
        }
        match r.read_chunk(65536, true).await {
            Ok(Some(c)) => buf.extend_from_slice(&c.bytes),
            _ => return,
        }
    }
}
struct World<'a> {
    c: &'a Case,
    e: quinn::Endpoint,
    addr: SocketAddr,
    cl: TokioQuicMqttClient,
    conn: Option<Conn>,
    want: BTreeMap<u8, VecDeque<Ev>>,
    deaf: bool,
    next_in: u16,
    /// where the client's packets must come from, if that is known
    from: Option<SocketAddr>,
    salt: u32,
    pings: u32,
}
async fn soon<T>(f: impl std::future::Future<Output = T>, sig: &'static str, what: impl Fn() -> String) -> Result<T, Fail> {
    match timeout(PATIENCE, f).await {
        Ok(x) => Ok(x),
        Err(_) => fail(sig, what()),
    }
}
fn strip(r: &R) -> (R, u16) {
    let mut r = r.clone();
    let id = match &mut r {
        R::Subscribe { pid, .. } | R::Unsubscribe { pid, .. } | R::Publish { pid, .. } => std::mem::replace(pid, 0),
        _ => 0,
    };
    (r, id)
}
fn brief(r: &R) -> String {
    format!("{r:?}").chars().take(200).collect()
}
impl World<'_> {
    fn expect(&mut self, e: Ev) {
        self.want.entry(e.class()).or_default().push_back(e);
    }
    /// everything that is expected is reported, and nothing else
    async fn events(&mut self) -> Res {
        while self.want.values().any(|w| !w.is_empty()) {
            let want = &self.want;
            let cl = &mut self.cl;
            let e = soon(cl.next_event(), "no-event", || format!("nothing is reported; expected are {:?}", want.values().filter_map(|w| w.front()).collect::<Vec<_>>())).await?;
            let Some(e) = e else { return fail("events-end", "there are no more events") };
            self.event(e)?;
        }
        self.quiet()
    }
    fn event(&mut self, e: MqttEvent) -> Res {
        if let Some(e) = ev(e, self.c.v5) {
            let w = self.want.entry(e.class()).or_default().pop_front();
            ensure!(w.as_ref() == Some(&e), "event", "{e:?} is reported, expected is {w:?}");
        }
        Ok(())
    }
    fn quiet(&mut self) -> Res {
        use std::task::{Context, Poll, Waker};
        loop {
            let x = {
                let f = std::pin::pin!(self.cl.next_event());
                f.poll_now(&mut Context::from_waker(Waker::noop()))
            };
            match x {
                Poll::Ready(Some(e)) => {
                    if let Some(e) = ev(e, self.c.v5) {
                        return fail("event", format!("{e:?} is reported, expected is nothing"));
                    }
                }
                Poll::Ready(None) => return fail("events-end", "there are no more events"),
                Poll::Pending => return Ok(()),
            }
        }
    }
    async fn packet(&mut self, want: Option<u64>) -> Result<(u64, R), Fail> {
        if let Some(n) = want {
            if let Some(r) = self.conn.as_mut().unwrap().kept.get_mut(&n).and_then(|k| k.pop_front()) {
                return Ok((n, r));
            }
        }
        loop {
            let Some((n, r)) = self.one().await? else { continue };
            if want.is_none_or(|w| w == n) {
                return Ok((n, r));
            }
            self.conn.as_mut().unwrap().kept.entry(n).or_default().push_back(r);
        }
    }
    /// the next packet that is not a PINGREQ, which is answered
    async fn one(&mut self) -> Result<Option<(u64, R)>, Fail> {
        let c = self.conn.as_mut().unwrap();
        let k = &c.k;
        let x = soon(c.rx.recv(), "no-packet", || format!("no packet; connection: {:?}", k.close_reason())).await?;
        let Some((n, r)) = x else { return fail("no-packet", format!("the connection is over: {:?}", c.k.close_reason())) };
        let r = r.or_else(|x| fail("not-a-packet", x))?;
        if r == R::Pingreq && n == 0 && self.c.keep_alive {
            self.pings += 1;
            let b = rc::encode(&R::Pingresp, self.c.v5, 0);
            self.write(0, &b).await?;
            self.expect(Ev::Pong(true));
            return Ok(None);
        }
        Ok(Some((n, r)))
    }
    async fn write(&mut self, n: u64, b: &[u8]) -> Res {
        let c = self.conn.as_mut().unwrap();
        while !c.tx.contains_key(&n) {
            let Some((m, s)) = c.txs.recv().await else { return fail("no-stream", "the connection is over") };
            c.tx.insert(m, s);
        }
        let w = c.tx.get_mut(&n).unwrap();
        let r = soon(w.write_all(b), "stuck", || format!("the client takes no more of stream {n}")).await?;
        r.or_else(|x| fail("write", format!("stream {n}: {x}")))
    }
    /// ways to connect that must be refused, with nothing sent
    async fn refused(&mut self, bad: u8) -> Res {
        let r = match bad {
            1 => {
                // the other family
                let b = if self.c.v6 { "127.0.0.1:0" } else { "[::1]:0" };
                self.cl.connect_with_bind(self.addr, "localhost".into(), p_tls::client_config(), Some(b.parse().unwrap())).await
            }
            2 => self.cl.connect(self.addr, "not a name".into(), p_tls::client_config()).await,
            3 => {
                // not an address of this host
                let b = if self.c.v6 { "[2001:db8::1]:0" } else { "192.0.2.1:0" };
                self.cl.connect_with_bind(self.addr, "localhost".into(), p_tls::client_config(), Some(b.parse().unwrap())).await
            }
            _ => return Ok(()),
        };
        ensure!(r.is_err(), "bad-connect", "connect {bad} is accepted");
        Ok(())
    }
    async fn connect(&mut self) -> Res {
        let bind = self.c.bind.then(|| SocketAddr::new(self.addr.ip(), 0));
        let cfg = p_tls::client_config();
        let f = async {
            match bind {
                Some(b) => self.cl.connect_with_bind(self.addr, "localhost".into(), cfg, Some(b)).await,
                None => self.cl.connect(self.addr, "localhost".into(), cfg).await,
            }
        };
        let r = soon(f, "command-hangs", || "connect does not return".into()).await?;
        if let Err(x) = r {
            return fail("connect", x.to_string());
        }
        let k = soon(self.e.accept(), "no-connection", || "no connection arrives".into()).await?;
        let k = soon(async { k.unwrap().await }, "no-connection", || "the handshake does not end".into()).await?;
        let k = k.or_else(|x| fail("no-connection", x.to_string()))?;
        let (tx, rx) = unbounded_channel();
        let (ts, txs) = unbounded_channel();
        let (k2, v5) = (k.clone(), self.c.v5);
        tokio::spawn(async move {
            while let Ok((s, r)) = k2.accept_bi().await {
                let n = u64::from(r.id());
                ts.send((n, s)).ok();
                tokio::spawn(reader(r, n, v5, tx.clone()));
            }
        });
        self.conn = Some(Conn { k, rx, tx: BTreeMap::new(), txs, kept: BTreeMap::new(), publish: None, sub: None });
        let (n, r) = self.packet(None).await?;
        ensure!(n == 0, "first-packet", "{} on stream {n}", brief(&r));
        match &r {
            R::Connect { clean: true, client_id, keep_alive, will: None, user: None, pass: None, .. } if client_id == "q" && *keep_alive == 2 * self.c.keep_alive as u16 => {}
            _ => return fail("first-packet", brief(&r)),
        }
        let props = if self.c.v5 { vec![Prop { id: 0x26, v: V::P("k".into(), "v".into()) }] } else { vec![] };
        let b = rc::encode(&R::Connack { sp: false, code: 0, props: props.clone() }, self.c.v5, 0);
        self.write(0, &b).await?;
        self.from = None;
        self.expect(Ev::Connected(0, false, props));
        // the client may publish once it knows
        if self.deaf {
            self.connected().await
        } else {
            self.events().await
        }
    }
    /// Waits for the connection without reading events: a message of QoS 1 is answered.
    async fn connected(&mut self) -> Res {
        self.flood(1, 1).await
    }
    async fn send(&mut self, c: &Cmd) -> Result<(R, Result<Option<u16>, String>), Fail> {
        let salt = self.salt;
        self.salt += 1;
        let (r, f): (R, std::pin::Pin<Box<dyn std::future::Future<Output = Result<Option<u16>, String>> + '_>>) = match c {
            Cmd::Sub(t, p) => {
                let subs = t.iter().map(|(t, q)| TopicSubscription::new(t.clone(), *q, false, false, 0)).collect();
                let x = SubscribeCommand::new(None, subs, conv::props(p));
                (
                    R::Subscribe { pid: 0, props: p.clone(), subs: t.iter().map(|(t, q)| RSub { filter: t.clone(), qos: *q, nl: false, rap: false, rh: 0 }).collect() },
                    Box::pin(async { self.cl.subscribe(x).await.map(Some).map_err(|e| e.to_string()) }),
                )
            }
            Cmd::Unsub(t, p) => {
                let x = UnsubscribeCommand::new(None, t.clone(), conv::props(p));
                (R::Unsubscribe { pid: 0, props: p.clone(), filters: t.clone() }, Box::pin(async { self.cl.unsubscribe(x).await.map(Some).map_err(|e| e.to_string()) }))
            }
            Cmd::Pub { topic, qos, retain, len, props } => {
                let payload = pattern(*len, salt);
                let mut x = PublishCommand::simple(topic.clone(), payload.clone(), *qos, *retain);
                x.properties = conv::props(props);
                (
                    R::Publish { dup: false, qos: *qos, retain: *retain, topic: topic.clone(), pid: 0, props: props.clone(), payload },
                    Box::pin(async { self.cl.publish(x).await.map_err(|e| e.to_string()) }),
                )
            }
        };
        let x = soon(f, "command-hangs", || format!("{} does not return", brief(&r))).await?;
        Ok((r, x))
    }
    async fn rejected(&mut self, cmds: &[Cmd]) -> Res {
        for c in cmds {
            let (r, x) = self.send(c).await?;
            ensure!(x.is_err(), "not-connected", "{} is accepted without a connection", brief(&r));
        }
        Ok(())
    }
    fn message(&mut self, m: &In, on: u64, tag: u8) -> R {
        let _ = on;
        self.next_in = self.next_in.checked_add(1).unwrap_or(1);
        self.salt += 1;
        let payload = pattern(m.len, self.salt);
        let pid = if m.qos > 0 { self.next_in } else { 0 };
        let topic = format!("{tag}/é");
        let mut p = MqttPublish::new(m.qos, topic.clone(), Some(pid).filter(|x| *x > 0), payload.clone(), m.retain, false);
        p.properties = conv::props(&m.props);
        self.expect(Ev::Message(text(&p)));
        R::Publish { dup: false, qos: m.qos, retain: m.retain, topic, pid, props: m.props.clone(), payload }
    }
    /// the stream for it, and its number among the classes of messages
    fn stream(&self, on: u8) -> (u64, u8) {
        let c = self.conn.as_ref().unwrap();
        match (on, c.publish, c.sub) {
            (1, Some(n), _) => (n, 1),
            (2, _, Some(n)) => (n, 2),
            _ => (0, 0),
        }
    }
    async fn answer(&mut self, n: u64, want: R) -> Res {
        let (_, r) = self.packet(Some(n)).await?;
        ensure!(r == want, "answer", "{} on stream {n}, expected is {}", brief(&r), brief(&want));
        Ok(())
    }
    async fn flood(&mut self, n: u16, qos: u8) -> Res {
        self.flood_on(if n % 2 == 0 { 2 } else { 0 }, n, qos).await
    }
    async fn flood_on(&mut self, on: u8, n: u16, qos: u8) -> Res {
        let (on, tag) = self.stream(on);
        let mut b = vec![];
        let mut ids = vec![];
        for k in 0..n {
            let m = In { qos, retain: false, len: 1 + k as u32 % 8, props: vec![], on: 0 };
            let r = self.message(&m, on, tag);
            ids.push(strip(&r).1);
            b.extend(rc::encode(&r, self.c.v5, 0));
        }
        self.write(on, &b).await?;
        if qos > 0 {
            for id in &ids {
                self.answer(on, R::ack(3 + qos, *id)).await?;
            }
        }
        if qos == 2 {
            let b: Vec<u8> = ids.iter().flat_map(|id| rc::encode(&R::ack(6, *id), self.c.v5, 0)).collect();
            self.write(on, &b).await?;
            for id in &ids {
                self.answer(on, R::ack(7, *id)).await?;
            }
        }
        Ok(())
    }
    #[allow(clippy::too_many_arguments)]
    async fn batch(&mut self, cmds: &[Cmd], msgs: &[In], order: &[u16], codes: &[u8], cut: &[u16], props: &[Prop], o: &mut Obs) -> Res {
        let v5 = self.c.v5;
        let mut sent = vec![];
        for c in cmds {
            let (r, x) = self.send(c).await?;
            let id = match x {
                Ok(id) => id,
                Err(x) => return fail("command", format!("{} is refused: {x}", brief(&r))),
            };
            ensure!(id.is_some() != matches!(r, R::Publish { qos: 0, .. }) && id != Some(0), "packet-id", "{} has packet id {id:?}", brief(&r));
            sent.push((r, id.unwrap_or(0)));
        }
        let ids: HashSet<u16> = sent.iter().map(|x| x.1).filter(|x| *x > 0).collect();
        ensure!(ids.len() == sent.iter().filter(|x| x.1 > 0).count(), "packet-id", "packet ids {:?}", sent.iter().map(|x| x.1).collect::<Vec<_>>());
        let mut acks = vec![];
        for (k, (r, id)) in sent.iter().enumerate() {
            let is_pub = matches!(r, R::Publish { .. });
            let c = self.conn.as_ref().unwrap();
            let known = if is_pub { c.publish } else { c.sub };
            let (n, got) = match known {
                Some(n) => self.packet(Some(n)).await?,
                None => {
                    // the first on its stream; that of the other may come before
                    let other = if is_pub { c.sub } else { c.publish };
                    let early = c.kept.iter().find(|(n, k)| **n != 0 && Some(**n) != other && k.front().is_some_and(|x| matches!(x, R::Publish { .. }) == is_pub)).map(|x| *x.0);
                    match early {
                        Some(n) => self.packet(Some(n)).await?,
                        None => loop {
                            let (n, x) = self.packet(None).await?;
                            if n != 0 && Some(n) != other && matches!(x, R::Publish { .. }) == is_pub {
                                break (n, x);
                            }
                            self.conn.as_mut().unwrap().kept.entry(n).or_default().push_back(x);
                        },
                    }
                }
            };
            let c = self.conn.as_mut().unwrap();
            if is_pub {
                c.publish = Some(n);
            } else {
                c.sub = Some(n);
            }
            o.label(r.kind_name());
            let g = strip(&got);
            ensure!(g == (r.clone(), *id), "packet", "{} ({}) arrives, sent is {} ({id})", brief(&got), g.1, brief(r));
            let code = |set: &[u8]| if v5 { set[codes.get(k % 4).copied().unwrap_or(0) as usize % set.len()] } else { 0 };
            let props = props.to_vec();
            match got {
                R::Publish { qos: 0, .. } => {}
                R::Publish { qos, pid, .. } => acks.push((n, R::Ack { kind: 3 + qos, pid, code: code(rc::PUBACK5), props })),
                R::Subscribe { pid, subs, .. } => acks.push((n, R::Suback { pid, props, codes: vec![if v5 { code(rc::SUBACK5) } else { codes.first().unwrap_or(&0) % 3 }; subs.len()] })),
                R::Unsubscribe { pid, filters, .. } => acks.push((n, R::Unsuback { pid, props, codes: if v5 { vec![code(rc::UNSUBACK5); filters.len()] } else { vec![] } })),
                _ => unreachable!(),
            }
        }
        // the broker's packets: acknowledgements in any order, messages in theirs
        let mut all: Vec<(u64, R)> = vec![];
        let mut ms = VecDeque::from(msgs.to_vec());
        let mut k = 0;
        while !acks.is_empty() || !ms.is_empty() {
            let x = order.get(k % order.len().max(1)).copied().unwrap_or(0) as usize;
            k += 1;
            if acks.is_empty() || x % 3 == 0 && !ms.is_empty() {
                let m = ms.pop_front().unwrap();
                let (on, tag) = self.stream(m.on);
                let r = self.message(&m, on, tag);
                all.push((on, r));
            } else {
                all.push(acks.remove((x / 3) % acks.len()));
            }
        }
        let mut round = all;
        let mut cut = cut.to_vec();
        while !round.is_empty() {
            let mut bytes: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
            for (n, r) in &round {
                bytes.entry(*n).or_default().extend(rc::encode(r, v5, 0));
            }
            for (n, b) in bytes {
                let mut at = 0;
                for x in std::mem::take(&mut cut) {
                    let end = (at + x as usize).min(b.len());
                    self.write(n, &b[at..end]).await?;
                    if end > at && x % 8 == 0 {
                        tokio::time::sleep(Duration::from_millis(2)).await;
                    }
                    at = end;
                }
                self.write(n, &b[at..]).await?;
            }
            let mut next = vec![];
            for (n, r) in std::mem::take(&mut round) {
                o.label(r.kind_name());
                match r {
                    R::Ack { kind: 4, pid, code, props } => self.expect(Ev::Published(Some(pid), Some(code), 1, props)),
                    R::Ack { kind: 5, pid, code, props } if code >= 0x80 => self.expect(Ev::Published(Some(pid), Some(code), 2, props)),
                    R::Ack { kind: 5, pid, props, .. } => {
                        self.answer(n, R::ack(6, pid)).await?;
                        next.push((n, R::Ack { kind: 7, pid, code: 0, props }));
                    }
                    R::Ack { kind: 7, pid, code, props } => self.expect(Ev::Published(Some(pid), Some(code), 2, props)),
                    R::Ack { pid, .. } => self.answer(n, R::ack(7, pid)).await?,
                    R::Suback { pid, codes, props } => self.expect(Ev::Subscribed(pid, codes, props)),
                    R::Unsuback { pid, codes, props } => self.expect(Ev::Unsubscribed(pid, codes, props)),
                    R::Publish { qos, pid, .. } => {
                        if qos > 0 {
                            self.answer(n, R::ack(3 + qos, pid)).await?;
                        }
                        if qos == 2 {
                            next.push((n, R::ack(6, pid)));
                        }
                    }
                    _ => unreachable!(),
                }
            }
            round = next;
        }
        Ok(())
    }
    /// The broker closes; the client reports it.
    async fn close(&mut self, code: u32) -> Res {
        let c = self.conn.take().unwrap();
        c.k.close(code.into(), b"bye");
        self.expect(Ev::Closed(true, Some(code as u64)));
        if self.deaf {
            // at least the connection is over before the next
            tokio::time::sleep(Duration::from_millis(50)).await;
            Ok(())
        } else {
            self.events().await
        }
    }
    async fn disconnect(&mut self) -> Res {
        let r = soon(self.cl.disconnect(), "command-hangs", || "disconnect does not return".into()).await?;
        ensure!(r.is_ok(), "disconnect", "{r:?}");
        let (_, r) = self.packet(Some(0)).await?;
        ensure!(matches!(r, R::Disconnect { code: 0, .. }), "disconnect", "{} is sent", brief(&r));
        Ok(())
    }
    async fn rebind(&mut self, bad: u8) -> Res {
        let a = if bad == 1 { if self.c.v6 { "[2001:db8::1]:0" } else { "192.0.2.1:0" }.parse().unwrap() } else { SocketAddr::new(self.addr.ip(), 0) };
        let r = soon(self.cl.rebind(a), "command-hangs", || "rebind does not return".into()).await?;
        match r {
            Ok(x) => {
                ensure!(bad == 0, "bad-rebind", "rebind to {a} is accepted");
                ensure!(x.ip() == a.ip() && x.port() > 0, "rebind", "rebind to {a} returns {x}");
                self.from = Some(x);
            }
            Err(x) => {
                ensure!(bad == 1, "rebind", "rebind to {a} fails: {x}");
            }
        }
        Ok(())
    }
    async fn moved(&mut self) -> Res {
        let Some(a) = self.from else { return Ok(()) };
        let k = self.conn.as_ref().unwrap().k.clone();
        let t = Instant::now();
        while k.remote_address() != a {
            ensure!(t.elapsed() < PATIENCE, "not-moved", "the client's packets come from {}, not {a}", k.remote_address());
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        Ok(())
    }
}
trait PollNow: std::future::Future {
    fn poll_now(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context) -> std::task::Poll<Self::Output> {
        self.poll(cx)
    }
}
impl<F: std::future::Future> PollNow for F {}

async fn run(c: &Case, o: &mut Obs) -> Res {
    let mut opts = MqttClientOptions::builder().client_id("q").mqtt_version(conv::ver(c.v5)).clean_start(true).keep_alive(2 * c.keep_alive as u16).build();
    opts.max_event_count = 100_000;
    let cl = match TokioQuicMqttClient::new(opts) {
        Ok(x) => x,
        Err(x) => return fail("new", x.to_string()),
    };
    let mut sc = p_tls::server_config_with(true, false, c.key);
    sc.alpn_protocols = vec![b"mqtt".to_vec()];
    let qc = quinn::crypto::rustls::QuicServerConfig::try_from(sc).unwrap();
    let config = quinn::ServerConfig::with_crypto(Arc::new(qc));
    let ip = if c.v6 { "::1" } else { "127.0.0.1" }.parse().unwrap();
    let e = quinn::Endpoint::server(config, SocketAddr::new(ip, 0)).unwrap();
    let addr = e.local_addr().unwrap();
    let mut w = World { c, e, addr, cl, conn: None, want: BTreeMap::new(), deaf: false, next_in: 0, from: None, salt: 0, pings: 0 };
    w.rejected(&c.before).await?;
    w.refused(c.bad).await?;
    if c.never {
        o.label("never connected");
        o.nt();
        let World { cl, e, .. } = w;
        drop(e);
        drop(cl);
        let m = tokio::runtime::Handle::current().metrics();
        let t = Instant::now();
        while m.num_alive_tasks() > 0 {
            ensure!(t.elapsed() < PATIENCE, "task-stays", "the client's task does not end when the client is dropped");
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        return Ok(());
    }
    w.connect().await?;
    for s in &c.steps {
        match s {
            Step::Batch { cmds, msgs, order, codes, cut, props } => {
                o.nt_if(cmds.len() + msgs.len() > 0);
                w.batch(cmds, msgs, order, codes, cut, props, o).await?;
                if !cmds.is_empty() || msgs.iter().any(|m| m.qos > 0) {
                    w.moved().await?;
                }
            }
            Step::Flood { n, qos } => {
                o.label(if w.deaf && *n > 100 { "flood, no event read" } else { "flood" });
                w.flood(*n, *qos).await?;
            }
            Step::Rebind(bad) => {
                o.label("rebind");
                w.rebind(*bad).await?;
                w.flood(1, 1).await?;
                w.moved().await?;
            }
            Step::Over { way, cmds, bad } => {
                if w.deaf {
                    // everything sent so far has arrived before the end
                    for on in 0..3 {
                        w.flood_on(on, 1, 1).await?;
                    }
                }
                match way {
                    Way::Peer(n) => {
                        o.label("closed by the broker");
                        w.close(*n).await?;
                    }
                    Way::Asked(n) => {
                        o.label("disconnected");
                        w.disconnect().await?;
                        w.close(*n).await?;
                    }
                    Way::Told(n) => {
                        o.label("DISCONNECT of the broker");
                        if c.v5 {
                            let b = rc::encode(&R::Disconnect { code: 0x8b, props: vec![] }, true, 0);
                            w.write(0, &b).await?;
                            tokio::time::sleep(Duration::from_millis((*n % 3) as u64)).await;
                        }
                        w.close(*n).await?;
                    }
                    Way::Again => {
                        o.label("connected again");
                        w.conn = None;
                    }
                }
                if *way != Way::Again {
                    if !w.deaf {
                        w.rejected(cmds).await?;
                    }
                    w.refused(*bad).await?;
                }
                w.connect().await?;
            }
            Step::Idle => {
                let n = w.pings;
                while w.pings == n {
                    if let Some((n, r)) = w.one().await? {
                        w.conn.as_mut().unwrap().kept.entry(n).or_default().push_back(r);
                    }
                }
                o.label("PINGREQ");
            }
            Step::Deaf(x) => w.deaf = *x,
        }
        if !w.deaf {
            w.events().await?;
        }
    }
    w.events().await?;
    let left = w.conn.as_ref().unwrap().kept.values().flatten().next().cloned();
    ensure!(left.is_none(), "extra-packet", "{:?}", left);
    match c.end {
        End::Drop => {
            o.label("dropped");
            let World { cl, conn, .. } = w;
            drop(cl);
            let k = conn.unwrap().k;
            let r = timeout(PATIENCE, k.closed()).await;
            ensure!(matches!(&r, Ok(x) if !matches!(x, quinn::ConnectionError::TimedOut)), "connection-stays", "the connection does not end when the client is dropped: {r:?}");
        }
        End::Disconnect => w.disconnect().await?,
        End::Peer(n) => {
            w.deaf = false;
            w.close(n).await?;
        }
    }
    Ok(())
}

fn check(c: &Case, o: &mut Obs) -> Res {
    let mut c = serde_json::from_value::<Case>(serde_json::to_value(c).unwrap()).unwrap();
    if c.v6 && std::net::UdpSocket::bind("[::1]:0").is_err() {
        // no IPv6 here
        c.v6 = false;
    }
    o.label(if c.v6 { "IPv6" } else { "IPv4" });
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let r = rt.block_on(run(&c, o));
    rt.shutdown_timeout(Duration::from_secs(5));
    r
}

pub fn q01() -> Property {
    Property {
        id: "Q01",
        rule: "a command or a message was carried, or a client was dropped before it connected",
        assumptions: &["The loopback network; quinn, which the server uses, is correct."],
        subs: vec![Box::new(Sub { name: "client", quick: 8_000, thorough: 120_000, threads: 160, gen, check })],
    }
}

//! B02: the client that runs in a thread of its own.  The check is the broker.
use crate::conv;
use crate::core::{fail, Fail, Obs, Property, Res, Src, Sub};
use crate::ensure;
use crate::refcodec::{self as rc, Prop, RSub, R, V};
use flowsdk::mqtt_client::client::{ConnectionResult, PingResult, PublishResult, SubscribeResult, UnsubscribeResult};
use flowsdk::mqtt_client::{AsyncClientConfig, AsyncMqttClient, MqttClientOptions, MqttEventHandler};
use flowsdk::mqtt_serde::mqttv5::common::properties::Property as FP;
use flowsdk::mqtt_serde::mqttv5::publishv5::MqttPublish;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::time::{Duration, Instant};

#[derive(Debug, PartialEq)]
enum Ev {
    Connected(u8, bool, Vec<Prop>),
    Disconnected(Option<u8>),
    Published(Option<u16>, Option<u8>, u8, Vec<Prop>),
    Subscribed(u16, Vec<u8>, Vec<Prop>),
    Unsubscribed(u16, Vec<u8>, Vec<Prop>),
    Message(String),
    Pong(bool),
    Error(String),
    Lost,
    Attempt(u32),
    Other,
}
struct H(Sender<Ev>);
fn rp(ps: &[FP]) -> Vec<Prop> {
    ps.iter().map(conv::rprop).collect()
}
impl MqttEventHandler for H {
    fn on_connected(&mut self, r: &ConnectionResult) {
        let _ = self.0.send(Ev::Connected(r.reason_code, r.session_present, rp(r.properties.as_deref().unwrap_or(&[]))));
    }
    fn on_disconnected(&mut self, r: Option<u8>) {
        let _ = self.0.send(Ev::Disconnected(r));
    }
    fn on_published(&mut self, r: &PublishResult) {
        let _ = self.0.send(Ev::Published(r.packet_id, r.reason_code, r.qos, rp(r.properties.as_deref().unwrap_or(&[]))));
    }
    fn on_subscribed(&mut self, r: &SubscribeResult) {
        let _ = self.0.send(Ev::Subscribed(r.packet_id, r.reason_codes.clone(), rp(&r.properties)));
    }
    fn on_unsubscribed(&mut self, r: &UnsubscribeResult) {
        let _ = self.0.send(Ev::Unsubscribed(r.packet_id, r.reason_codes.clone(), rp(&r.properties)));
    }
    fn on_message_received(&mut self, p: &MqttPublish) {
        let _ = self.0.send(Ev::Message(format!("{p:?}")));
    }
    fn on_ping_response(&mut self, r: &PingResult) {
        let _ = self.0.send(Ev::Pong(r.success));
    }
    fn on_error(&mut self, e: &std::io::Error) {
        let _ = self.0.send(Ev::Error(e.to_string()));
    }
    fn on_peer_cert_received(&mut self, _: &[u8]) {
        let _ = self.0.send(Ev::Other);
    }
    fn on_connection_lost(&mut self) {
        let _ = self.0.send(Ev::Lost);
    }
    fn on_reconnect_attempt(&mut self, n: u32) {
        let _ = self.0.send(Ev::Attempt(n));
    }
    fn on_pending_operations_cleared(&mut self) {
        let _ = self.0.send(Ev::Other);
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Cmd {
    Sub(String, u8),
    Unsub(Vec<String>),
    Pub { topic: String, qos: u8, retain: bool, payload: Vec<u8> },
    Ping,
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Way {
    Ends,
    Malformed,
    Asked,
}
#[derive(Debug, Serialize, Deserialize)]
struct In {
    qos: u8,
    topic: String,
    payload: Vec<u8>,
    props: Vec<Prop>,
    again: bool,
}
#[derive(Debug, Serialize, Deserialize)]
enum Step {
    /// commands, answered in some order, with messages in between
    Batch { cmds: Vec<Cmd>, msgs: Vec<In>, order: Vec<u16>, codes: Vec<u8>, props: Vec<Prop>, cut: Vec<u16> },
    /// the connection ends; commands meanwhile; this many connections fail
    Over { way: Way, cmds: Vec<Cmd>, fails: u8, refuse: Option<u8>, sp: bool, props: Vec<Prop> },
    Auto(bool),
}
#[derive(Debug, Serialize, Deserialize)]
struct Case {
    v5: bool,
    clean: bool,
    auto_ack: bool,
    auto: bool,
    buffer: bool,
    cap: usize,
    max: u32,
    delay: u64,
    drop: bool,
    first: Step,
    steps: Vec<Step>,
}
fn cmd(s: &mut Src, offline: bool) -> Cmd {
    let topic = |s: &mut Src| *s.pick(&["a", "a/b", "c", "+/x", "d/#", "é"]);
    match s.weighted(if offline { &[3, 0, 7, 0] } else { &[4, 2, 8, 1] }) {
        0 => Cmd::Sub(topic(s).into(), s.below(3) as u8),
        1 => Cmd::Unsub(s.vec(1, 2, 1, |s| topic(s).to_string())),
        2 => Cmd::Pub {
            topic: rc::gen_string(s, 40) + "t",
            qos: s.below(3) as u8,
            retain: s.bool(),
            payload: if s.chance(1, 30) { s.blob(200_000) } else { rc::gen_data(s, 3000) },
        },
        _ => Cmd::Ping,
    }
}
fn some_props(s: &mut Src, v5: bool) -> Vec<Prop> {
    if v5 && s.bool() { vec![Prop { id: 0x26, v: V::P(rc::gen_string(s, 20), rc::gen_string(s, 20)) }] } else { vec![] }
}
fn over(s: &mut Src, v5: bool) -> Step {
    Step::Over {
        way: *s.pick(&[Way::Ends, Way::Ends, Way::Malformed, Way::Asked]),
        cmds: s.vec(0, 8, 2, |s| cmd(s, true)),
        fails: if s.bool() { 0 } else { s.below(4) as u8 },
        refuse: if s.chance(1, 5) { Some(s.u8()) } else { None },
        sp: s.bool(),
        props: some_props(s, v5),
    }
}
fn gen(s: &mut Src) -> Case {
    let v5 = s.chance(2, 3);
    Case {
        v5,
        clean: s.bool(),
        auto_ack: s.chance(3, 4),
        auto: s.chance(3, 4),
        buffer: s.chance(4, 5),
        cap: *s.pick(&[1000, 1000, 0, 1, 2, 4]),
        max: *s.pick(&[0, 0, 0, 1, 2, 5]),
        delay: *s.pick(&[1, 0, 5]),
        drop: s.bool(),
        first: over(s, v5),
        steps: s.vec(1, if s.thorough { 10 } else { 5 }, 4, |s| match s.weighted(&[7, 3, 1]) {
            0 => Step::Batch {
                cmds: s.vec(0, 8, 2, |s| cmd(s, false)),
                msgs: s.vec(0, 5, 1, |s| In { qos: s.below(3) as u8, topic: rc::gen_string(s, 40) + "t", payload: rc::gen_data(s, 3000), props: some_props(s, v5), again: s.chance(1, 3) }),
                order: s.vec(16, 16, 16, |s| s.u16()),
                codes: s.vec(4, 4, 4, |s| if s.chance(1, 3) { s.u8() } else { 0 }),
                props: some_props(s, v5),
                cut: s.vec(0, 6, 2, |s| s.below(50) as u16),
            },
            1 => over(s, v5),
            _ => Step::Auto(s.bool()),
        }),
    }
}

const PATIENCE: Duration = Duration::from_secs(15);
struct World<'a> {
    c: &'a Case,
    l: TcpListener,
    conn: Option<TcpStream>,
    buf: Vec<u8>,
    ev: Receiver<Ev>,
    cl: AsyncMqttClient,
    auto: bool,
    attempts: u32,
    subs: BTreeMap<String, u8>,
    /// publishes that wait for a connection
    wait: Vec<R>,
    held: HashSet<u16>,
    next_in: u16,
}
fn e<T>(r: std::io::Result<T>, what: &str) -> Result<T, Fail> {
    r.or_else(|e| fail("broker", format!("{what}: {e}")))
}
impl World<'_> {
    fn accept(&mut self) -> Res {
        let t = Instant::now();
        self.buf.clear();
        loop {
            match self.l.accept() {
                Ok((c, _)) => {
                    c.set_nonblocking(false).unwrap();
                    c.set_read_timeout(Some(PATIENCE)).unwrap();
                    c.set_write_timeout(Some(PATIENCE)).unwrap();
                    let _ = c.set_nodelay(true);
                    self.conn = Some(c);
                    return Ok(());
                }
                Err(_) if t.elapsed() < PATIENCE => std::thread::sleep(Duration::from_micros(200)),
                Err(_) => return fail("no-connection", format!("the client does not connect; {:?}", self.ev.try_iter().collect::<Vec<_>>())),
            }
        }
    }
    fn read(&mut self) -> Result<R, Fail> {
        let n = loop {
            match rc::frame_len(&self.buf) {
                Ok(Some(n)) => break n,
                Ok(None) => {}
                Err(x) => return fail("not-a-packet", format!("{x}: {:02x?}", &self.buf[..self.buf.len().min(30)])),
            }
            let mut b = [0u8; 65536];
            match e(self.conn.as_mut().unwrap().read(&mut b), "no packet")? {
                0 => return fail("ends", format!("the client ends the connection, after {:02x?}; {:?}", self.buf, self.ev.try_iter().collect::<Vec<_>>())),
                n => self.buf.extend(&b[..n]),
            }
        };
        let f: Vec<u8> = self.buf.drain(..n).collect();
        match rc::decode(&f, self.c.v5) {
            Ok(r) => Ok(r),
            Err(x) => fail("not-a-packet", format!("{x}: {:02x?}", &f[..f.len().min(60)])),
        }
    }
    fn write(&mut self, rs: &[R], cut: &[u16]) -> Res {
        let b: Vec<u8> = rs.iter().flat_map(|r| rc::encode(r, self.c.v5, 0)).collect();
        let mut at = 0;
        let c = self.conn.as_mut().unwrap();
        for n in cut {
            let end = (at + *n as usize).min(b.len());
            e(c.write_all(&b[at..end]), "write")?;
            if end > at && n % 8 == 0 {
                std::thread::sleep(Duration::from_millis(2));
            }
            at = end;
        }
        e(c.write_all(&b[at..]), "write")
    }
    /// the next event that is not an error
    fn event(&mut self) -> Result<Ev, Fail> {
        loop {
            match self.ev.recv_timeout(PATIENCE) {
                Ok(Ev::Error(_)) => {}
                Ok(x) => return Ok(x),
                Err(_) => return fail("no-event", "nothing is reported"),
            }
        }
    }
    fn want(&mut self, w: Ev) -> Res {
        match self.event() {
            Ok(x) => {
                ensure!(x == w, "event", "{x:?} is reported, not {w:?}");
                Ok(())
            }
            Err(f) => fail(f.sig, format!("{}; expected is {w:?}", f.msg)),
        }
    }
    fn send(&mut self, c: &Cmd) -> Res {
        e(
            match c {
                Cmd::Sub(t, q) => self.cl.subscribe(t, *q),
                Cmd::Unsub(t) => self.cl.unsubscribe(t.iter().map(|x| x.as_str()).collect()),
                Cmd::Pub { topic, qos, retain, payload } => self.cl.publish(topic, payload, *qos, *retain),
                Cmd::Ping => self.cl.ping(),
            },
            "command",
        )
    }
    /// what the broker must receive for it; the packet id is the client's choice
    fn packet(c: &Cmd) -> R {
        match c {
            Cmd::Sub(t, q) => R::Subscribe { pid: 0, props: vec![], subs: vec![RSub { filter: t.clone(), qos: *q, nl: false, rap: false, rh: 0 }] },
            Cmd::Unsub(t) => R::Unsubscribe { pid: 0, props: vec![], filters: t.clone() },
            Cmd::Pub { topic, qos, retain, payload } => R::Publish { dup: false, qos: *qos, retain: *retain, topic: topic.clone(), pid: 0, props: vec![], payload: payload.clone() },
            Cmd::Ping => R::Pingreq,
        }
    }
    fn strip(r: &R) -> (R, u16) {
        let mut r = r.clone();
        let id = match &mut r {
            R::Subscribe { pid, .. } | R::Unsubscribe { pid, .. } | R::Publish { pid, .. } => std::mem::replace(pid, 0),
            _ => 0,
        };
        (r, id)
    }
    fn ids(&self, got: &[R]) -> Res {
        let mut seen = HashSet::new();
        for r in got {
            let needs = matches!(r, R::Subscribe { .. } | R::Unsubscribe { .. } | R::Publish { qos: 1..=2, .. });
            let id = Self::strip(r).1;
            ensure!(!needs || id != 0 && seen.insert(id), "packet-id", "packet id {id} of {r:?}");
        }
        Ok(())
    }
    /// The broker answers, in some order, with messages in between.
    fn answers(&mut self, got: &[R], msgs: &[In], order: &[u16], codes: &[u8], props: &[Prop], cut: &[u16], o: &mut Obs) -> Res {
        let v5 = self.c.v5;
        let code = |k: usize, set: &[u8]| if v5 { set[codes.get(k % 4).copied().unwrap_or(0) as usize % set.len()] } else { 0 };
        let props = props.to_vec();
        let mut now: Vec<R> = vec![];
        for (k, r) in got.iter().enumerate() {
            match r {
                R::Publish { qos: 0, .. } => self.want(Ev::Published(None, None, 0, vec![]))?,
                R::Publish { qos: 1, pid, .. } => now.push(R::Ack { kind: 4, pid: *pid, code: code(k, rc::PUBACK5), props: props.clone() }),
                R::Publish { pid, .. } => now.push(R::Ack { kind: 5, pid: *pid, code: code(k, rc::PUBACK5), props: props.clone() }),
                R::Subscribe { pid, .. } => now.push(R::Suback { pid: *pid, props: props.clone(), codes: vec![if v5 { code(k, &[0, 1, 2]) } else { codes.first().unwrap_or(&0).wrapping_add(k as u8) % 3 }] }),
                R::Unsubscribe { pid, filters, .. } => now.push(R::Unsuback { pid: *pid, props: props.clone(), codes: if v5 { vec![code(k, rc::UNSUBACK5); filters.len()] } else { vec![] } }),
                _ => now.push(R::Pingresp),
            }
        }
        let nfilters: BTreeMap<u16, usize> = got.iter().filter_map(|r| if let R::Unsubscribe { pid, filters, .. } = r { Some((*pid, filters.len())) } else { None }).collect();
        let mut pubs = vec![];
        for m in msgs {
            self.next_in = self.next_in.checked_add(1).unwrap_or(1);
            let r = R::Publish { dup: false, qos: m.qos, retain: false, topic: m.topic.clone(), pid: if m.qos > 0 { self.next_in } else { 0 }, props: m.props.clone(), payload: m.payload.clone() };
            pubs.push(r.clone());
            if m.again && m.qos == 2 {
                if let R::Publish { dup, .. } = &mut pubs.last_mut().unwrap() {
                    *dup = true;
                }
                let second = pubs.pop().unwrap();
                pubs.push(r);
                pubs.push(second);
            }
        }
        // shuffle, but keep the messages in their order
        let mut k = 0;
        let mut all = vec![];
        let (mut a, mut b) = (now.into_iter().collect::<Vec<_>>(), pubs.into_iter());
        loop {
            let x = order.get(k % order.len().max(1)).copied().unwrap_or(0) as usize;
            k += 1;
            let from_b = x % 3 == 0 || a.is_empty();
            if from_b {
                match b.next() {
                    Some(p) => {
                        all.push(p);
                        continue;
                    }
                    None if a.is_empty() => break,
                    None => {}
                }
            }
            all.push(a.remove((x / 3) % a.len()));
        }
        let mut round = all;
        let mut cut = cut.to_vec();
        while !round.is_empty() {
            self.write(&round, &cut)?;
            cut.clear();
            let mut next = vec![];
            for r in std::mem::take(&mut round) {
                o.label(r.kind_name());
                match &r {
                    R::Ack { kind: 4, pid, code, props } => self.want(Ev::Published(Some(*pid), Some(*code), 1, props.clone()))?,
                    R::Ack { kind: 5, pid, code, props } if *code >= 0x80 => self.want(Ev::Published(Some(*pid), Some(*code), 2, props.clone()))?,
                    R::Ack { kind: 5, pid, props, .. } => {
                        let x = self.read()?;
                        ensure!(x == R::ack(6, *pid), "pubrel", "{x:?} is sent after a PUBREC of {pid}");
                        next.push(R::Ack { kind: 7, pid: *pid, code: 0, props: props.clone() });
                    }
                    R::Ack { kind: 7, pid, code, props } => self.want(Ev::Published(Some(*pid), Some(*code), 2, props.clone()))?,
                    R::Ack { pid, .. } => {
                        if self.c.auto_ack {
                            let x = self.read()?;
                            ensure!(x == R::ack(7, *pid), "pubcomp", "{x:?} is sent after a PUBREL of {pid}");
                        }
                        self.held.remove(pid);
                    }
                    R::Suback { pid, codes, props } => self.want(Ev::Subscribed(*pid, codes.clone(), props.clone()))?,
                    R::Unsuback { pid, codes, props } => self.want(Ev::Unsubscribed(*pid, if v5 { codes.clone() } else { vec![0; nfilters[pid]] }, props.clone()))?,
                    R::Pingresp => self.want(Ev::Pong(true))?,
                    R::Publish { dup, qos, retain, topic, pid, props, payload } => {
                        if *qos != 2 || !self.c.auto_ack || self.held.insert(*pid) {
                            let mut m = MqttPublish::new(*qos, topic.clone(), Some(*pid).filter(|x| *x > 0), payload.clone(), *retain, *dup);
                            m.properties = conv::props(props);
                            self.want(Ev::Message(format!("{m:?}")))?;
                        }
                        if self.c.auto_ack && *qos > 0 {
                            let x = self.read()?;
                            ensure!(x == R::ack(3 + *qos, *pid), "ack", "{x:?} is sent for a QoS {qos} message {pid}");
                        }
                        if *qos == 2 && !next.contains(&R::ack(6, *pid)) {
                            next.push(R::ack(6, *pid));
                        }
                    }
                    _ => unreachable!(),
                }
            }
            round = next;
        }
        Ok(())
    }
    fn batch(&mut self, cmds: &[Cmd], msgs: &[In], order: &[u16], codes: &[u8], props: &[Prop], cut: &[u16], o: &mut Obs) -> Res {
        let mut got = vec![];
        for c in cmds {
            self.send(c)?;
            match c {
                Cmd::Sub(t, q) => drop(self.subs.insert(t.clone(), *q)),
                Cmd::Unsub(ts) => ts.iter().for_each(|t| drop(self.subs.remove(t))),
                _ => {}
            }
        }
        for c in cmds {
            let r = self.read()?;
            let w = Self::packet(c);
            ensure!(Self::strip(&r).0 == w, "packet", "{r:?} is sent, not {w:?}");
            got.push(r);
        }
        self.ids(&got)?;
        self.answers(&got, msgs, order, codes, props, cut, o)
    }
    fn offline(&mut self, cmds: &[Cmd]) -> Res {
        for c in cmds {
            match c {
                Cmd::Sub(t, q) => {
                    // asked twice, it is open how often it is sent
                    if self.subs.contains_key(t) {
                        continue;
                    }
                    self.subs.insert(t.clone(), *q);
                }
                Cmd::Pub { .. } => {
                    if !self.c.buffer {
                        continue;
                    }
                    self.wait.push(Self::packet(c));
                }
                _ => {}
            }
            self.send(c)?;
        }
        Ok(())
    }
    fn connack(&self, code: u8, sp: bool, props: &[Prop]) -> R {
        R::Connack { sp, code, props: props.to_vec() }
    }
    fn connect_packet(&mut self) -> Res {
        let r = self.read()?;
        let w = R::Connect { clean: self.c.clean, keep_alive: 60, client_id: "c".into(), will: None, user: None, pass: None, props: vec![] };
        ensure!(r == w, "connect", "{r:?} is sent, not {w:?}");
        Ok(())
    }
    /// From the end of one connection to a working next one. `auto`: the client makes it by itself.
    fn come_up(&mut self, mut auto: bool, fails: u8, refuse: Option<u8>, sp: bool, props: &[Prop], o: &mut Obs) -> Res {
        let mut left = fails;
        loop {
            if auto {
                // the attempt has been announced
            } else {
                e(self.cl.connect(), "connect")?;
            }
            self.accept()?;
            self.connect_packet()?;
            if left > 0 {
                left -= 1;
                self.conn = None;
                self.want(Ev::Lost)?;
                auto = self.again()?;
                o.label("connections that fail");
                continue;
            }
            break;
        }
        if let Some(x) = refuse {
            let code = if self.c.v5 { rc::CONNACK5[1 + x as usize % (rc::CONNACK5.len() - 1)] } else { 1 + x % 5 };
            self.write(&[self.connack(code, false, props)], &[])?;
            self.want(Ev::Connected(code, false, props.to_vec()))?;
            self.attempts = 0;
            // nothing more comes on that connection
            let mut rest = vec![];
            e(self.conn.as_mut().unwrap().read_to_end(&mut rest), "end after a refusal")?;
            ensure!(rest.is_empty(), "sent-after-refusal", "{rest:02x?}");
            o.label("refused");
            e(self.cl.connect(), "connect")?;
            self.accept()?;
            self.connect_packet()?;
        }
        let sp = sp && !self.c.clean;
        self.write(&[self.connack(0, sp, props)], &[])?;
        self.want(Ev::Connected(0, sp, props.to_vec()))?;
        self.attempts = 0;
        if !sp {
            self.held.clear();
        }
        // what was asked for meanwhile, up to a ping that is asked for now
        e(self.cl.ping(), "ping")?;
        let mut got = vec![];
        loop {
            let r = self.read()?;
            let end = r == R::Pingreq;
            got.push(r);
            if end {
                break;
            }
        }
        self.ids(&got)?;
        let pubs: Vec<R> = got.iter().filter(|r| matches!(r, R::Publish { .. })).map(|r| Self::strip(r).0).collect();
        let mut subs: Vec<String> = got.iter().filter(|r| matches!(r, R::Subscribe { .. })).map(|r| format!("{:?}", Self::strip(r).0)).collect();
        ensure!(pubs.len() + subs.len() + 1 == got.len(), "packet", "{got:?}");
        subs.sort();
        let mut want: Vec<String> = self.subs.iter().map(|(t, q)| format!("{:?}", Self::packet(&Cmd::Sub(t.clone(), *q)))).collect();
        want.sort();
        ensure!(subs == want, "resubscribed", "{subs:?}, not {want:?}");
        // with a full buffer the oldest are lost; it is open how many came before the connection was there
        let wait = std::mem::take(&mut self.wait);
        let ok = (0..=wait.len()).any(|k| {
            let kept = &wait[k.saturating_sub(self.c.cap)..k];
            pubs.len() == kept.len() + wait.len() - k && pubs.iter().zip(kept.iter().chain(&wait[k..])).all(|(a, b)| a == b)
        });
        ensure!(ok, "buffered", "{} messages of {} that waited arrive (a buffer of {}): {pubs:?}, not {wait:?}", pubs.len(), wait.len(), self.c.cap);
        o.add("messages that waited", pubs.len() as u64);
        o.add("subscriptions restored", subs.len() as u64);
        o.nt_if(pubs.len() + subs.len() > 0);
        self.answers(&got, &[], &[5, 1, 7], &[], &[], &[], o)
    }
    /// After the loss of a connection: does the client connect by itself?
    fn again(&mut self) -> Result<bool, Fail> {
        if !self.auto || self.c.max > 0 && self.attempts >= self.c.max {
            return Ok(false);
        }
        self.attempts += 1;
        self.want(Ev::Attempt(self.attempts))?;
        Ok(true)
    }
}

fn check(c: &Case, o: &mut Obs) -> Res {
    let l = e(TcpListener::bind("127.0.0.1:0"), "bind")?;
    l.set_nonblocking(true).unwrap();
    let mut opts = MqttClientOptions::builder().peer(l.local_addr().unwrap().to_string()).client_id("c").clean_start(c.clean).keep_alive(60).auto_ack(c.auto_ack).build();
    opts.mqtt_version = if c.v5 { 5 } else { 4 };
    let cfg = AsyncClientConfig { auto_reconnect: c.auto, reconnect_delay_ms: c.delay, max_reconnect_delay_ms: 20, max_reconnect_attempts: c.max, command_queue_size: 100, buffer_messages: c.buffer, max_buffer_size: c.cap };
    let (tx, ev) = channel();
    let cl = e(AsyncMqttClient::new(opts, Box::new(H(tx)), cfg), "new")?;
    let mut w = World { c, l, conn: None, buf: vec![], ev, cl, auto: c.auto, attempts: 0, subs: BTreeMap::new(), wait: vec![], held: HashSet::new(), next_in: 0 };
    if let Step::Over { cmds, fails, refuse, sp, props, .. } = &c.first {
        w.offline(cmds)?;
        w.come_up(false, *fails, *refuse, *sp, props, o)?;
    }
    for st in &c.steps {
        match st {
            Step::Batch { cmds, msgs, order, codes, props, cut } => {
                w.batch(cmds, msgs, order, codes, props, cut, o)?;
                o.nt_if(!cmds.is_empty() || !msgs.is_empty());
            }
            Step::Over { way, cmds, fails, refuse, sp, props } => {
                let auto = match way {
                    Way::Asked => {
                        e(w.cl.disconnect(), "disconnect")?;
                        let r = w.read()?;
                        ensure!(r == R::Disconnect { code: 0, props: vec![] }, "packet", "{r:?}, not a DISCONNECT");
                        let mut rest = vec![];
                        e(w.conn.as_mut().unwrap().read_to_end(&mut rest), "end after DISCONNECT")?;
                        ensure!(rest.is_empty() && w.buf.is_empty(), "sent-after-disconnect", "{rest:02x?}");
                        w.want(Ev::Disconnected(Some(0)))?;
                        false
                    }
                    _ => {
                        if *way == Way::Malformed {
                            e(w.conn.as_mut().unwrap().write_all(&[0xf3, 2, 0, 1]), "write")?;
                        } else {
                            w.conn = None;
                        }
                        w.want(Ev::Lost)?;
                        w.again()?
                    }
                };
                o.label(match way {
                    Way::Ends => "the connection ends",
                    Way::Malformed => "malformed data",
                    Way::Asked => "disconnected",
                });
                w.offline(cmds)?;
                w.come_up(auto, *fails, *refuse, *sp, props, o)?;
            }
            Step::Auto(x) => {
                e(w.cl.set_auto_reconnect(*x), "auto")?;
                w.auto = *x;
                // an answered ping: the worker has seen it
                w.batch(&[Cmd::Ping], &[], &[], &[], &[], &[], o)?;
            }
        }
    }
    let World { cl, mut conn, mut buf, ev, .. } = w;
    let (tx, done) = channel();
    let drops = c.drop;
    std::thread::spawn(move || {
        let r = if drops {
            drop(cl);
            Ok(())
        } else {
            cl.shutdown()
        };
        let _ = tx.send(r);
    });
    match done.recv_timeout(PATIENCE) {
        Err(_) => return fail("shutdown-hangs", "the client does not end"),
        Ok(r) => e(r, "shutdown")?,
    }
    e(conn.as_mut().unwrap().read_to_end(&mut buf), "end")?;
    let end = rc::encode(&R::Disconnect { code: 0, props: vec![] }, c.v5, 0);
    let same = buf == end || matches!(rc::decode(&buf, c.v5), Ok(R::Disconnect { code: 0, .. }));
    ensure!(same, "end", "at the end {buf:02x?} is sent, not a DISCONNECT");
    let left: Vec<Ev> = ev.try_iter().filter(|e| !matches!(e, Ev::Error(_))).collect();
    ensure!(left.is_empty() || left == [Ev::Disconnected(Some(0))], "event", "{left:?} is reported too");
    Ok(())
}

pub fn b02() -> Property {
    Property {
        id: "B02",
        rule: "a command was answered, a message arrived, or something that waited for a connection was sent",
        assumptions: &["The loopback network."],
        subs: vec![Box::new(Sub { name: "thread", quick: 2_500, thorough: 40_000, threads: 48, gen, check })],
    }
}

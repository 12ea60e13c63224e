//! An in-memory QUIC server (quinn-proto) with an MQTT broker behind it, and a
//! network between it and a `QuicMqttEngine` that delays, drops, duplicates and
//! reorders datagrams.  Everything runs in virtual time on one thread.
use crate::refcodec::{self, R};
use crate::vclock;
use bytes::BytesMut;
use flowsdk::mqtt_client::engine::{MqttEvent, QuicMqttEngine};
use quinn_proto::crypto::rustls::QuicServerConfig;
use quinn_proto::{Connection, ConnectionHandle, DatagramEvent, Dir, Endpoint, EndpointConfig, Event, ReadError, ServerConfig, StreamEvent, StreamId, TransportConfig, VarInt};
use std::collections::{BTreeMap, HashMap};
use std::net::SocketAddr;
use std::sync::Arc;
use std::time::{Duration, Instant};

pub fn caddr() -> SocketAddr {
    "10.0.0.1:4000".parse().unwrap()
}
pub fn saddr() -> SocketAddr {
    "10.0.0.2:14567".parse().unwrap()
}

/// What the network needs of an engine.
pub trait QuicEnd {
    type Event;
    fn take(&mut self) -> Vec<(SocketAddr, Vec<u8>)>;
    fn datagram(&mut self, d: Vec<u8>, from: SocketAddr);
    fn tick(&mut self) -> Vec<Self::Event>;
}
impl QuicEnd for QuicMqttEngine {
    type Event = MqttEvent;
    fn take(&mut self) -> Vec<(SocketAddr, Vec<u8>)> {
        self.take_outgoing_datagrams().into()
    }
    fn datagram(&mut self, d: Vec<u8>, from: SocketAddr) {
        self.handle_datagram(d, from, Instant::now());
    }
    fn tick(&mut self) -> Vec<MqttEvent> {
        self.handle_tick(Instant::now())
    }
}

pub struct Params {
    pub window: u32,
    pub streams: u32,
    pub idle_ms: u64,
}
pub fn server(mut tls: rustls::ServerConfig, p: &Params) -> Arc<ServerConfig> {
    tls.alpn_protocols = vec![b"mqtt".to_vec()];
    tls.max_early_data_size = u32::MAX;
    let mut c = ServerConfig::with_crypto(Arc::new(QuicServerConfig::try_from(tls).unwrap()));
    let mut t = TransportConfig::default();
    t.stream_receive_window(VarInt::from_u32(p.window));
    t.max_concurrent_bidi_streams(VarInt::from_u32(p.streams));
    t.max_idle_timeout(Some(Duration::from_millis(p.idle_ms).try_into().unwrap()));
    c.transport_config(Arc::new(t));
    Arc::new(c)
}

/// How the broker answers a request.
#[derive(Debug, Clone, Default)]
pub struct Reply {
    pub silent: bool,
    pub delay: u64,
    pub code: u8,
}

#[derive(Default)]
pub struct SStream {
    pub rbuf: Vec<u8>,
    pub got: Vec<(u64, R)>,
    pub junk: Option<String>,
    pub nbytes: usize,
    pub fin: Option<u64>,
    pub reset: Option<u64>,
    /// the client stopped reading
    pub stopped: Option<u64>,
    pub out: Vec<u8>,
    /// messages the broker has put into `out`
    pub sent: Vec<R>,
    pub acks_sent: Vec<(u64, R)>,
    pub want_fin: bool,
    /// our send side is over
    pub send_over: bool,
    pub paused: bool,
    pub read_over: bool,
}

pub struct SConn {
    pub c: Connection,
    pub ch: ConnectionHandle,
    pub port: u16,
    pub trusted: bool,
    pub up: bool,
    pub lost: Option<(u64, String)>,
    pub app_close: Option<(u64, Vec<u8>)>,
    pub streams: BTreeMap<u64, SStream>,
    /// in the order the streams became known
    pub order: Vec<u64>,
    pub connect_on: Option<u64>,
    pub dead: bool,
}

pub struct Net {
    pub srv: Endpoint,
    pub cfg: Option<Arc<ServerConfig>>,
    pub conns: Vec<SConn>,
    map: HashMap<ConnectionHandle, usize>,
    c2s: Vec<(u64, u64, (u16, Vec<u8>))>,
    s2c: Vec<(u64, u64, (u16, Vec<u8>))>,
    /// the client's port; another one tells its connections apart
    pub port: u16,
    seq: u64,
    pub fates: Vec<u8>,
    pub faults: bool,
    pub delay: u64,
    /// neither direction delivers anything
    pub cut: bool,
    pub v5: bool,
    pub replies: HashMap<String, Reply>,
    pub connack: R,
    pub answer_connect: bool,
    pub accept: bool,
    pub trusted: bool,
    due: Vec<(u64, usize, u64, R)>,
    pub n_c2s: u64,
    pub n_s2c: u64,
    pub dropped: u64,
}

impl Net {
    pub fn new(cfg: Arc<ServerConfig>, v5: bool) -> Self {
        let srv = Endpoint::new(Arc::new(EndpointConfig::default()), Some(cfg.clone()), true, None);
        Net {
            srv,
            cfg: Some(cfg),
            conns: vec![],
            map: HashMap::new(),
            c2s: vec![],
            s2c: vec![],
            port: 4000,
            seq: 0,
            fates: vec![],
            faults: true,
            delay: 1,
            cut: false,
            v5,
            replies: HashMap::new(),
            connack: R::Connack { sp: false, code: 0, props: vec![] },
            answer_connect: true,
            accept: true,
            trusted: true,
            due: vec![],
            n_c2s: 0,
            n_s2c: 0,
            dropped: 0,
        }
    }
    pub fn set_cfg(&mut self, cfg: Arc<ServerConfig>) {
        self.srv.set_server_config(Some(cfg.clone()));
        self.cfg = Some(cfg);
    }
    fn post(&mut self, to_server: bool, d: Vec<u8>) {
        let d = (self.port, d);
        let now = vclock::now_ms();
        self.seq += 1;
        if std::env::var("VH_TRACE").is_ok() {
            let f = if self.faults && !self.fates.is_empty() { self.fates[self.seq as usize % self.fates.len()] } else { 0 };
            eprintln!("{now} port {} {} {} bytes first {:02x} fate {f}", d.0, if to_server { "c->s" } else { "s->c" }, d.1.len(), d.1[0]);
        }
        if self.cut {
            self.dropped += 1;
            return;
        }
        let f = if self.faults && !self.fates.is_empty() { self.fates[self.seq as usize % self.fates.len()] } else { 0 };
        let due = now + self.delay + if (160..200).contains(&f) { (f as u64 - 159) / 2 } else { 0 };
        let seq = self.seq;
        let q = if to_server { &mut self.c2s } else { &mut self.s2c };
        match f {
            200..=225 => {
                self.dropped += 1;
            }
            226..=255 => {
                q.push((due, seq, d.clone()));
                q.push((due + f as u64 % 7, seq, d));
            }
            _ => q.push((due, seq, d)),
        }
    }
    fn take_due(q: &mut Vec<(u64, u64, (u16, Vec<u8>))>) -> Vec<(u16, Vec<u8>)> {
        let now = vclock::now_ms();
        q.sort_by_key(|x| (x.0, x.1));
        let n = q.iter().take_while(|x| x.0 <= now).count();
        q.drain(..n).map(|x| x.2).collect()
    }
    pub fn idle(&self) -> bool {
        self.c2s.is_empty() && self.s2c.is_empty() && self.due.is_empty()
    }
    /// The engine's datagrams go onto the network.
    pub fn collect<E: QuicEnd>(&mut self, e: &mut E) {
        for (to, d) in e.take() {
            if to == saddr() {
                self.n_c2s += 1;
                self.post(true, d);
            }
        }
    }
    /// Moves time on by `ms`, then everything by one step.
    pub fn step<E: QuicEnd>(&mut self, e: &mut E, ms: u64) -> Vec<E::Event> {
        vclock::advance_ms(ms);
        self.collect(e);
        for (port, d) in Self::take_due(&mut self.c2s) {
            self.srv_in(port, d);
        }
        self.drive_server();
        for (_, d) in Self::take_due(&mut self.s2c) {
            e.datagram(d, saddr());
        }
        let ev = e.tick();
        self.collect(e);
        ev
    }
    fn srv_in(&mut self, port: u16, d: Vec<u8>) {
        let now = Instant::now();
        let mut buf = vec![];
        match self.srv.handle(now, SocketAddr::new(caddr().ip(), port), None, None, BytesMut::from(&d[..]), &mut buf) {
            Some(DatagramEvent::NewConnection(inc)) => {
                let mut b = vec![];
                if !self.accept {
                    let t = self.srv.refuse(inc, &mut b);
                    b.truncate(t.size);
                    self.n_s2c += 1;
                    self.post(false, b);
                    return;
                }
                match self.srv.accept(inc, now, &mut b, self.cfg.clone()) {
                    Ok((ch, c)) => {
                        self.map.insert(ch, self.conns.len());
                        self.conns.push(SConn { c, ch, port, trusted: self.trusted, up: false, lost: None, app_close: None, streams: BTreeMap::new(), order: vec![], connect_on: None, dead: false });
                    }
                    Err(e) => {
                        if let Some(t) = e.response {
                            b.truncate(t.size);
                            self.n_s2c += 1;
                            self.post(false, b);
                        }
                    }
                }
            }
            Some(DatagramEvent::ConnectionEvent(ch, ev)) => {
                if let Some(i) = self.map.get(&ch) {
                    self.conns[*i].c.handle_event(ev);
                }
            }
            Some(DatagramEvent::Response(t)) => {
                buf.truncate(t.size);
                self.n_s2c += 1;
                self.post(false, buf);
            }
            None => {}
        }
    }
    pub fn drive_server(&mut self) {
        let now = Instant::now();
        let ms = vclock::now_ms();
        for i in 0..self.conns.len() {
            if self.conns[i].dead {
                continue;
            }
            if self.conns[i].c.poll_timeout().is_some_and(|t| t <= now) {
                self.conns[i].c.handle_timeout(now);
            }
            loop {
                let s = &mut self.conns[i];
                let Some(ev) = s.c.poll() else { break };
                match ev {
                    Event::Connected => s.up = true,
                    Event::ConnectionLost { reason } => {
                        if let quinn_proto::ConnectionError::ApplicationClosed(a) = &reason {
                            s.app_close = Some((u64::from(a.error_code), a.reason.to_vec()));
                        }
                        s.lost = Some((ms, reason.to_string()));
                    }
                    Event::Stream(StreamEvent::Stopped { id, error_code }) => {
                        let st = s.stream(u64::from(id));
                        st.stopped = Some(u64::from(error_code));
                        st.send_over = true;
                        st.out.clear();
                    }
                    _ => {}
                }
            }
            let s = &mut self.conns[i];
            while let Some(id) = s.c.streams().accept(Dir::Bi) {
                s.stream(u64::from(id));
            }
            for id in s.order.clone() {
                self.read(i, id);
            }
            let mut k = 0;
            while k < self.due.len() {
                if self.due[k].1 == i && self.due[k].0 <= ms {
                    let (_, _, id, r) = self.due.remove(k);
                    let b = refcodec::encode(&r, self.v5, 0);
                    let st = self.conns[i].stream(id);
                    if !st.send_over && !st.want_fin {
                        st.out.extend(b);
                        st.acks_sent.push((ms, r));
                    }
                } else {
                    k += 1;
                }
            }
            self.flush(i);
            let s = &mut self.conns[i];
            let mut back = vec![];
            while let Some(ev) = s.c.poll_endpoint_events() {
                if let Some(ce) = self.srv.handle_event(s.ch, ev) {
                    s.c.handle_event(ce);
                }
            }
            let mut buf = vec![];
            while let Some(t) = s.c.poll_transmit(now, 1, &mut buf) {
                back.push(buf[..t.size].to_vec());
                buf.clear();
            }
            if s.c.is_drained() {
                s.dead = true;
            }
            for d in back {
                self.n_s2c += 1;
                self.post(false, d);
            }
        }
    }
    fn flush(&mut self, i: usize) {
        let s = &mut self.conns[i];
        for (id, st) in s.streams.iter_mut() {
            if st.send_over {
                continue;
            }
            let sid = sid(*id);
            while !st.out.is_empty() {
                match s.c.send_stream(sid).write(&st.out) {
                    Ok(n) if n > 0 => {
                        st.out.drain(..n);
                    }
                    _ => break,
                }
            }
            if st.want_fin && st.out.is_empty() {
                let _ = s.c.send_stream(sid).finish();
                st.send_over = true;
            }
        }
    }
    fn read(&mut self, i: usize, id: u64) {
        let ms = vclock::now_ms();
        let SConn { c, streams, .. } = &mut self.conns[i];
        let st = streams.get_mut(&id).unwrap();
        if st.paused || st.read_over {
            return;
        }
        let mut rs = c.recv_stream(sid(id));
        if let Ok(mut ch) = rs.read(true) {
            loop {
                match ch.next(usize::MAX) {
                    Ok(Some(c)) => {
                        st.nbytes += c.bytes.len();
                        st.rbuf.extend_from_slice(&c.bytes);
                    }
                    Ok(None) => {
                        st.fin = Some(ms);
                        st.read_over = true;
                        break;
                    }
                    Err(ReadError::Reset(c)) => {
                        st.reset = Some(u64::from(c));
                        st.read_over = true;
                        break;
                    }
                    Err(ReadError::Blocked) => break,
                }
            }
            let _ = ch.finalize();
        }
        loop {
            let v5 = self.v5;
            let st = self.conns[i].streams.get_mut(&id).unwrap();
            let len = match refcodec::frame_len(&st.rbuf) {
                Ok(Some(l)) if l <= st.rbuf.len() => l,
                Ok(_) => break,
                Err(e) => {
                    st.junk = Some(format!("{e:?}"));
                    st.rbuf.clear();
                    break;
                }
            };
            let frame: Vec<u8> = st.rbuf.drain(..len).collect();
            let r = match refcodec::decode(&frame, v5) {
                Ok(r) => r,
                Err(e) => {
                    st.junk = Some(format!("{e:?} in {:02x?}", &frame[..frame.len().min(40)]));
                    continue;
                }
            };
            st.got.push((ms, r.clone()));
            self.answer(i, id, r);
        }
    }
    fn answer(&mut self, i: usize, id: u64, r: R) {
        let ms = vclock::now_ms();
        let v5 = self.v5;
        let rep = |k: &str| self.replies.get(k).cloned().unwrap_or_default();
        let mut due = vec![];
        match r {
            R::Connect { .. } => {
                self.conns[i].connect_on = Some(id);
                if self.answer_connect {
                    due.push((ms, self.connack.clone()));
                }
            }
            R::Publish { qos, topic, pid, .. } if qos > 0 => {
                let p = rep(&topic);
                if !p.silent {
                    due.push((ms + p.delay, R::Ack { kind: if qos == 1 { 4 } else { 5 }, pid, code: if v5 { p.code } else { 0 }, props: vec![] }));
                }
            }
            R::Subscribe { pid, subs, .. } => {
                let p = rep(&subs[0].filter);
                if !p.silent {
                    due.push((ms + p.delay, R::Suback { pid, props: vec![], codes: subs.iter().map(|_| p.code).collect() }));
                }
            }
            R::Unsubscribe { pid, filters, .. } => {
                let p = rep(&filters[0]);
                if !p.silent {
                    due.push((ms + p.delay, R::Unsuback { pid, props: vec![], codes: if v5 { filters.iter().map(|_| p.code).collect() } else { vec![] } }));
                }
            }
            // PUBREC of a message of ours, PUBREL of a message of theirs
            R::Ack { kind: 5, pid, .. } => due.push((ms, R::ack(6, pid))),
            R::Ack { kind: 6, pid, .. } => due.push((ms, R::ack(7, pid))),
            R::Pingreq => due.push((ms, R::Pingresp)),
            _ => {}
        }
        for (t, r) in due {
            self.due.push((t, i, id, r));
        }
    }
    pub fn conn(&mut self) -> Option<&mut SConn> {
        self.conns.last_mut()
    }
}

pub fn sid(id: u64) -> StreamId {
    StreamId::from(VarInt::from_u64(id).unwrap())
}

impl SConn {
    pub fn stream(&mut self, id: u64) -> &mut SStream {
        let order = &mut self.order;
        self.streams.entry(id).or_insert_with(|| {
            order.push(id);
            SStream::default()
        })
    }
    pub fn open(&mut self) -> Option<u64> {
        let id = u64::from(self.c.streams().open(Dir::Bi)?);
        self.stream(id);
        Some(id)
    }
    pub fn push(&mut self, id: u64, r: R, v5: bool) -> bool {
        let st = self.stream(id);
        if st.send_over || st.want_fin {
            return false;
        }
        st.out.extend(refcodec::encode(&r, v5, 0));
        st.sent.push(r);
        true
    }
}

//! X01: the TLS engine is transparent.  A real rustls server in memory is the
//! peer; a plain MqttEngine driven with the same calls is the oracle.
use crate::core::{fail, Obs, Property, Res, Src, Sub};
use crate::ensure;
use crate::p_engine::evs;
use crate::refcodec::{self, R};
use crate::vclock::VClock;
use flowsdk::mqtt_client::commands::{PublishCommand, SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_client::engine::MqttEngine;
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk::mqtt_client::tls_engine::TlsMqttEngine;
use rustls::{ClientConfig, RootCertStore, ServerConfig, ServerConnection};
use rustls_pki_types::pem::PemObject;
use rustls_pki_types::{CertificateDer, PrivateKeyDer};
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::sync::{Arc, OnceLock};
use std::time::Instant;

pub const CA: &[u8] = include_bytes!("../certs/ca.pem");
const LEAF: &[u8] = include_bytes!("../certs/leaf_ca.pem");
const LEAF_KEY: &[u8] = include_bytes!("../certs/leaf_ca.key");
const OTHER_LEAF: &[u8] = include_bytes!("../certs/leaf_other.pem");
const OTHER_KEY: &[u8] = include_bytes!("../certs/leaf_other.key");

pub fn provider() -> Arc<rustls::crypto::CryptoProvider> {
    static P: OnceLock<Arc<rustls::crypto::CryptoProvider>> = OnceLock::new();
    P.get_or_init(|| Arc::new(rustls::crypto::ring::default_provider())).clone()
}
pub fn roots() -> RootCertStore {
    let mut r = RootCertStore::empty();
    r.add(CertificateDer::from_pem_slice(CA).unwrap()).unwrap();
    r
}
pub fn client_config() -> ClientConfig {
    ClientConfig::builder_with_provider(provider())
        .with_safe_default_protocol_versions()
        .unwrap()
        .with_root_certificates(roots())
        .with_no_client_auth()
}
pub fn server_config(trusted: bool) -> ServerConfig {
    let (c, k) = if trusted { (LEAF, LEAF_KEY) } else { (OTHER_LEAF, OTHER_KEY) };
    ServerConfig::builder_with_provider(provider())
        .with_safe_default_protocol_versions()
        .unwrap()
        .with_no_client_auth()
        .with_single_cert(
            vec![CertificateDer::from_pem_slice(c).unwrap()],
            PrivateKeyDer::from_pem_slice(k).unwrap(),
        )
        .unwrap()
}
/// Kinds of server certificates: four kinds of keys, one that an intermediate authority has
/// signed, one that has expired.
pub const KEYS: u64 = 6;
pub const EXPIRED: u8 = 5;
fn chain(pem: &[u8]) -> Vec<CertificateDer<'static>> {
    CertificateDer::pem_slice_iter(pem).map(|x| x.unwrap()).collect()
}
/// A server with a key of this kind that may ask for a client certificate, too.
pub fn server_config_with(trusted: bool, auth: bool, key: u8) -> ServerConfig {
    let a = if trusted { "ca" } else { "other" };
    let f = |x: &str| std::fs::read(format!("{}/certs/leaf_{a}{}.{x}", env!("CARGO_MANIFEST_DIR"), ["", "_p384", "_ed", "_rsa", "_chain", "_old"][key as usize % KEYS as usize])).unwrap();
    let b = ServerConfig::builder_with_provider(provider()).with_safe_default_protocol_versions().unwrap();
    let b = if auth {
        b.with_client_cert_verifier(rustls::server::WebPkiClientVerifier::builder_with_provider(Arc::new(roots()), provider()).build().unwrap())
    } else {
        b.with_no_client_auth()
    };
    b.with_single_cert(chain(&f("pem")), PrivateKeyDer::from_pem_slice(&f("key")).unwrap()).unwrap()
}
pub fn other_roots() -> RootCertStore {
    let mut r = RootCertStore::empty();
    r.add(CertificateDer::from_pem_slice(include_bytes!("../certs/other.pem")).unwrap()).unwrap();
    r
}
/// A client with these authorities and this certificate.
pub fn client_config_with(roots: RootCertStore, cert: Option<&str>) -> ClientConfig {
    let b = ClientConfig::builder_with_provider(provider()).with_safe_default_protocol_versions().unwrap().with_root_certificates(roots);
    let Some(name) = cert else {
        return b.with_no_client_auth();
    };
    let f = |x: &str| std::fs::read(format!("{}/certs/{name}.{x}", env!("CARGO_MANIFEST_DIR"))).unwrap();
    b.with_client_auth_cert(chain(&f("pem")), PrivateKeyDer::from_pem_slice(&f("key")).unwrap()).unwrap()
}
fn cached(trusted: bool) -> (Arc<ClientConfig>, Arc<ServerConfig>) {
    static C: OnceLock<Arc<ClientConfig>> = OnceLock::new();
    static S: OnceLock<[Arc<ServerConfig>; 2]> = OnceLock::new();
    let c = C.get_or_init(|| {
        let mut c = client_config();
        // no resumption: cases are independent of each other
        c.resumption = rustls::client::Resumption::disabled();
        Arc::new(c)
    });
    let s = S.get_or_init(|| [Arc::new(server_config(false)), Arc::new(server_config(true))]);
    (c.clone(), s[trusted as usize].clone())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Pub { qos: u8, size: usize, prio: u8 },
    Sub,
    Unsub,
    /// the broker sends this many bytes of payload in one PUBLISH
    Msg { qos: u8, size: usize, n: u8 },
    /// the broker acknowledges everything it has received so far
    Acks,
    Tick(u32),
    Disconnect,
}
#[derive(Debug, Serialize, Deserialize)]
struct Case {
    v5: bool,
    ka: u16,
    max_events: usize,
    connect_late: bool,
    /// sizes in which ciphertext is delivered, repeated
    frag_in: Vec<usize>,
    frag_out: Vec<usize>,
    /// the application ticks after every ciphertext fragment, not only at the end
    tick_each: bool,
    ops: Vec<Op>,
}
fn size(s: &mut Src) -> usize {
    match s.weighted(&[10, 5, 3, 1]) {
        0 => s.usize(0, 40),
        1 => s.usize(0, 3000),
        2 => *s.pick(&[16000usize, 16384, 16385, 20000, 33000]),
        _ => *s.pick(&[70_000usize, 65_536, 100_000, 200_000, 70_000, 66_000, 150_000, 1_300_000]),
    }
}
fn frags(s: &mut Src) -> Vec<usize> {
    s.vec(1, 4, 2, |s| *s.pick(&[1_000_000usize, 7, 100, 1400, 4096, 16384, 50_000, 16_406]))
}
fn gen(s: &mut Src) -> Case {
    let max_events = *s.pick(&[1_000_000usize, 1_000_000, 1_000_000, 1, 2, 5]);
    let tick_each = s.bool();
    let ka = *s.pick(&[60u16, 0, 1, 5]);
    Case {
        v5: s.bool(),
        // a tick between two pieces of one input may send a PINGREQ in between
        ka: if tick_each || max_events < 10 { 0 } else { ka },
        max_events,
        connect_late: s.chance(1, 4),
        frag_in: frags(s),
        frag_out: frags(s),
        tick_each,
        ops: s.vec(1, 25, 8, |s| match s.weighted(&[6, 1, 1, 6, 4, 4, 1]) {
            0 => Op::Pub { qos: s.below(3) as u8, size: size(s), prio: *s.pick(&[128u8, 1, 200]) },
            1 => Op::Sub,
            2 => Op::Unsub,
            3 => Op::Msg { qos: s.below(3) as u8, size: size(s), n: s.range(1, 5) as u8 },
            4 => Op::Acks,
            5 => Op::Tick(*s.pick(&[10u32, 999, 1000, 1001, 5000, 60_000, 100_000])),
            _ => Op::Disconnect,
        }),
    }
}

struct Run<'a> {
    c: &'a Case,
    tls: TlsMqttEngine,
    srv: ServerConnection,
    twin: MqttEngine,
    /// plaintext the server has decrypted
    got: Vec<u8>,
    /// plaintext the plain engine has written
    want: Vec<u8>,
    ev_tls: Vec<String>,
    ev_twin: Vec<String>,
    /// how much of `got` the broker has answered
    parsed: usize,
    acks: VecDeque<R>,
    frag: usize,
    next_in_pid: u16,
}
impl Run<'_> {
    fn tick(&mut self) {
        let e = self.tls.handle_tick(Instant::now());
        self.ev_tls.extend(evs(&e));
    }
    fn srv_read(&mut self) -> Res {
        let mut buf = [0u8; 8192];
        loop {
            match self.srv.reader().read(&mut buf) {
                Ok(0) => break,
                Ok(n) => self.got.extend_from_slice(&buf[..n]),
                Err(_) => break,
            }
        }
        Ok(())
    }
    fn to_server(&mut self, data: &[u8]) -> Res {
        let mut d = data;
        while !d.is_empty() {
            let n = self.c.frag_out[self.frag % self.c.frag_out.len()].min(d.len());
            self.frag += 1;
            let (mut a, b) = d.split_at(n);
            d = b;
            while !a.is_empty() {
                if let Err(e) = self.srv.read_tls(&mut a) {
                    return fail("corrupt-ciphertext", format!("the server cannot read what the engine sent: {e}"));
                }
                if let Err(e) = self.srv.process_new_packets() {
                    return fail("corrupt-ciphertext", format!("the server rejects what the engine sent: {e}"));
                }
                self.srv_read()?;
            }
        }
        Ok(())
    }
    /// Moves bytes both ways until nothing moves.
    fn exchange(&mut self) -> Res {
        for _ in 0..10_000 {
            let out = self.tls.take_socket_data();
            let again = self.tls.take_socket_data();
            ensure!(again.is_empty(), "socket-data-left", "take_socket_data left {} bytes behind", again.len());
            let mut moved = !out.is_empty();
            self.to_server(&out)?;
            let mut back = vec![];
            while self.srv.wants_write() {
                self.srv.write_tls(&mut back).unwrap();
            }
            moved |= !back.is_empty();
            let mut d = &back[..];
            while !d.is_empty() {
                let n = self.c.frag_in[self.frag % self.c.frag_in.len()].min(d.len());
                self.frag += 1;
                if let Err(e) = self.tls.handle_socket_data(&d[..n]) {
                    return fail("handle-socket-data", format!("handle_socket_data fails on intact ciphertext: {e:?}"));
                }
                d = &d[n..];
                if self.c.tick_each {
                    self.tick();
                }
            }
            if !moved {
                return Ok(());
            }
        }
        fail("endless-exchange", "the TLS exchange does not come to rest")
    }
    fn settle(&mut self) -> Res {
        for _ in 0..100_000 {
            let n = self.ev_tls.len();
            let g = self.got.len();
            self.tick();
            self.exchange()?;
            if self.ev_tls.len() == n && self.got.len() == g {
                break;
            }
        }
        for _ in 0..100_000 {
            let n = self.ev_twin.len();
            let e = self.twin.handle_incoming(&[]);
            self.ev_twin.extend(evs(&e));
            self.twin_tick();
            if self.ev_twin.len() == n {
                break;
            }
        }
        Ok(())
    }
    fn twin_tick(&mut self) {
        let e = self.twin.handle_tick(Instant::now());
        self.ev_twin.extend(evs(&e));
        self.want.extend(self.twin.take_outgoing());
    }
    fn compare(&self, when: &str) -> Res {
        if self.got != self.want {
            let at = self.got.iter().zip(&self.want).position(|(a, b)| a != b).unwrap_or(self.got.len().min(self.want.len()));
            return fail(
                "plaintext-differs",
                format!("{when}: the server decrypted {} bytes, the plain engine wrote {}; first difference at {at}", self.got.len(), self.want.len()),
            );
        }
        if self.ev_tls != self.ev_twin {
            let at = self.ev_tls.iter().zip(&self.ev_twin).position(|(a, b)| a != b).unwrap_or(self.ev_tls.len().min(self.ev_twin.len()));
            let cut = |v: &Vec<String>| v.get(at).map(|x| x.chars().take(200).collect::<String>());
            return fail(
                "events-differ",
                format!("{when}: event {at} is {:?} over TLS and {:?} without ({} and {} events)", cut(&self.ev_tls), cut(&self.ev_twin), self.ev_tls.len(), self.ev_twin.len()),
            );
        }
        Ok(())
    }
    /// One drive, as an application does after an API call or a timer.
    fn drive_once(&mut self, when: &str) -> Res {
        self.tick();
        let out = self.tls.take_socket_data();
        self.to_server(&out)?;
        self.twin_tick();
        ensure!(
            self.got == self.want,
            "not-sent-at-once",
            "{when}: after one tick and take_socket_data the server has {} bytes; the plain engine has written {}",
            self.got.len(),
            self.want.len()
        );
        Ok(())
    }
    fn from_broker(&mut self, p: &R) {
        let b = refcodec::encode(p, self.c.v5, 0);
        self.srv.writer().write_all(&b).unwrap();
        let e = self.twin.handle_incoming(&b);
        self.ev_twin.extend(evs(&e));
        // an exhausted event limit must not stop the oracle
        for _ in 0..100_000 {
            let e = self.twin.handle_incoming(&[]);
            if e.is_empty() {
                break;
            }
            self.ev_twin.extend(evs(&e));
        }
    }
    fn broker_reads(&mut self) -> Res {
        while let Ok(Some(n)) = refcodec::frame_len(&self.got[self.parsed..]) {
            if self.got.len() < self.parsed + n {
                break;
            }
            let f = &self.got[self.parsed..self.parsed + n];
            self.parsed += n;
            let Ok(p) = refcodec::decode(f, self.c.v5) else {
                return fail("malformed", "the server received a malformed packet");
            };
            match p {
                R::Publish { qos: 1, pid, .. } => self.acks.push_back(R::ack(4, pid)),
                R::Publish { qos: 2, pid, .. } => self.acks.push_back(R::ack(5, pid)),
                R::Ack { kind: 5, pid, .. } => self.acks.push_back(R::ack(6, pid)),
                R::Ack { kind: 6, pid, .. } => self.acks.push_back(R::ack(7, pid)),
                R::Subscribe { pid, subs, .. } => self.acks.push_back(R::Suback { pid, props: vec![], codes: vec![0; subs.len()] }),
                R::Unsubscribe { pid, filters, .. } => {
                    self.acks.push_back(R::Unsuback { pid, props: vec![], codes: if self.c.v5 { vec![0; filters.len()] } else { vec![] } })
                }
                R::Pingreq => self.acks.push_back(R::Pingresp),
                _ => {}
            }
        }
        Ok(())
    }
}
fn options(c: &Case) -> MqttClientOptions {
    let mut o = MqttClientOptions::builder()
        .client_id("tls-client")
        .mqtt_version(crate::conv::ver(c.v5))
        .keep_alive(c.ka)
        .username("user")
        .password(b"TOP-SECRET".to_vec())
        .build();
    o.max_event_count = c.max_events;
    o.max_outgoing_packet_count = 1_000_000;
    o.auto_keepalive = true;
    o
}
fn check(c: &Case, o: &mut Obs) -> Res {
    let clk = VClock::start();
    let (cc, sc) = cached(true);
    let op = options(c);
    let mut srv = ServerConnection::new(sc).unwrap();
    srv.set_buffer_limit(None);
    let tls = match TlsMqttEngine::new(op, "localhost", cc) {
        Ok(t) => t,
        Err(e) => return fail("new", format!("{e:?}")),
    };
    let mut r = Run {
        c,
        tls,
        srv,
        twin: MqttEngine::new(options(c)),
        got: vec![],
        want: vec![],
        ev_tls: vec![],
        ev_twin: vec![],
        parsed: 0,
        acks: VecDeque::new(),
        frag: 0,
        next_in_pid: 1,
    };
    if c.connect_late {
        r.settle()?;
        r.compare("before connect")?;
    }
    r.tls.connect();
    r.twin.connect();
    r.settle()?;
    r.compare("after the handshake")?;
    r.broker_reads()?;
    r.from_broker(&R::Connack { sp: false, code: 0, props: vec![] });
    r.exchange()?;
    r.settle()?;
    r.compare("after CONNACK")?;
    ensure!(r.tls.is_connected() == r.twin.is_connected(), "is-connected", "is_connected differs");
    let (mut big_out, mut big_in, mut sent) = (false, false, 0);
    for op in &c.ops {
        match op {
            Op::Pub { qos, size, prio } => {
                let mut p = PublishCommand::simple("a/b", vec![(size % 251) as u8; *size], *qos, false);
                p.priority = *prio;
                let a = r.tls.publish(p.clone());
                let b = r.twin.publish(p);
                ensure!(format!("{a:?}") == format!("{b:?}"), "result-differs", "publish: {a:?} over TLS, {b:?} without");
                big_out |= *size > 64 * 1024;
                r.drive_once("publish")?;
            }
            Op::Sub => {
                let a = r.tls.subscribe(SubscribeCommand::single("x/#", 1));
                let b = r.twin.subscribe(SubscribeCommand::single("x/#", 1));
                ensure!(format!("{a:?}") == format!("{b:?}"), "result-differs", "subscribe: {a:?} over TLS, {b:?} without");
                r.drive_once("subscribe")?;
            }
            Op::Unsub => {
                let u = || UnsubscribeCommand::from_topics(vec!["x/#".into()]);
                let a = r.tls.unsubscribe(u());
                let b = r.twin.unsubscribe(u());
                ensure!(format!("{a:?}") == format!("{b:?}"), "result-differs", "unsubscribe: {a:?} over TLS, {b:?} without");
                r.drive_once("unsubscribe")?;
            }
            Op::Msg { qos, size, n } => {
                for _ in 0..*n {
                    let pid = if *qos > 0 { r.next_in_pid } else { 0 };
                    r.next_in_pid += 1;
                    r.from_broker(&R::Publish { dup: false, qos: *qos, retain: false, topic: "in".into(), pid, props: vec![], payload: vec![7; *size] });
                    big_in |= *size > 16 * 1024;
                }
            }
            Op::Acks => {
                r.broker_reads()?;
                while let Some(a) = r.acks.pop_front() {
                    r.from_broker(&a);
                }
            }
            Op::Tick(ms) => {
                clk.advance_ms(*ms as u64);
                r.drive_once("timer")?;
            }
            Op::Disconnect => {
                r.tls.disconnect();
                r.twin.disconnect();
                r.drive_once("disconnect")?;
            }
        }
        r.exchange()?;
        r.settle()?;
        r.compare(&format!("after {op:?}"))?;
        ensure!(r.tls.is_connected() == r.twin.is_connected(), "is-connected", "is_connected differs after {op:?}");
        sent += 1;
    }
    if big_out {
        o.label("more than 64 KB sent at once");
    }
    if big_in {
        o.label("a message larger than a TLS record received");
    }
    if c.max_events < 10 {
        o.label("event limit below 10");
    }
    o.nt_if(sent >= 3 && r.ev_tls.len() >= 2);
    Ok(())
}

// --------------------------------------------------------------- hostile peers

#[derive(Debug, Serialize, Deserialize)]
struct Hostile {
    /// 0 untrusted certificate, 1 name not in the certificate, 2 altered records, 3 random bytes, 4 truncated stream
    kind: u8,
    v5: bool,
    frag: Vec<usize>,
    msgs: u8,
    /// position (per mille) and change of the altered byte
    at: u16,
    xor: u8,
    noise: Vec<u8>,
}
fn gen_h(s: &mut Src) -> Hostile {
    Hostile {
        kind: s.below(5) as u8,
        v5: s.bool(),
        frag: frags(s),
        msgs: s.range(1, 6) as u8,
        at: s.below(1000) as u16,
        xor: s.range(1, 255) as u8,
        noise: s.bytes(400),
    }
}
fn check_h(c: &Hostile, o: &mut Obs) -> Res {
    let _clk = VClock::start();
    let (cc, sc) = cached(c.kind != 0);
    let mut srv = ServerConnection::new(sc).unwrap();
    let op = MqttClientOptions::builder().client_id("x").username("u").password(b"TOP-SECRET".to_vec()).mqtt_version(crate::conv::ver(c.v5)).build();
    let name = if c.kind == 1 { "elsewhere.test" } else { "localhost" };
    let Ok(mut e) = TlsMqttEngine::new(op, name, cc) else {
        return fail("new", "cannot create the engine");
    };
    e.connect();
    let mut errs = 0;
    let mut events = vec![];
    let mut got = vec![];
    let mut fi = 0;
    let mut feed = |e: &mut TlsMqttEngine, d: &[u8], errs: &mut u32| {
        let mut d = d;
        while !d.is_empty() {
            let n = c.frag[fi % c.frag.len()].min(d.len());
            fi += 1;
            if e.handle_socket_data(&d[..n]).is_err() {
                *errs += 1;
            }
            d = &d[n..];
        }
    };
    let pump = |srv: &mut ServerConnection, data: &[u8], got: &mut Vec<u8>| {
        let mut d = data;
        while !d.is_empty() {
            if srv.read_tls(&mut d).is_err() || srv.process_new_packets().is_err() {
                break;
            }
            let mut buf = vec![0; 65536];
            while let Ok(n) = srv.reader().read(&mut buf) {
                if n == 0 {
                    break;
                }
                got.extend_from_slice(&buf[..n]);
            }
        }
    };
    if c.kind == 3 {
        feed(&mut e, &c.noise, &mut errs);
        events.extend(e.handle_tick(Instant::now()));
        let _ = e.take_socket_data();
        feed(&mut e, &c.noise, &mut errs);
        events.extend(e.handle_tick(Instant::now()));
        ensure!(events.is_empty() && !e.is_connected(), "events-from-noise", "{} events from random bytes", events.len());
        o.nt_if(c.noise.len() > 20);
        o.label("random bytes");
        return Ok(());
    }
    for _ in 0..50 {
        events.extend(e.handle_tick(Instant::now()));
        let out = e.take_socket_data();
        pump(&mut srv, &out, &mut got);
        let mut back = vec![];
        while srv.wants_write() {
            let _ = srv.write_tls(&mut back);
        }
        if out.is_empty() && back.is_empty() {
            break;
        }
        feed(&mut e, &back, &mut errs);
    }
    if c.kind <= 1 {
        ensure!(errs > 0, "untrusted-accepted", "the handshake with a server that is not {name} succeeds");
        ensure!(got.is_empty(), "leak-to-untrusted", "an untrusted server received {} bytes of MQTT", got.len());
        ensure!(events.is_empty() && !e.is_connected(), "connected-to-untrusted", "events from an untrusted server: {:?}", evs(&events));
        let out = e.take_socket_data();
        ensure!(!out.windows(10).any(|w| w == b"TOP-SECRET"), "leak-plaintext", "the password leaves unencrypted");
        o.label("untrusted server");
        o.nt();
        return Ok(());
    }
    ensure!(errs == 0, "handshake", "the handshake with a trusted server fails");
    ensure!(got.windows(10).any(|w| w == b"TOP-SECRET"), "no-connect", "CONNECT did not arrive");
    // what an intact stream delivers
    let mut plain = refcodec::encode(&R::Connack { sp: false, code: 0, props: vec![] }, c.v5, 0);
    let mut all = vec![];
    srv.writer().write_all(&plain).unwrap();
    while srv.wants_write() {
        srv.write_tls(&mut all).unwrap();
    }
    for i in 0..c.msgs {
        let b = refcodec::encode(&R::Publish { dup: false, qos: 0, retain: false, topic: "in".into(), pid: 0, props: vec![], payload: vec![i; 100] }, c.v5, 0);
        plain.extend(&b);
        srv.writer().write_all(&b).unwrap();
        while srv.wants_write() {
            srv.write_tls(&mut all).unwrap();
        }
    }
    let mut twin = MqttEngine::new(MqttClientOptions::builder().client_id("x").mqtt_version(crate::conv::ver(c.v5)).build());
    twin.connect();
    let full = evs(&twin.handle_incoming(&plain));
    let at = (all.len() - 1) * c.at as usize / 999;
    if c.kind == 2 {
        all[at] ^= c.xor;
    } else {
        all.truncate(at);
    }
    feed(&mut e, &all, &mut errs);
    for _ in 0..20 {
        events.extend(e.handle_tick(Instant::now()));
    }
    let got_ev = evs(&events);
    ensure!(
        got_ev.len() <= full.len() && got_ev[..] == full[..got_ev.len()],
        "altered-delivered",
        "the events after altered or cut ciphertext are no prefix of the intact ones: {got_ev:?}"
    );
    if c.kind == 2 {
// (the record header's legacy version bytes may be altered unnoticed)
        o.label("altered record");
    } else {
        o.label("truncated stream");
    }
    o.nt();
    Ok(())
}

pub fn x01() -> Property {
    Property {
        id: "X01",
        rule: "at least three operations after the handshake and two events; hostile: a handshake or more than 20 bytes took place",
        assumptions: &["rustls itself (the peer) is correct.", "The application drives the engine as its documentation says: tick, then take the socket data."],
        subs: vec![
            Box::new(Sub { name: "transparent", quick: 12_000, thorough: 150_000, threads: 0, gen, check }),
            Box::new(Sub { name: "hostile", quick: 6_000, thorough: 150_000, threads: 0, gen: gen_h, check: check_h }),
        ],
    }
}

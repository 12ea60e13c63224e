//! F02: the TLS and QUIC objects and C functions, against a server in memory and
//! next to the Rust engine in the same situation.
use crate::core::{fail, Obs, Property, Res, Src, Sub};
use crate::ensure;
use crate::p_ffi::{c_list, events, ffi_events, json_events, listed};
use crate::p_tls;
use crate::quicnet::{saddr, server, Net, Params, QuicEnd};
use crate::refcodec::{self, R};
use crate::vclock::VClock;
use flowsdk::mqtt_client::commands::{PublishCommand, SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_client::engine::QuicMqttEngine;
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk::mqtt_client::tls_engine::TlsMqttEngine;
use flowsdk_ffi::engine::ffi_types::*;
use flowsdk_ffi::engine::*;
use rustls::ServerConnection;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::ffi::{CStr, CString};
use std::io::{Read, Write};
use std::net::SocketAddr;
use std::sync::Arc;
use std::time::Instant;

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Pem {
    None,
    Right,
    Other,
    Missing,
    /// authorities: both in one file; certificate: with an intermediate one
    Both,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Pub { topic: u8, len: u32, qos: u8 },
    Sub { topic: u8, qos: u8 },
    Unsub { topic: u8 },
    Msg { len: u16, qos: u8 },
    Pass(u32),
    Disconnect,
}
#[derive(Debug, Serialize, Deserialize)]
struct Case {
    quic: bool,
    /// the C functions; JSON events or the list
    c: bool,
    list: bool,
    v5: bool,
    clean: bool,
    ka: u16,
    user: bool,
    pass: bool,
    /// QUIC: something that is no address (1) or no name (2) comes first
    bad: u8,
    ca: Pem,
    cert: Pem,
    insecure: bool,
    /// what the client asks for: nothing said, mqtt, other
    alpn: u8,
    trusted: bool,
    name_ok: bool,
    auth: bool,
    /// the kind of the server's key
    key: u8,
    srv_alpn: bool,
    ops: Vec<Op>,
    junk: Vec<u8>,
}
fn gen(s: &mut Src) -> Case {
    let quic = s.bool();
    let plain = s.bool();
    Case {
        quic,
        c: s.bool(),
        list: s.bool(),
        v5: s.bool(),
        clean: s.bool(),
        ka: *s.pick(&[60, 0, 5]),
        user: s.bool(),
        // MQTT 3.1.1 has no password without a user name
        pass: s.bool(),
        bad: s.weighted(&[8, 1, 1]) as u8,
        ca: if plain { Pem::Right } else { *s.pick(&[Pem::Right, Pem::None, Pem::Other, Pem::Missing, Pem::Right, Pem::Both]) },
        cert: *s.pick(&[Pem::None, Pem::Right, Pem::Other, Pem::Missing, Pem::Both]),
        insecure: s.chance(1, 4),
        alpn: if plain { s.below(2) as u8 } else { s.below(3) as u8 },
        trusted: plain || s.bool(),
        name_ok: plain || s.chance(2, 3),
        auth: s.chance(1, 3),
        key: if plain { s.below(p_tls::KEYS - 1) } else { s.below(p_tls::KEYS) } as u8,
        srv_alpn: quic || s.bool(),
        ops: s.vec(0, 12, 4, |s| match s.weighted(&[5, 2, 1, 4, 2, 1]) {
            0 => Op::Pub { topic: s.below(6) as u8, len: *s.pick(&[0, 10, 100, 20_000, 70_000]), qos: s.below(4) as u8 },
            1 => Op::Sub { topic: s.below(6) as u8, qos: s.below(4) as u8 },
            2 => Op::Unsub { topic: s.below(6) as u8 },
            3 => Op::Msg { len: *s.pick(&[0, 10, 30_000]), qos: s.below(3) as u8 },
            4 => Op::Pass(*s.pick(&[100, 5_000, 61_000])),
            _ => Op::Disconnect,
        }),
        junk: if s.chance(1, 8) { s.bytes(60) } else { vec![] },
    }
}
const TOPICS: [&str; 6] = ["a", "a/b", "é", "", "x/#", "t"];

fn file(n: &str) -> String {
    format!("{}/certs/{n}", env!("CARGO_MANIFEST_DIR"))
}
fn pems(p: Pem) -> (Option<String>, Option<String>) {
    let (a, b) = match p {
        Pem::None => return (None, None),
        Pem::Right => ("leaf_ca.pem", "leaf_ca.key"),
        Pem::Other => ("leaf_other.pem", "leaf_other.key"),
        Pem::Missing => ("no.pem", "no.key"),
        Pem::Both => ("leaf_ca_chain.pem", "leaf_ca_chain.key"),
    };
    (Some(file(a)), Some(file(b)))
}
fn ca(p: Pem) -> Option<String> {
    match p {
        Pem::None => None,
        Pem::Right => Some(file("ca.pem")),
        Pem::Other => Some(file("other.pem")),
        Pem::Missing => Some(file("missing.pem")),
        Pem::Both => Some(file("both.pem")),
    }
}
fn name(c: &Case) -> &'static str {
    if c.name_ok {
        "localhost"
    } else {
        "other.example"
    }
}
fn opts(c: &Case) -> MqttOptionsFFI {
    MqttOptionsFFI {
        client_id: "ffi".into(),
        mqtt_version: if c.v5 { 5 } else { 4 },
        clean_start: c.clean || c.c,
        keep_alive: if c.c { 60 } else { c.ka },
        username: (c.user && !c.c).then(|| "user".into()),
        password: (c.pass && (c.user || c.v5) && !c.c).then(|| "TOP-SECRET".into()),
        reconnect_base_delay_ms: 1000,
        reconnect_max_delay_ms: 30000,
        max_reconnect_attempts: 0,
    }
}
fn rust_opts(c: &Case) -> MqttClientOptions {
    let o = opts(c);
    let mut b = MqttClientOptions::builder()
        .client_id(o.client_id)
        .mqtt_version(o.mqtt_version)
        .clean_start(o.clean_start)
        .keep_alive(o.keep_alive)
        .reconnect_base_delay_ms(o.reconnect_base_delay_ms)
        .reconnect_max_delay_ms(o.reconnect_max_delay_ms)
        .max_reconnect_attempts(o.max_reconnect_attempts);
    if let Some(u) = o.username {
        b = b.username(u);
    }
    if let Some(p) = o.password {
        b = b.password(p);
    }
    b.build()
}
fn tls_opts(c: &Case) -> MqttTlsOptionsFFI {
    let (cert, key) = pems(c.cert);
    MqttTlsOptionsFFI {
        ca_cert_file: ca(c.ca),
        client_cert_file: cert,
        client_key_file: key,
        insecure_skip_verify: c.insecure,
        alpn_protocols: match c.alpn {
            0 => vec![],
            1 => vec!["mqtt".into()],
            _ => vec!["other".into()],
        },
        enable_key_log: false,
    }
}
/// The options as C structures.
struct COpts {
    s: Vec<CString>,
    o: MqttTlsOptionsC,
}
fn c_opts(c: &Case) -> COpts {
    let t = tls_opts(c);
    let mut s = vec![];
    let mut p = |x: Option<String>| match x {
        None => std::ptr::null(),
        Some(x) => {
            s.push(CString::new(x).unwrap());
            s.last().unwrap().as_ptr()
        }
    };
    let o = MqttTlsOptionsC {
        ca_cert_file: p(t.ca_cert_file),
        client_cert_file: p(t.client_cert_file),
        client_key_file: p(t.client_key_file),
        alpn: p(t.alpn_protocols.into_iter().next()),
        insecure_skip_verify: t.insecure_skip_verify as u8,
        enable_key_log: 0,
    };
    COpts { s, o }
}

enum End {
    TlsR(Box<TlsMqttEngine>),
    TlsF(TlsMqttEngineFFI),
    TlsC(*mut TlsMqttEngineFFI),
    QuicR(Box<QuicMqttEngine>),
    QuicF(QuicMqttEngineFFI),
    QuicC(*mut QuicMqttEngineFFI),
}
struct Side {
    e: End,
    t0: Instant,
    /// events as they were returned or, of a Rust engine, would be told
    told: Vec<Value>,
}
impl Drop for Side {
    fn drop(&mut self) {
        unsafe {
            match self.e {
                End::TlsC(p) => mqtt_tls_engine_free(p),
                End::QuicC(p) => mqtt_quic_engine_free(p),
                _ => {}
            }
        }
    }
}
fn text(p: &str) -> CString {
    CString::new(p).unwrap()
}
impl QuicEnd for Side {
    type Event = ();
    fn take(&mut self) -> Vec<(SocketAddr, Vec<u8>)> {
        match &mut self.e {
            End::QuicR(e) => e.take_outgoing_datagrams().into(),
            End::QuicF(e) => e.take_outgoing_datagrams().into_iter().map(|d| (d.addr.parse().unwrap(), d.data)).collect(),
            End::QuicC(e) => unsafe {
                let mut n = usize::MAX;
                let p = mqtt_quic_engine_take_outgoing_datagrams(*e, &mut n);
                if p.is_null() {
                    assert_eq!(n, 0);
                    return vec![];
                }
                let v = std::slice::from_raw_parts(p, n)
                    .iter()
                    .map(|d| (CStr::from_ptr(d.addr).to_str().unwrap().parse().unwrap(), std::slice::from_raw_parts(d.data, d.data_len).to_vec()))
                    .collect();
                mqtt_quic_engine_free_datagrams(p, n);
                v
            },
            _ => unreachable!(),
        }
    }
    fn datagram(&mut self, d: Vec<u8>, from: SocketAddr) {
        let now = self.ms();
        match &mut self.e {
            End::QuicR(e) => e.handle_datagram(d, from, Instant::now()),
            End::QuicF(e) => e.handle_datagram(d, from.to_string(), now),
            End::QuicC(e) => unsafe { mqtt_quic_engine_handle_datagram(*e, d.as_ptr(), d.len(), text(&from.to_string()).as_ptr()) },
            _ => unreachable!(),
        }
    }
    fn tick(&mut self) -> Vec<()> {
        let now = self.ms();
        let t = match &mut self.e {
            End::TlsR(e) => events(&e.handle_tick(Instant::now())),
            End::QuicR(e) => events(&e.handle_tick(Instant::now())),
            End::TlsF(e) => ffi_events(&e.handle_tick(now)),
            End::QuicF(e) => ffi_events(&e.handle_tick(now)),
            End::TlsC(e) => unsafe {
                mqtt_tls_engine_handle_tick(*e, now);
                vec![]
            },
            End::QuicC(e) => unsafe {
                mqtt_quic_engine_handle_tick(*e, now);
                vec![]
            },
        };
        self.told.extend(t);
        vec![]
    }
}
fn pid(r: Result<Option<u16>, flowsdk::mqtt_client::MqttClientError>) -> i32 {
    r.map_or(-1, |x| x.map_or(0, |x| x as i32))
}
impl Side {
    fn ms(&self) -> u64 {
        (Instant::now() - self.t0).as_millis() as u64
    }
    fn rust(c: &Case) -> Side {
        let e = if c.quic { End::QuicR(Box::new(QuicMqttEngine::new(rust_opts(c)).unwrap())) } else { End::TlsR(Box::new(TlsMqttEngine::new(rust_opts(c), name(c), Arc::new(rust_tls(c))).unwrap())) };
        Side { e, t0: Instant::now(), told: vec![] }
    }
    fn foreign(c: &Case) -> Side {
        let v = if c.v5 { 5 } else { 4 };
        let id = text("ffi");
        let e = match (c.quic, c.c) {
            (false, false) => End::TlsF(TlsMqttEngineFFI::new(opts(c), tls_opts(c), name(c).into())),
            (true, false) => End::QuicF(QuicMqttEngineFFI::new(opts(c))),
            (false, true) => {
                let o = c_opts(c);
                let n = text(name(c));
                let r = End::TlsC(unsafe { mqtt_tls_engine_new(id.as_ptr(), v, n.as_ptr(), &o.o) });
                drop(o.s);
                r
            }
            (true, true) => End::QuicC(unsafe { mqtt_quic_engine_new(id.as_ptr(), v) }),
        };
        Side { e, t0: Instant::now(), told: vec![] }
    }
    fn connect(&mut self, c: &Case) -> Result<(), String> {
        let now = self.ms();
        match &mut self.e {
            End::TlsR(e) => e.connect(),
            End::TlsF(e) => e.connect(),
            End::TlsC(e) => unsafe { mqtt_tls_engine_connect(*e) },
            End::QuicR(e) => e.connect(saddr(), name(c), rust_tls(c), Instant::now()).map_err(|x| format!("{x:?}"))?,
            End::QuicF(e) => e.connect(saddr().to_string(), name(c).into(), tls_opts(c), now),
            End::QuicC(e) => unsafe {
                let o = c_opts(c);
                let r = mqtt_quic_engine_connect(*e, text(&saddr().to_string()).as_ptr(), text(name(c)).as_ptr(), &o.o);
                drop(o.s);
                if r != 0 {
                    return Err(format!("connect returns {r}"));
                }
            },
        }
        Ok(())
    }
    fn connect_badly(&mut self, c: &Case) {
        let now = self.ms();
        let (addr, name) = if c.bad == 1 { ("localhost:77777", name(c)) } else { ("127.0.0.1:14567", "no name!") };
        match &mut self.e {
            End::QuicR(e) => {
                if c.bad == 2 {
                    assert!(e.connect(saddr(), name, rust_tls(c), Instant::now()).is_err());
                } else {
                    self.told.push(json!("Error"));
                }
                self.told.push(json!("Error"));
            }
            End::QuicF(e) => {
                e.connect(addr.into(), name.into(), tls_opts(c), now);
                if c.bad == 1 {
                    e.handle_datagram(vec![1, 2, 3], "nowhere".into(), now);
                }
            }
            End::QuicC(e) => unsafe {
                let o = c_opts(c);
                mqtt_quic_engine_connect(*e, text(addr).as_ptr(), text(name).as_ptr(), &o.o);
                if c.bad == 1 {
                    mqtt_quic_engine_handle_datagram(*e, [1, 2, 3].as_ptr(), 3, text("nowhere").as_ptr());
                }
                drop(o.s);
            },
            _ => unreachable!(),
        }
    }
    fn publish(&mut self, topic: &str, p: Vec<u8>, qos: u8) -> i32 {
        let cmd = || {
            let mut c = PublishCommand::simple(topic.to_string(), vec![], qos, false);
            c.payload = p.clone();
            c
        };
        match &mut self.e {
            End::TlsR(e) => pid(e.publish(cmd())),
            End::QuicR(e) => pid(e.publish(cmd())),
            End::TlsF(e) => e.publish(topic.into(), p, qos),
            End::QuicF(e) => e.publish(topic.into(), p, qos),
            End::TlsC(e) => unsafe { mqtt_tls_engine_publish(*e, text(topic).as_ptr(), p.as_ptr(), p.len(), qos) },
            End::QuicC(e) => unsafe { mqtt_quic_engine_publish(*e, text(topic).as_ptr(), p.as_ptr(), p.len(), qos) },
        }
    }
    fn subscribe(&mut self, topic: &str, qos: u8) -> i32 {
        let cmd = || SubscribeCommand::single(topic.to_string(), qos);
        match &mut self.e {
            End::TlsR(e) => pid(e.subscribe(cmd()).map(Some)),
            End::QuicR(e) => pid(e.subscribe(cmd()).map(Some)),
            End::TlsF(e) => e.subscribe(topic.into(), qos),
            End::QuicF(e) => e.subscribe(topic.into(), qos),
            End::TlsC(e) => unsafe { mqtt_tls_engine_subscribe(*e, text(topic).as_ptr(), qos) },
            End::QuicC(e) => unsafe { mqtt_quic_engine_subscribe(*e, text(topic).as_ptr(), qos) },
        }
    }
    fn unsubscribe(&mut self, topic: &str) -> i32 {
        let cmd = || UnsubscribeCommand::from_topics(vec![topic.to_string()]);
        match &mut self.e {
            End::TlsR(e) => pid(e.unsubscribe(cmd()).map(Some)),
            End::QuicR(e) => pid(e.unsubscribe(cmd()).map(Some)),
            End::TlsF(e) => e.unsubscribe(topic.into()),
            End::QuicF(e) => e.unsubscribe(topic.into()),
            End::TlsC(e) => unsafe { mqtt_tls_engine_unsubscribe(*e, text(topic).as_ptr()) },
            End::QuicC(e) => unsafe { mqtt_quic_engine_unsubscribe(*e, text(topic).as_ptr()) },
        }
    }
    fn disconnect(&mut self) {
        match &mut self.e {
            End::TlsR(e) => e.disconnect(),
            End::QuicR(e) => e.disconnect(),
            End::TlsF(e) => e.disconnect(),
            End::QuicF(e) => e.disconnect(),
            End::TlsC(e) => unsafe { mqtt_tls_engine_disconnect(*e) },
            End::QuicC(e) => unsafe { mqtt_quic_engine_disconnect(*e) },
        }
    }
    fn connected(&self) -> bool {
        match &self.e {
            End::TlsR(e) => e.is_connected(),
            End::QuicR(e) => e.is_connected(),
            End::TlsF(e) => e.is_connected(),
            End::QuicF(e) => e.is_connected(),
            End::TlsC(e) => unsafe { mqtt_tls_engine_is_connected(*e) == 1 },
            End::QuicC(e) => unsafe { mqtt_quic_engine_is_connected(*e) == 1 },
        }
    }
    fn socket_take(&mut self) -> Vec<u8> {
        match &mut self.e {
            End::TlsR(e) => e.take_socket_data(),
            End::TlsF(e) => e.take_socket_data(),
            End::TlsC(e) => unsafe {
                let mut n = usize::MAX;
                let p = mqtt_tls_engine_take_socket_data(*e, &mut n);
                if p.is_null() {
                    assert_eq!(n, 0);
                    return vec![];
                }
                let v = std::slice::from_raw_parts(p, n).to_vec();
                mqtt_engine_free_bytes(p, n);
                v
            },
            _ => unreachable!(),
        }
    }
    fn socket_data(&mut self, d: &[u8]) {
        match &mut self.e {
            End::TlsR(e) => {
                if e.handle_socket_data(d).is_err() {
                    self.told.push(json!("Error"));
                }
            }
            End::TlsF(e) => e.handle_socket_data(d.to_vec()),
            End::TlsC(e) => unsafe { mqtt_tls_engine_handle_socket_data(*e, d.as_ptr(), d.len()) },
            _ => unreachable!(),
        }
    }
    /// All events since the last call, as far as this way in shows them.
    fn events(&mut self, c: &Case) -> Result<Vec<Value>, String> {
        let told = std::mem::take(&mut self.told);
        let full = match &mut self.e {
            End::TlsR(e) => [told, events(&e.take_events())].concat(),
            End::QuicR(e) => [told, events(&e.take_events())].concat(),
            End::TlsF(e) => {
                let v = ffi_events(&e.take_events());
                subsequence(&told, &v)?;
                v
            }
            End::QuicF(e) => {
                let v = ffi_events(&e.take_events());
                subsequence(&told, &v)?;
                v
            }
            End::TlsC(e) if c.list => return unsafe { c_list(mqtt_tls_engine_take_events_list(*e)) },
            End::QuicC(e) if c.list => return unsafe { c_list(mqtt_quic_engine_take_events_list(*e)) },
            End::TlsC(_) | End::QuicC(_) => unsafe {
                let p = match &self.e {
                    End::TlsC(e) => mqtt_tls_engine_take_events(*e),
                    End::QuicC(e) => mqtt_quic_engine_take_events(*e),
                    _ => unreachable!(),
                };
                let v = serde_json::from_str(CStr::from_ptr(p).to_str().map_err(|x| x.to_string())?).map_err(|x| x.to_string())?;
                mqtt_engine_free_string(p);
                json_events(v)
            },
        };
        Ok(if c.c && c.list { full.iter().map(listed).collect() } else { full })
    }
}
fn subsequence(a: &[Value], b: &[Value]) -> Result<(), String> {
    let mut i = b.iter();
    if a.iter().all(|x| i.any(|y| x == y)) {
        Ok(())
    } else {
        Err(format!("the events returned by handle_tick, {a:?}, are not among those of take_events, {b:?}"))
    }
}

/// What the Rust application of the same intent would use.
fn rust_tls(c: &Case) -> rustls::ClientConfig {
    let roots = match c.ca {
        Pem::Right => p_tls::roots(),
        Pem::Other => p_tls::other_roots(),
        Pem::Both => {
            let mut r = p_tls::roots();
            r.roots.extend(p_tls::other_roots().roots);
            r
        }
        _ => rustls::RootCertStore::empty(),
    };
    let mut cfg = match c.cert {
        Pem::Right => p_tls::client_config_with(roots, Some("leaf_ca")),
        Pem::Other => p_tls::client_config_with(roots, Some("leaf_other")),
        Pem::Both => p_tls::client_config_with(roots, Some("leaf_ca_chain")),
        _ => p_tls::client_config_with(roots, None),
    };
    if c.insecure {
        cfg.dangerous().set_certificate_verifier(Arc::new(Anyone));
    }
    cfg.alpn_protocols = vec![if c.alpn == 2 { b"other".to_vec() } else { b"mqtt".to_vec() }];
    cfg
}
#[derive(Debug)]
struct Anyone;
impl rustls::client::danger::ServerCertVerifier for Anyone {
    fn verify_server_cert(&self, _: &rustls_pki_types::CertificateDer<'_>, _: &[rustls_pki_types::CertificateDer<'_>], _: &rustls_pki_types::ServerName<'_>, _: &[u8], _: rustls_pki_types::UnixTime) -> Result<rustls::client::danger::ServerCertVerified, rustls::Error> {
        Ok(rustls::client::danger::ServerCertVerified::assertion())
    }
    fn verify_tls12_signature(&self, _: &[u8], _: &rustls_pki_types::CertificateDer<'_>, _: &rustls::DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        Ok(rustls::client::danger::HandshakeSignatureValid::assertion())
    }
    fn verify_tls13_signature(&self, _: &[u8], _: &rustls_pki_types::CertificateDer<'_>, _: &rustls::DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        Ok(rustls::client::danger::HandshakeSignatureValid::assertion())
    }
    fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> {
        p_tls::provider().signature_verification_algorithms.supported_schemes()
    }
}

struct Tls {
    s: ServerConnection,
    got: Vec<u8>,
    failed: bool,
}
enum Srv {
    Tls(Box<Tls>),
    Quic(Box<Net>),
}

/// One side, played through; everything observable in order.
fn play(c: &Case, mut me: Side, clk: &VClock) -> Result<Vec<Value>, String> {
    let mut out = vec![];
    let mut sc = p_tls::server_config_with(c.trusted, c.auth, c.key);
    let mut srv = if c.quic {
        Srv::Quic(Box::new(Net::new(server(sc, &Params { window: 1_000_000, streams: 100, idle_ms: 600_000 }), c.v5)))
    } else {
        if c.srv_alpn {
            sc.alpn_protocols = vec![b"mqtt".to_vec()];
        }
        let mut s = ServerConnection::new(Arc::new(sc)).unwrap();
        s.set_buffer_limit(None);
        Srv::Tls(Box::new(Tls { s, got: vec![], failed: false }))
    };
    let mut parsed = 0;
    let mut packets: Vec<Value> = vec![];
    let mut settle = |me: &mut Side, srv: &mut Srv, packets: &mut Vec<Value>| match srv {
        Srv::Quic(n) => {
            for _ in 0..60 {
                n.step(me, 5);
            }
        }
        Srv::Tls(t) => {
            for _ in 0..60 {
                clk.advance_ms(5);
                me.tick();
                let d = me.socket_take();
                let mut d = &d[..];
                let mut moved = !d.is_empty();
                while !d.is_empty() && !t.failed {
                    t.failed |= t.s.read_tls(&mut d).is_err() || t.s.process_new_packets().is_err();
                    let mut buf = [0; 4096];
                    while let Ok(n) = t.s.reader().read(&mut buf) {
                        if n == 0 {
                            break;
                        }
                        t.got.extend_from_slice(&buf[..n]);
                    }
                }
                // the broker
                while let Ok(Some(n)) = refcodec::frame_len(&t.got[parsed..]) {
                    if t.got.len() < parsed + n {
                        break;
                    }
                    let Ok(p) = refcodec::decode(&t.got[parsed..parsed + n], c.v5) else {
                        packets.push(json!("malformed"));
                        parsed += n;
                        continue;
                    };
                    parsed += n;
                    let a = match &p {
                        R::Connect { .. } => Some(R::Connack { sp: false, code: 0, props: vec![] }),
                        R::Publish { qos: 1, pid, .. } => Some(R::ack(4, *pid)),
                        R::Publish { qos: 2, pid, .. } => Some(R::ack(5, *pid)),
                        R::Ack { kind: 5, pid, .. } => Some(R::ack(6, *pid)),
                        R::Ack { kind: 6, pid, .. } => Some(R::ack(7, *pid)),
                        R::Subscribe { pid, subs, .. } => Some(R::Suback { pid: *pid, props: vec![], codes: vec![0; subs.len()] }),
                        R::Unsubscribe { pid, filters, .. } => Some(R::Unsuback { pid: *pid, props: vec![], codes: if c.v5 { vec![0; filters.len()] } else { vec![] } }),
                        R::Pingreq => Some(R::Pingresp),
                        _ => None,
                    };
                    packets.push(json!(format!("{p:?}")));
                    if let Some(a) = a {
                        t.s.writer().write_all(&refcodec::encode(&a, c.v5, 0)).unwrap();
                    }
                }
                let mut back = vec![];
                while t.s.wants_write() {
                    t.s.write_tls(&mut back).unwrap();
                }
                moved |= !back.is_empty();
                if !back.is_empty() {
                    me.socket_data(&back);
                }
                if !moved {
                    break;
                }
            }
        }
    };
    if !c.junk.is_empty() && c.quic {
        if !matches!(me.e, End::TlsC(_) | End::QuicC(_)) {
            me.datagram(c.junk.clone(), saddr());
        }
    }
    if c.bad > 0 && c.quic {
        me.connect_badly(c);
        settle(&mut me, &mut srv, &mut packets);
    }
    me.connect(c)?;
    settle(&mut me, &mut srv, &mut packets);
    settle(&mut me, &mut srv, &mut packets);
    out.push(json!({"connected": me.connected(), "events": me.events(c)?}));
    let mut next = 0;
    for op in &c.ops {
        let r = match op {
            Op::Pub { topic, len, qos } => me.publish(TOPICS[*topic as usize], vec![*len as u8; *len as usize], *qos),
            Op::Sub { topic, qos } => me.subscribe(TOPICS[*topic as usize], *qos),
            Op::Unsub { topic } => me.unsubscribe(TOPICS[*topic as usize]),
            Op::Msg { len, qos } => {
                next += 1;
                let r = R::Publish { dup: false, qos: *qos, retain: next % 3 == 0, topic: format!("in/{next}"), pid: if *qos > 0 { next } else { 0 }, props: vec![], payload: vec![next as u8; *len as usize] };
                match &mut srv {
                    Srv::Tls(t) if !t.s.is_handshaking() && !t.failed => t.s.writer().write_all(&refcodec::encode(&r, c.v5, 0)).unwrap(),
                    Srv::Quic(n) => {
                        let v5 = c.v5;
                        if let Some(k) = n.conn() {
                            if k.streams.contains_key(&0) {
                                k.push(0, r, v5);
                            }
                        }
                    }
                    _ => {}
                }
                0
            }
            Op::Pass(ms) => {
                clk.advance_ms(*ms as u64);
                0
            }
            Op::Disconnect => {
                me.disconnect();
                0
            }
        };
        settle(&mut me, &mut srv, &mut packets);
        out.push(json!({"op": format!("{op:?}"), "result": r, "connected": me.connected(), "events": me.events(c)?}));
    }
    if let Srv::Quic(n) = &srv {
        for k in &n.conns {
            for (id, s) in &k.streams {
                packets.push(json!({"stream": id, "junk": s.junk, "fin": s.fin.is_some(), "reset": s.reset, "got": s.got.iter().map(|x| format!("{:?}", x.1)).collect::<Vec<_>>()}));
            }
        }
    }
    out.push(json!({"server received": packets}));
    Ok(out)
}

fn check(c: &Case, o: &mut Obs) -> Res {
    let foreign = {
        let clk = VClock::start();
        play(c, Side::foreign(c), &clk)
    };
    let foreign = match foreign {
        Ok(x) => x,
        Err(x) => return fail("foreign", x),
    };
    let rust = {
        let clk = VClock::start();
        play(c, Side::rust(c), &clk)
    };
    let rust = match rust {
        Ok(x) => x,
        Err(x) => return fail("rust-engine", x),
    };
    let should = (c.insecure || c.name_ok && c.key != p_tls::EXPIRED && (c.ca == Pem::Both || c.ca == if c.trusted { Pem::Right } else { Pem::Other }))
        && (!c.auth || matches!(c.cert, Pem::Right | Pem::Both)) && !(c.alpn == 2 && c.srv_alpn);
    let is = foreign[0]["connected"] == json!(true);
    ensure!(is == should, if is { "connected" } else { "no-connection" }, "{}", foreign[0]);
    if !is {
        let e = foreign[0]["events"].as_array().unwrap();
        ensure!(e.iter().any(|x| *x == json!("Error") || x.to_string().contains("Disconnected")), "failure-not-reported", "the connection fails, the application sees {e:?}");
        ensure!(c.auth || foreign.last().unwrap().to_string().find("Connect").is_none(), "data-to-untrusted", "{}", foreign.last().unwrap());
    }
    for (a, b) in foreign.iter().zip(&rust) {
        if a != b {
            let cut = |v: &Value| v.to_string().chars().take(600).collect::<String>();
            return fail("differs", format!("foreign side {} ; Rust engine {}", cut(a), cut(b)));
        }
    }
    if c.c {
        let go = || {
            let clk = VClock::start();
            let _ = play(c, Side::foreign(c), &clk);
        };
        let before = crate::alloc::live();
        go();
        let after = crate::alloc::live();
        ensure!(after <= before, "leak", "{} bytes more are allocated after everything was freed than before the engine was made", after - before);
    }
    o.label(match (c.quic, c.c) {
        (false, false) => "TLS object",
        (false, true) => "TLS C",
        (true, false) => "QUIC object",
        _ => "QUIC C",
    });
    o.label(if is { "connected" } else { "refused" });
    if c.auth && is {
        o.label("client certificate accepted");
    }
    o.nt_if(!is || c.ops.len() >= 2);
    Ok(())
}

pub fn f02() -> Property {
    Property {
        id: "F02",
        rule: "the connection was refused, or made and used by at least two operations",
        assumptions: &["The Rust engines are the oracle (X01 to X03 judge them); rustls and quinn-proto, the server's side, are correct.", "The host trusts none of the generated certificates."],
        subs: vec![Box::new(Sub { name: "secure", quick: 40_000, thorough: 1_000_000, threads: 0, gen, check })],
    }
}

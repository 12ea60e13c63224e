//! F01: the foreign-language objects and the C functions against the Rust engine.
use crate::conv;
use crate::core::{fail, Obs, Property, Res, Src, Sub};
use crate::ensure;
use crate::refcodec::{self, R};
use crate::vclock::VClock;
use flowsdk::mqtt_client::commands::{PublishCommand, SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_client::engine::{MqttEngine, MqttEvent};
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk_ffi::engine::ffi_types::*;
use flowsdk_ffi::engine::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::ffi::{CStr, CString};
use std::os::raw::c_char;
use std::time::{Duration, Instant};

/// What a foreign application is told about an event; none for those it does not see.
pub fn event(e: &MqttEvent) -> Option<Value> {
    Some(match e {
        MqttEvent::Connected(r) => json!({"Connected": {"reason_code": r.reason_code, "session_present": r.session_present}}),
        MqttEvent::Disconnected(c) => json!({"Disconnected": {"reason_code": c}}),
        MqttEvent::MessageReceived(m) => json!({"MessageReceived": {"topic": m.topic_name, "payload": m.payload, "qos": m.qos, "retain": m.retain}}),
        MqttEvent::Published(r) => json!({"Published": {"packet_id": r.packet_id, "reason_code": r.reason_code, "qos": r.qos}}),
        MqttEvent::Subscribed(r) => json!({"Subscribed": {"packet_id": r.packet_id, "reason_codes": r.reason_codes}}),
        MqttEvent::Unsubscribed(r) => json!({"Unsubscribed": {"packet_id": r.packet_id, "reason_codes": r.reason_codes}}),
        MqttEvent::PingResponse(r) => json!({"PingResponse": {"success": r.success}}),
        // the wording is not judged
        MqttEvent::Error(_) => json!("Error"),
        MqttEvent::StreamClosed { stream_id, reason, by_peer } => json!({"StreamClosed": {"stream_id": stream_id, "reason": reason, "by_peer": by_peer}}),
        MqttEvent::StreamReset { stream_id, error_code } => json!({"StreamReset": {"stream_id": stream_id, "error_code": error_code}}),
        MqttEvent::StreamStopped { stream_id, error_code } => json!({"StreamStopped": {"stream_id": stream_id, "error_code": error_code}}),
        MqttEvent::ReconnectNeeded => json!("ReconnectNeeded"),
        MqttEvent::ReconnectScheduled { attempt, delay } => json!({"ReconnectScheduled": {"attempt": attempt, "delay_ms": delay.as_millis() as u64}}),
        _ => return None,
    })
}
pub fn events(e: &[MqttEvent]) -> Vec<Value> {
    e.iter().filter_map(event).collect()
}
pub fn ffi_events(e: &[MqttEventFFI]) -> Vec<Value> {
    json_events(serde_json::to_value(e).unwrap())
}
pub fn json_events(v: Value) -> Vec<Value> {
    let Value::Array(v) = v else { panic!("no list of events") };
    v.into_iter().map(|x| if x.get("Error").is_some() { json!("Error") } else { x }).collect()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Connect,
    Pub { topic: String, len: u16, qos: u8, prio: Option<u8> },
    Sub { topic: String, qos: u8 },
    Unsub { topic: String },
    Disconnect,
    Auth(u8),
    Lost,
    /// from the broker
    In(R),
    /// acknowledgements of everything taken so far
    Acks,
    Junk(Vec<u8>),
    Advance { us: u64, tick: bool },
    /// goes to the announced time and ticks
    Next,
    Take,
    Events,
}
#[derive(Debug, Serialize, Deserialize)]
struct Opts {
    id: Option<String>,
    full: bool,
    version: u8,
    clean: bool,
    ka: u16,
    user: Option<String>,
    pass: Option<String>,
    base: u64,
    max: u64,
    attempts: u32,
}
#[derive(Debug, Serialize, Deserialize)]
struct Case {
    /// 0 the object, 1 the C functions with JSON events, 2 with the event list
    via: u8,
    o: Opts,
    frag: Vec<usize>,
    ops: Vec<Op>,
}
fn topic(s: &mut Src) -> String {
    match s.below(12) {
        0..=7 => ["a", "a/b", "sensor/1", "é/ß", "x/y/z"][s.below(5) as usize].to_string(),
        8 => String::new(),
        9 => "a/#".into(),
        10 => "+/b".into(),
        _ => "t".repeat(s.usize(1, 70_000)),
    }
}
fn gen(s: &mut Src) -> Case {
    let v = *s.pick(&[5u8, 4, 3, 5, 4]);
    let v5 = v == 5;
    let via = s.below(3) as u8;
    let frag = s.vec(1, 3, 1, |s| *s.pick(&[1_000_000usize, 1, 3, 7, 20]));
    let o = Opts {
        id: if s.chance(1, 6) { None } else { Some(format!("client-{}", s.below(5))) },
        full: s.chance(3, 4),
        version: v,
        clean: s.bool(),
        ka: *s.pick(&[60, 0, 1, 7, 65535]),
        user: if s.bool() { Some(format!("user{}", s.below(3))) } else { None },
        pass: if s.bool() { Some(format!("pass{}", s.below(3))) } else { None },
        base: if s.bool() { s.below(100_000) } else { *s.pick(&[1000, 0, 1, 50, 12345]) },
        max: if s.chance(1, 4) { s.below(1_000_000) } else { *s.pick(&[30000, 1000, 1, 60000]) },
        attempts: *s.pick(&[0, 1, 2, 5]),
    };
    let mut pid = 0;
    let mut ops = vec![Op::Connect, Op::Take, Op::In(R::Connack { sp: false, code: 0, props: vec![] })];
    if s.chance(1, 5) {
        ops.clear();
    }
    let n = s.usize(1, 40);
    for _ in 0..n {
        ops.push(match s.weighted(&[1, 8, 2, 2, 1, 1, 1, 6, 4, 1, 5, 3, 4, 4]) {
            0 => Op::Connect,
            1 => Op::Pub { topic: topic(s), len: if s.chance(1, 6) { s.below(20_000) as u16 } else { s.below(30) as u16 }, qos: s.weighted(&[4, 4, 4, 1]) as u8, prio: if s.chance(1, 3) { Some(s.u8()) } else { None } },
            2 => Op::Sub { topic: topic(s), qos: s.weighted(&[4, 4, 4, 1]) as u8 },
            3 => Op::Unsub { topic: topic(s) },
            4 => Op::Disconnect,
            5 => Op::Auth(*s.pick(&[0x18, 0x19, 0])),
            6 => Op::Lost,
            7 => Op::In(match s.weighted(&[8, 1, 2, 1, 1]) {
                0 => {
                    pid += 1;
                    let qos = s.below(3) as u8;
                    R::Publish { dup: false, qos, retain: s.bool(), topic: format!("in/{}", s.below(3)), pid: if qos > 0 { pid } else { 0 }, props: vec![], payload: s.bytes(40) }
                }
                1 => R::Pingresp,
                2 => R::Connack { sp: s.bool(), code: if s.chance(1, 4) { if v5 { 0x87 } else { 5 } } else { 0 }, props: vec![] },
                3 if v5 => R::Disconnect { code: 0x8b, props: vec![] },
                _ => R::ack(4, s.u16().max(1)),
            }),
            8 => Op::Acks,
            9 => Op::Junk(s.bytes(12)),
            10 => Op::Advance { us: *s.pick(&[1_000, 500, 1_000_000, 999_999, 60_000_000, 90_000_001, 2_500]), tick: s.bool() },
            11 => Op::Next,
            12 => Op::Take,
            _ => Op::Events,
        });
    }
    Case { via, o, frag, ops }
}

/// The two ways in.
enum E {
    Obj(MqttEngineFFI),
    C(*mut MqttEngineFFI),
}
unsafe fn c_text(p: *mut c_char) -> Option<String> {
    if p.is_null() {
        return None;
    }
    let s = CStr::from_ptr(p).to_str().unwrap().to_string();
    mqtt_engine_free_string(p);
    Some(s)
}
unsafe fn c_bytes(p: *mut u8, n: usize) -> Vec<u8> {
    if p.is_null() {
        return vec![];
    }
    let v = std::slice::from_raw_parts(p, n).to_vec();
    mqtt_engine_free_bytes(p, n);
    v
}
/// An event list, read through its accessors.
pub unsafe fn c_list(l: *mut MqttEventListFFI) -> Result<Vec<Value>, String> {
    let n = mqtt_event_list_len(l);
    let mut out = vec![];
    for i in 0..n + 2 {
        let tag = mqtt_event_list_get_tag(l, i);
        let topic = c_text(mqtt_event_list_get_message_topic(l, i));
        let mut len = usize::MAX;
        let p = mqtt_event_list_get_message_payload(l, i, &mut len);
        let payload = if p.is_null() { None } else { Some(c_bytes(p, len)) };
        let rc = mqtt_event_list_get_connected_rc(l, i);
        let pub_pid = mqtt_event_list_get_published_pid(l, i);
        let sub_pid = mqtt_event_list_get_subscribed_pid(l, i);
        let err = c_text(mqtt_event_list_get_error_message(l, i));
        let id = mqtt_event_list_get_stream_id(l, i);
        let code = mqtt_event_list_get_stream_error_code(l, i);
        let reason = c_text(mqtt_event_list_get_stream_close_reason(l, i));
        let by_peer = mqtt_event_list_get_stream_closed_by_peer(l, i);
        if (topic.is_some(), payload.is_some(), err.is_some(), reason.is_some(), by_peer >= 0) != (tag == 3, tag == 3, tag == 8, tag == 11, tag == 11) {
            return Err(format!("event {i} has tag {tag}, topic {topic:?}, error {err:?}, reason {reason:?}"));
        }
        out.push(match tag {
            0 => {
                if i < n {
                    return Err(format!("event {i} of {n} has no tag"));
                }
                continue;
            }
            1 => json!({"Connected": rc}),
            2 => json!("Disconnected"),
            3 => json!({"MessageReceived": {"topic": topic, "payload": payload}}),
            4 => json!({"Published": pub_pid}),
            5 => json!({"Subscribed": sub_pid}),
            6 => json!("Unsubscribed"),
            7 => json!("PingResponse"),
            8 => json!("Error"),
            9 => json!("ReconnectNeeded"),
            10 => json!("ReconnectScheduled"),
            11 => json!({"StreamClosed": {"id": id, "reason": reason, "by_peer": by_peer == 1}}),
            12 => json!({"StreamReset": {"id": id, "code": code}}),
            13 => json!({"StreamStopped": {"id": id, "code": code}}),
            _ => return Err(format!("tag {tag}")),
        });
    }
    mqtt_event_list_free(l);
    if out.len() != n {
        return Err(format!("{} events in a list of {n}", out.len()));
    }
    Ok(out)
}
/// What the list shows of an event.
pub fn listed(v: &Value) -> Value {
    let (k, x) = match v {
        Value::String(s) => (s.as_str(), &Value::Null),
        v => v.as_object().unwrap().iter().map(|(k, v)| (k.as_str(), v)).next().unwrap(),
    };
    match k {
        "Connected" => json!({"Connected": x["reason_code"]}),
        "MessageReceived" => json!({"MessageReceived": {"topic": x["topic"], "payload": x["payload"]}}),
        "Published" => json!({"Published": x["packet_id"].as_u64().unwrap_or(0)}),
        "Subscribed" => json!({"Subscribed": x["packet_id"]}),
        "StreamClosed" => json!({"StreamClosed": {"id": x["stream_id"], "reason": x["reason"], "by_peer": x["by_peer"]}}),
        "StreamReset" => json!({"StreamReset": {"id": x["stream_id"], "code": x["error_code"]}}),
        "StreamStopped" => json!({"StreamStopped": {"id": x["stream_id"], "code": x["error_code"]}}),
        k => json!(k),
    }
}

impl E {
    fn new(c: &Case) -> E {
        let o = &c.o;
        let id = o.id.clone();
        if c.via == 0 {
            return E::Obj(if o.full {
                MqttEngineFFI::new_with_opts(MqttOptionsFFI {
                    client_id: id.unwrap_or("mqtt_client".into()),
                    mqtt_version: o.version,
                    clean_start: o.clean,
                    keep_alive: o.ka,
                    username: o.user.clone(),
                    password: o.pass.clone(),
                    reconnect_base_delay_ms: o.base,
                    reconnect_max_delay_ms: o.max,
                    max_reconnect_attempts: o.attempts,
                })
            } else {
                MqttEngineFFI::new(id, o.version)
            });
        }
        let c = |x: &Option<String>| x.clone().map(|x| CString::new(x).unwrap());
        let (id, user, pass) = (c(&id), c(&o.user), c(&o.pass));
        let p = |x: &Option<CString>| x.as_ref().map_or(std::ptr::null(), |x| x.as_ptr());
        unsafe {
            E::C(if o.full {
                mqtt_engine_new_with_opts(&MqttOptionsC {
                    client_id: p(&id),
                    mqtt_version: o.version,
                    clean_start: o.clean,
                    keep_alive: o.ka,
                    username: p(&user),
                    password: p(&pass),
                    reconnect_base_delay_ms: o.base,
                    reconnect_max_delay_ms: o.max,
                    max_reconnect_attempts: o.attempts,
                })
            } else {
                mqtt_engine_new(p(&id), o.version)
            })
        }
    }
    fn connect(&self) {
        match self {
            E::Obj(e) => e.connect(),
            E::C(e) => unsafe { mqtt_engine_connect(*e) },
        }
    }
    fn lost(&self) {
        match self {
            E::Obj(e) => e.handle_connection_lost(),
            E::C(e) => unsafe { mqtt_engine_handle_connection_lost(*e) },
        }
    }
    /// The events are returned by the object only.
    fn incoming(&self, d: &[u8]) -> Option<Vec<Value>> {
        match self {
            E::Obj(e) => Some(ffi_events(&e.handle_incoming(d.to_vec()))),
            E::C(e) => unsafe {
                mqtt_engine_handle_incoming(*e, d.as_ptr(), d.len());
                None
            },
        }
    }
    fn tick(&self, ms: u64) -> Option<Vec<Value>> {
        match self {
            E::Obj(e) => Some(ffi_events(&e.handle_tick(ms))),
            E::C(e) => unsafe {
                mqtt_engine_handle_tick(*e, ms);
                None
            },
        }
    }
    fn next(&self) -> i64 {
        match self {
            E::Obj(e) => e.next_tick_ms(),
            E::C(e) => unsafe { mqtt_engine_next_tick_ms(*e) },
        }
    }
    fn take(&self) -> Vec<u8> {
        match self {
            E::Obj(e) => e.take_outgoing(),
            E::C(e) => unsafe {
                let mut n = usize::MAX;
                let p = mqtt_engine_take_outgoing(*e, &mut n);
                assert!(!p.is_null() || n == 0);
                c_bytes(p, n)
            },
        }
    }
    fn publish(&self, topic: &str, payload: Vec<u8>, qos: u8, prio: Option<u8>) -> i32 {
        match self {
            E::Obj(e) => e.publish(topic.into(), payload, qos, prio),
            E::C(e) => unsafe {
                let t = CString::new(topic).unwrap();
                mqtt_engine_publish(*e, t.as_ptr(), payload.as_ptr(), payload.len(), qos)
            },
        }
    }
    fn subscribe(&self, topic: &str, qos: u8) -> i32 {
        match self {
            E::Obj(e) => e.subscribe(topic.into(), qos),
            E::C(e) => unsafe {
                let t = CString::new(topic).unwrap();
                mqtt_engine_subscribe(*e, t.as_ptr(), qos)
            },
        }
    }
    fn unsubscribe(&self, topic: &str) -> i32 {
        match self {
            E::Obj(e) => e.unsubscribe(topic.into()),
            E::C(e) => unsafe {
                let t = CString::new(topic).unwrap();
                mqtt_engine_unsubscribe(*e, t.as_ptr())
            },
        }
    }
    fn disconnect(&self) {
        match self {
            E::Obj(e) => e.disconnect(),
            E::C(e) => unsafe { mqtt_engine_disconnect(*e) },
        }
    }
    fn auth(&self, c: u8) {
        match self {
            E::Obj(e) => e.auth(c),
            E::C(e) => unsafe { mqtt_engine_auth(*e, c) },
        }
    }
    fn connected(&self) -> bool {
        match self {
            E::Obj(e) => e.is_connected(),
            E::C(e) => unsafe { mqtt_engine_is_connected(*e) == 1 },
        }
    }
    fn version(&self) -> u8 {
        match self {
            E::Obj(e) => e.get_version(),
            E::C(e) => unsafe { mqtt_engine_get_version(*e) },
        }
    }
    /// Whether the events carry everything, and the events.
    fn events(&self, list: bool) -> Result<(bool, Vec<Value>), String> {
        Ok(match self {
            E::Obj(e) => (true, ffi_events(&e.take_events())),
            E::C(e) => unsafe {
                if list {
                    (false, c_list(mqtt_engine_take_events_list(*e))?)
                } else {
                    let t = c_text(mqtt_engine_take_events(*e)).ok_or("no events string")?;
                    (true, json_events(serde_json::from_str(&t).map_err(|x| x.to_string())?))
                }
            },
        })
    }
}
impl Drop for E {
    fn drop(&mut self) {
        if let E::C(e) = self {
            unsafe { mqtt_engine_free(*e) }
        }
    }
}

fn reference(c: &Case) -> MqttEngine {
    let o = &c.o;
    let mut b = MqttClientOptions::builder().client_id(o.id.clone().unwrap_or("mqtt_client".into())).mqtt_version(o.version);
    if o.full {
        b = b.clean_start(o.clean).keep_alive(o.ka).reconnect_base_delay_ms(o.base).reconnect_max_delay_ms(o.max).max_reconnect_attempts(o.attempts);
        if let Some(u) = &o.user {
            b = b.username(u);
        }
        if let Some(p) = &o.pass {
            b = b.password(p.as_bytes());
        }
    }
    MqttEngine::new(b.build())
}
fn pid(r: Result<Option<u16>, flowsdk::mqtt_client::MqttClientError>) -> i32 {
    r.map_or(-1, |x| x.map_or(0, |x| x as i32))
}
fn differ(what: &str, a: &impl std::fmt::Debug, b: &impl std::fmt::Debug) -> Res {
    let cut = |x: String| x.chars().take(300).collect::<String>();
    fail(what, format!("foreign side {} ; Rust engine {}", cut(format!("{a:?}")), cut(format!("{b:?}"))))
}

fn check(c: &Case, o: &mut Obs) -> Res {
    let clk = VClock::start();
    run(c, &clk, Some(o))?;
    if c.via != 0 {
        // again, without an oracle: everything handed out has been given back
        let before = crate::alloc::live();
        run(c, &clk, None)?;
        let after = crate::alloc::live();
        ensure!(after == before, "leak", "{} bytes more are allocated after everything was freed than before the engine was made", after - before);
    }
    Ok(())
}
fn run(c: &Case, clk: &VClock, o: Option<&mut Obs>) -> Res {
    let v5 = c.o.version == 5;
    let start = Instant::now();
    let ms = |clk: &VClock| (Instant::now() - start).as_millis() as u64 + 0 * clk.ms();
    let e = E::new(c);
    let mut r = o.is_some().then(|| reference(c));
    // events the reference has produced since they were last taken
    let mut want: Vec<Value> = vec![];
    let mut sent = vec![];
    let mut parsed = 0;
    let mut fi = 0;
    let mut seen = 0;
    let list = c.via == 2;
    let mut acked = 0;
    ensure!(e.version() == c.o.version, "version", "version {} of {}", e.version(), c.o.version);
    for op in &c.ops {
        let mut input = |d: &[u8], r: &mut Option<MqttEngine>, want: &mut Vec<Value>| -> Res {
            let mut d = d;
            loop {
                let n = c.frag[fi % c.frag.len()].min(d.len());
                fi += 1;
                let a = e.incoming(&d[..n]);
                if let Some(r) = r {
                    let b = events(&r.handle_incoming(&d[..n]));
                    if let Some(a) = a {
                        if a != b {
                            return differ("incoming-events", &a, &b);
                        }
                    }
                    want.extend(b);
                }
                d = &d[n..];
                if d.is_empty() {
                    return Ok(());
                }
            }
        };
        match op {
            Op::Connect => {
                e.connect();
                if let Some(r) = &mut r {
                    r.connect();
                }
            }
            Op::Pub { topic, len, qos, prio } => {
                let p: Vec<u8> = (0..*len as usize).map(|i| (i * 7 + *len as usize) as u8).collect();
                let a = e.publish(topic, p.clone(), *qos, *prio);
                if let Some(r) = &mut r {
                    let mut cmd = PublishCommand::simple(topic.clone(), vec![], *qos, false);
                    cmd.payload = p;
                    if let (Some(x), 0) = (prio, c.via) {
                        cmd.priority = *x;
                    }
                    let b = pid(r.publish(cmd));
                    if a != b {
                        return differ("publish-result", &a, &b);
                    }
                }
            }
            Op::Sub { topic, qos } => {
                let a = e.subscribe(topic, *qos);
                if let Some(r) = &mut r {
                    let b = pid(r.subscribe(SubscribeCommand::single(topic.clone(), *qos)).map(Some));
                    if a != b {
                        return differ("subscribe-result", &a, &b);
                    }
                }
            }
            Op::Unsub { topic } => {
                let a = e.unsubscribe(topic);
                if let Some(r) = &mut r {
                    let b = pid(r.unsubscribe(UnsubscribeCommand::from_topics(vec![topic.clone()])).map(Some));
                    if a != b {
                        return differ("unsubscribe-result", &a, &b);
                    }
                }
            }
            Op::Disconnect => {
                e.disconnect();
                if let Some(r) = &mut r {
                    r.disconnect();
                }
            }
            Op::Auth(x) => {
                e.auth(*x);
                if let Some(r) = &mut r {
                    r.auth(*x, vec![]);
                }
            }
            Op::Lost => {
                e.lost();
                if let Some(r) = &mut r {
                    r.handle_connection_lost();
                }
            }
            Op::In(p) => input(&refcodec::encode(p, v5, 0), &mut r, &mut want)?,
            Op::Junk(d) => input(d, &mut r, &mut want)?,
            Op::Acks => {
                let mut back = vec![];
                while let Ok(Some(n)) = refcodec::frame_len(&sent[parsed..]) {
                    if sent.len() < parsed + n {
                        break;
                    }
                    let f = &sent[parsed..parsed + n];
                    parsed += n;
                    let a = match refcodec::decode(f, v5) {
                        Ok(R::Publish { qos: 1, pid, .. }) => R::ack(4, pid),
                        Ok(R::Publish { qos: 2, pid, .. }) => R::ack(5, pid),
                        Ok(R::Ack { kind: 5, pid, .. }) => R::ack(6, pid),
                        Ok(R::Ack { kind: 6, pid, .. }) => R::ack(7, pid),
                        Ok(R::Subscribe { pid, subs, .. }) => R::Suback { pid, props: vec![], codes: vec![0; subs.len()] },
                        Ok(R::Unsubscribe { pid, filters, .. }) => R::Unsuback { pid, props: vec![], codes: if v5 { vec![0; filters.len()] } else { vec![] } },
                        Ok(R::Pingreq) => R::Pingresp,
                        _ => continue,
                    };
                    acked += 1;
                    back.extend(refcodec::encode(&a, v5, 0));
                }
                if !back.is_empty() {
                    input(&back, &mut r, &mut want)?;
                }
            }
            Op::Advance { .. } | Op::Next => {
                let mut tick = true;
                if let Op::Advance { us, tick: t } = op {
                    clk.advance(Duration::from_micros(*us));
                    tick = *t;
                } else {
                    let n = e.next();
                    let at = r.as_ref().map(|r| r.next_tick_at());
                    match at {
                        Some(None) if n != -1 => return differ("next-tick", &n, &"none"),
                        Some(Some(at)) => {
                            let there = start + Duration::from_millis(n.max(0) as u64);
                            ensure!(
                                n >= 0 && there >= at && there < at.max(start) + Duration::from_millis(1),
                                "next-tick",
                                "next_tick_ms is {n}, the engine's is {:?} after the start",
                                at.saturating_duration_since(start)
                            );
                        }
                        _ => {}
                    }
                    if n < 0 {
                        continue;
                    }
                    let now = ms(clk);
                    if (n as u64) > now {
                        let to = start + Duration::from_millis(n as u64);
                        clk.advance(to - Instant::now());
                    }
                }
                if tick {
                    let now = ms(clk);
                    let a = e.tick(now);
                    if let Some(r) = &mut r {
                        let b = events(&r.handle_tick(start + Duration::from_millis(now)));
                        if let Some(a) = a {
                            if a != b {
                                return differ("tick-events", &a, &b);
                            }
                        }
                        want.extend(b);
                    }
                }
            }
            Op::Take => {
                let a = e.take();
                if let Some(r) = &mut r {
                    let b = r.take_outgoing();
                    if a != b {
                        return differ("bytes", &a, &b);
                    }
                }
                sent.extend(a);
            }
            Op::Events => {
                let (full, a) = match e.events(list) {
                    Ok(x) => x,
                    Err(x) => return fail("event-list", x),
                };
                if let Some(r) = &mut r {
                    want.extend(events(&r.take_events()));
                    seen += want.len();
                    let b: Vec<Value> = if full { std::mem::take(&mut want) } else { want.drain(..).map(|x| listed(&x)).collect() };
                    if a != b {
                        return differ("events", &a, &b);
                    }
                }
            }
        }
        if let Some(r) = &r {
            ensure!(e.connected() == r.is_connected(), "is-connected", "is_connected is {} after {op:?}", e.connected());
        }
    }
    if let Some(o) = o {
        o.label(["object", "C, JSON", "C, event list"][c.via as usize]);
        o.add("events", seen as u64);
        o.add("bytes", sent.len() as u64);
        o.add("acknowledged", acked);
        o.nt_if(seen >= 2 && sent.len() > 40);
    }
    let _ = conv::ver(v5);
    Ok(())
}

pub fn f01() -> Property {
    Property {
        id: "F01",
        rule: "at least two events were seen and more than 40 bytes sent",
        assumptions: &["The Rust engine is the oracle; its own behaviour is judged by the E properties.", "The wording of error events is not judged."],
        subs: vec![Box::new(Sub { name: "twin", quick: 500_000, thorough: 20_000_000, threads: 0, gen, check })],
    }
}

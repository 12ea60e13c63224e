//! Engine properties E01..E13 and the client session store S01.

use crate::conv;
use crate::core::{fail, Fail, Obs, Property, Res, Src, Sub};
use crate::ensure;
use crate::refcodec::{self, Prop, RWill, R, V};
use crate::sim::{gen_hist, run_hist, Hist, Op, Prof};
use crate::vclock::VClock;
use flowsdk::mqtt_client::commands::{PublishCommand, SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_client::engine::{MqttEngine, MqttEvent};
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk::mqtt_serde::mqttv5::willv5::Will;
use flowsdk::priority_queue::PriorityQueue;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::time::{Duration, Instant};

const BASE: Prof = Prof {
    vers: &[5, 4],
    w: [10, 3, 1, 1, 5, 8, 3, 1, 2, 1, 1, 1, 2, 0, 0],
    ops: 40,
    streams: true,
    small_rm: true,
    small_out: true,
    qos0: true,
    wrap: false,
    prio: false,
    manual: false,
};

fn nt_hist(h: &Hist, o: &mut Obs) {
    let n = h.ops.iter().filter(|x| matches!(x, Op::Pub(_) | Op::PubEnc(..) | Op::In { .. } | Op::Sub { .. })).count();
    o.nt_if(n >= 3 && !o.inconclusive);
}

const HIST_ASSUME: &[&str] = &[
    "The simulated broker follows the MQTT specification (it acknowledges with the right packet type and only identifiers it was given, plus stray acknowledgements for identifiers nobody uses).",
    "Time is virtual: the monotonic clock of the checking thread is replaced, so timers fire exactly where the history puts them.",
    "Outgoing packets and events are judged through an independent codec and a model of the exchange state.",
];

// ----------------------------------------------------------------------- E01

fn g01(s: &mut Src) -> Hist {
    gen_hist(s, &BASE)
}
fn c01(h: &Hist, o: &mut Obs) -> Res {
    let r = run_hist(h, "E01", o);
    o.nt_if(o.labels.get("done:qos12").is_some_and(|n| *n >= 2));
    r
}
fn g01r(s: &mut Src) -> Hist {
    gen_hist(s, &Prof { w: [10, 2, 1, 1, 5, 8, 3, 2, 2, 1, 2, 6, 2, 0, 0], ops: 60, ..BASE })
}
pub fn e01() -> Property {
    Property {
        id: "E01",
        rule: "at least two QoS 1/2 exchanges completed in the history",
        assumptions: HIST_ASSUME,
        subs: vec![
            Box::new(Sub { name: "steady", quick: 80000, thorough: 2000000, threads: 0, gen: g01, check: c01 }),
            Box::new(Sub { name: "reconnecting", quick: 80_000, thorough: 2000000, threads: 0, gen: g01r, check: c01 }),
        ],
    }
}

// ----------------------------------------------------------------------- E02

fn g02(s: &mut Src) -> Hist {
    let qos0 = s.below(3) == 2;
    gen_hist(
        s,
        &Prof { w: [16, 6, 1, 1, 5, 10, 2, 2, 1, 0, 0, 3, 3, 0, 0], ops: 60, qos0, ..BASE },
    )
}
fn c02(h: &Hist, o: &mut Obs) -> Res {
    let r = run_hist(h, "E02", o);
    o.nt_if(o.labels.contains_key("window:full"));
    r
}
pub fn e02() -> Property {
    Property {
        id: "E02",
        rule: "the window of unfinished messages was completely full at least once",
        assumptions: HIST_ASSUME,
        subs: vec![Box::new(Sub { name: "window", quick: 150000, thorough: 3000000, threads: 0, gen: g02, check: c02 })],
    }
}

// ----------------------------------------------------------------------- E03

fn g03(s: &mut Src) -> Hist {
    gen_hist(
        s,
        &Prof { w: [10, 4, 3, 3, 4, 6, 1, 1, 0, 0, 0, 2, 1, 2, 0], ops: 50, wrap: true, qos0: false, small_rm: false, ..BASE },
    )
}
fn c03(h: &Hist, o: &mut Obs) -> Res {
    let r = run_hist(h, "E03", o);
    o.nt_if(h.skip & 0x7fff_ffff > 60_000 && o.labels.contains_key("sent:qos12"));
    r
}

#[derive(Debug, Serialize, Deserialize)]
struct FullCase {
    v5: bool,
    /// how many identifiers stay free when allocation starts to hurt
    keep_free: u32,
    acks: Vec<u16>,
    subs: bool,
}
fn g03f(s: &mut Src) -> FullCase {
    FullCase { v5: s.bool(), keep_free: s.below(4) as u32, acks: s.vec(1, 40, 12, |s| s.u16().max(1)), subs: s.bool() }
}
fn c03f(c: &FullCase, o: &mut Obs) -> Res {
    let _clk = VClock::start();
    let mut e = connected_engine(c.v5, |o| o.receive_maximum = 65535)?;
    let mut used: BTreeSet<u16> = BTreeSet::new();
    let alloc = |e: &mut MqttEngine, k: usize| -> Result<u16, String> {
        if c.subs && k % 3 == 0 {
            e.subscribe_encoded(SubscribeCommand::single("a", 0), None).map(|x| x.0).map_err(|e| format!("{e:?}"))
        } else {
            e.publish_encoded(PublishCommand::simple("t", vec![], 1, false), Some(1))
                .map(|x| x.0.unwrap())
                .map_err(|e| format!("{e:?}"))
        }
    };
    for k in 0..(65535 - c.keep_free as usize) {
        match alloc(&mut e, k) {
            Ok(id) => {
                ensure!(id != 0, "packet-id-zero", "identifier 0 after {k} allocations");
                ensure!(used.insert(id), "packet-id-reused", "identifier {id} handed out twice after {k} allocations");
            }
            Err(x) => return fail("no-packet-id", format!("allocation {k} failed with {} identifiers free: {x}", 65535 - k)),
        }
    }
    // release some, allocate again: the new ones must come from the free set
    for id in &c.acks {
        if used.remove(id) {
            let b = refcodec::encode(&R::ack(4, *id), c.v5, 0);
            e.handle_incoming(&b);
        }
    }
    let free = 65535 - used.len();
    for k in 0..free {
        match alloc(&mut e, 1) {
            Ok(id) => ensure!(id != 0 && used.insert(id), "packet-id-reused", "identifier {id} is in use and was handed out ({k} of {free} free ones taken)"),
            Err(x) => return fail("no-packet-id", format!("{} identifiers are free but allocation failed: {x}", free - k)),
        }
    }
    if let Ok(id) = alloc(&mut e, 1) {
        return fail("packet-id-reused", format!("all 65535 identifiers are in use, {id} was handed out again"));
    }
    o.nt();
    o.label("exhausted");
    Ok(())
}
pub fn e03() -> Property {
    Property {
        id: "E03",
        rule: "the identifier counter wrapped around while exchanges were open, or all identifiers were exhausted",
        assumptions: HIST_ASSUME,
        subs: vec![
            Box::new(Sub { name: "wrap", quick: 8_000, thorough: 120000, threads: 0, gen: g03, check: c03 }),
            Box::new(Sub { name: "full", quick: 64, thorough: 960, threads: 0, gen: g03f, check: c03f }),
        ],
    }
}

// ----------------------------------------------------------------------- E04

fn g04(s: &mut Src) -> Hist {
    let small_rm = s.bool();
    let small_out = s.chance(1, 3);
    gen_hist(
        s,
        &Prof { w: [10, 3, 1, 1, 4, 5, 1, 1, 1, 0, 1, 6, 1, 0, 0], ops: 40, qos0: false, small_rm, small_out, ..BASE },
    )
}
fn c04(h: &Hist, o: &mut Obs) -> Res {
    let r = run_hist(h, "E04", o);
    o.nt_if(o.labels.contains_key("resend:publish") || o.labels.contains_key("resend:pubrel"));
    r
}
pub fn e04() -> Property {
    Property {
        id: "E04",
        rule: "a resumed session had something to send again",
        assumptions: HIST_ASSUME,
        subs: vec![Box::new(Sub { name: "resume", quick: 120000, thorough: 3000000, threads: 0, gen: g04, check: c04 })],
    }
}

// ----------------------------------------------------------------------- E05

fn g05(s: &mut Src) -> Hist {
    gen_hist(
        s,
        &Prof {
            vers: &[4, 3, 5, 4],
            w: [10, 6, 2, 1, 4, 6, 1, 1, 1, 3, 10, 0, 1, 0, 0],
            ops: 40,
            qos0: false,
            small_rm: false,
            ..BASE
        },
    )
}
fn g05r(s: &mut Src) -> Hist {
    gen_hist(
        s,
        &Prof { vers: &[4, 3, 5, 4], w: [10, 6, 2, 1, 4, 6, 1, 1, 1, 3, 10, 4, 1, 0, 0], ops: 40, qos0: false, small_rm: false, ..BASE },
    )
}
fn c05(h: &Hist, o: &mut Obs) -> Res {
    let r = run_hist(h, "E05", o);
    o.nt_if(o.labels.keys().any(|k| k.starts_with("retx:")) || (h.ver == 5 && h.ops.iter().any(|x| matches!(x, Op::Tick { .. }))));
    r
}
pub fn e05() -> Property {
    Property {
        id: "E05",
        rule: "something was retransmitted by timeout (3.1.1), or ticks passed with the exchange open (5.0)",
        assumptions: HIST_ASSUME,
        subs: vec![
            Box::new(Sub { name: "timers", quick: 120_000, thorough: 3000000, threads: 0, gen: g05, check: c05 }),
            Box::new(Sub { name: "reconnecting", quick: 60_000, thorough: 1500000, threads: 0, gen: g05r, check: c05 }),
        ],
    }
}

// ----------------------------------------------------------------------- E08

fn g08(s: &mut Src) -> Hist {
    gen_hist(
        s,
        &Prof { w: [2, 1, 1, 0, 4, 2, 1, 1, 14, 0, 1, 2, 0, 0, 0], ops: 30, manual: true, ..BASE },
    )
}
fn c08(h: &Hist, o: &mut Obs) -> Res {
    let r = run_hist(h, "E08", o);
    o.nt_if(o.labels.contains_key("in:qos2"));
    r
}
pub fn e08() -> Property {
    Property {
        id: "E08",
        rule: "the broker sent at least one QoS 2 message",
        assumptions: HIST_ASSUME,
        subs: vec![Box::new(Sub { name: "inbound", quick: 120000, thorough: 3000000, threads: 0, gen: g08, check: c08 })],
    }
}

// ----------------------------------------------------------------------- E11

fn g11(s: &mut Src) -> Hist {
    gen_hist(
        s,
        &Prof { w: [2, 1, 10, 8, 4, 6, 2, 0, 1, 1, 1, 2, 1, 1, 0], ops: 40, ..BASE },
    )
}
fn c11(h: &Hist, o: &mut Obs) -> Res {
    let r = run_hist(h, "E11", o);
    let n = h.ops.iter().filter(|x| matches!(x, Op::Sub { .. } | Op::Unsub { .. })).count();
    o.nt_if(n >= 3);
    r
}
pub fn e11() -> Property {
    Property {
        id: "E11",
        rule: "at least three subscribe/unsubscribe requests in the history",
        assumptions: HIST_ASSUME,
        subs: vec![Box::new(Sub { name: "requests", quick: 120000, thorough: 3000000, threads: 0, gen: g11, check: c11 })],
    }
}

// --------------------------------------------------------------------- helpers

pub fn connected_engine(v5: bool, f: impl FnOnce(&mut MqttClientOptions)) -> Result<MqttEngine, Fail> {
    let mut op = MqttClientOptions::builder().mqtt_version(conv::ver(v5)).keep_alive(0).client_id("x").build();
    op.max_event_count = 1_000_000;
    f(&mut op);
    let mut e = MqttEngine::new(op);
    e.connect();
    e.take_outgoing();
    e.handle_incoming(&refcodec::encode(&R::Connack { sp: false, code: 0, props: vec![] }, v5, 0));
    if !e.is_connected() {
        return fail("not-connected", "engine not connected after a successful CONNACK");
    }
    Ok(e)
}
pub fn evs(ev: &[MqttEvent]) -> Vec<String> {
    ev.iter().map(|e| serde_json::to_string(e).unwrap_or_else(|_| format!("{e:?}"))).collect()
}

// ----------------------------------------------------------------------- E06

#[derive(Debug, Clone, Serialize, Deserialize)]
enum KOp {
    /// sleep until next_tick_at (plus this many ms), then tick
    Due(u32),
    Tick(u32),
    Wait(u32),
    Pub0,
    PubEnc,
    In,
    Pong,
    Ping,
    Disconnect { server: bool },
    Lost,
    Connect { code: u8, ska: Option<u16> },
}
#[derive(Debug, Serialize, Deserialize)]
struct KCase {
    ver: u8,
    ka: u16,
    mult: u32,
    auto: bool,
    #[serde(default)]
    first_ska: Option<u16>,
    ops: Vec<KOp>,
}
fn g06(s: &mut Src) -> KCase {
    let ka = *s.pick(&[10u16, 1, 2, 60, 0, 300, 65535]);
    let kms = ka as u64 * 1000;
    let n = if s.thorough { 60 } else { 25 };
    KCase {
        ver: *s.pick(&[5u8, 4, 3]),
        ka,
        mult: *s.pick(&[2u32, 1, 3, 10]),
        auto: s.chance(5, 6),
        first_ska: s.opt(|s| *s.pick(&[5u16, 0, 1, 30, 600])),
        ops: s.vec(1, 120, n, |s| match s.weighted(&[8, 6, 3, 4, 1, 2, 5, 2, 1, 1, 2]) {
            0 => KOp::Due(if s.bool() { 0 } else { s.below(500) as u32 }),
            1 => KOp::Tick(match s.below(4) {
                0 => kms as u32,
                1 => (kms as u32).saturating_sub(1),
                2 => (kms / 2) as u32,
                _ => s.below(kms * 4 + 10) as u32,
            }),
            2 => KOp::Wait(s.below(kms * 2 + 10) as u32),
            3 => KOp::Pub0,
            4 => KOp::PubEnc,
            5 => KOp::In,
            6 => KOp::Pong,
            7 => KOp::Ping,
            8 => KOp::Disconnect { server: s.bool() },
            9 => KOp::Lost,
            _ => KOp::Connect { code: if s.chance(1, 5) { 1 } else { 0 }, ska: s.opt(|s| *s.pick(&[5u16, 0, 1, 30, 600])) },
        }),
    }
}
fn c06(c: &KCase, o: &mut Obs) -> Res {
    let clk = VClock::start();
    let v5 = c.ver == 5;
    let mut op = MqttClientOptions::builder().mqtt_version(c.ver).keep_alive(c.ka).auto_keepalive(c.auto).client_id("k").build();
    op.ping_timeout_multiplier = c.mult;
    op.max_event_count = 1000;
    let (rbase, rmax) = (op.reconnect_base_delay_ms, op.reconnect_max_delay_ms);
    let mut e = MqttEngine::new(op);
    let mut ka = c.ka as u64 * 1000;
    let mut to = ka * c.mult as u64;
    let mut connected = false;
    let mut last_sent = 0u64; // only meaningful while connected
    let mut ping: Option<u64> = None;
    let mut attempts = 0u32;
    let mut reconnect_at: Option<u64> = None;
    let mut ops: VecDeque<KOp> = c.ops.iter().cloned().collect();
    ops.push_front(KOp::Connect { code: 0, ska: c.first_ska });
    while let Some(opn) = ops.pop_front() {
        let now = clk.ms();
        match &opn {
            KOp::Connect { code, ska } => {
                if connected {
                    continue;
                }
                e.connect();
                let out = refcodec::decode_all(&e.take_outgoing(), v5).unwrap_or_default();
                ensure!(matches!(out[..], [R::Connect { .. }]), "connect-packet", "connect() sent {out:?}");
                if let R::Connect { keep_alive, .. } = &out[0] {
                    ensure!(*keep_alive == c.ka, "keep-alive-announced", "CONNECT says {keep_alive}, configured {}", c.ka);
                }
                last_sent = now;
                ping = None;
                let code = if v5 && *code != 0 { 0x88 } else { *code };
                let ska = if v5 && code == 0 { *ska } else { None };
                let props = ska.map(|k| Prop { id: 0x13, v: V::H(k) }).into_iter().collect();
                e.handle_incoming(&refcodec::encode(&R::Connack { sp: false, code, props }, v5, 0));
                ka = ska.unwrap_or(c.ka) as u64 * 1000;
                to = ka * c.mult as u64;
                if ska.is_some() {
                    o.label("server-keep-alive");
                }
                connected = code == 0;
                if connected {
                    attempts = 0;
                    reconnect_at = None;
                }
                o.label("connect");
            }
            KOp::Due(_) | KOp::Tick(_) => {
                let nt = e.next_tick_at();
                let nt_ms = nt.map(|t| now as i64 + t.checked_duration_since(Instant::now()).map_or_else(|| -(Instant::now().duration_since(t).as_millis() as i64), |d| d.as_millis() as i64));
                // predicted deadline
                let want = if connected {
                    if ka == 0 {
                        None
                    } else if let Some(p) = ping {
                        Some(p + to)
                    } else if c.auto {
                        Some(last_sent + ka)
                    } else {
                        None
                    }
                } else {
                    reconnect_at
                };
                ensure!(
                    nt_ms == want.map(|w| w as i64),
                    "next-tick",
                    "next_tick_at is {nt_ms:?} ms, the next deadline is {want:?} (connected {connected}, ping {ping:?}, last sent {last_sent})"
                );
                match &opn {
                    KOp::Due(extra) => match want {
                        Some(w) => clk.advance_ms(w.saturating_sub(now) + *extra as u64),
                        None => continue,
                    },
                    KOp::Tick(ms) => clk.advance_ms(*ms as u64),
                    _ => {}
                }
                let now = clk.ms();
                let ev = e.handle_tick(Instant::now());
                let out = refcodec::decode_all(&e.take_outgoing(), v5).unwrap_or_default();
                if !connected {
                    let fire = reconnect_at.is_some_and(|r| now >= r);
                    ensure!(
                        ev.len() == fire as usize && ev.iter().all(|e| matches!(e, MqttEvent::ReconnectNeeded)),
                        "reconnect-fire",
                        "reconnect due {reconnect_at:?}, tick at {now} gave {ev:?}"
                    );
                    ensure!(out.is_empty(), "output-while-disconnected", "sent {out:?} while disconnected");
                    if fire {
                        reconnect_at = None;
                    }
                    continue;
                }
                if ka > 0 && ping.is_some_and(|p| now - p >= to) {
                    let delay = (rbase << attempts.min(10)).min(rmax);
                    attempts += 1;
                    ensure!(
                        matches!(&ev[..], [MqttEvent::ReconnectNeeded, MqttEvent::ReconnectScheduled { attempt, delay: d }] if *attempt == attempts && d.as_millis() as u64 == delay),
                        "ping-timeout-not-reported",
                        "PINGREQ unanswered for {} ms (limit {to}), events {ev:?}",
                        now - ping.unwrap()
                    );
                    ensure!(!e.is_connected() && out.is_empty(), "connected-after-timeout", "still connected after a ping timeout, or sent {out:?}");
                    connected = false;
                    ping = None;
                    reconnect_at = Some(now + delay);
                    o.label("ping-timeout");
                } else {
                    ensure!(ev.is_empty() && e.is_connected(), "spurious-timeout", "tick at {now}: {ev:?} (ping sent {ping:?}, limit {to})");
                    let due = ping.is_none() && c.auto && ka > 0 && now - last_sent >= ka;
                    ensure!(
                        out.len() == due as usize && out.iter().all(|p| *p == R::Pingreq),
                        "pingreq",
                        "tick at {now}, last packet sent at {last_sent}, keep alive {ka} ms, ping outstanding {ping:?}: sent {out:?}, PINGREQ due: {due}"
                    );
                    if due {
                        ping = Some(now);
                        last_sent = now;
                        o.label("pingreq");
                    }
                }
            }
            KOp::Wait(ms) => clk.advance_ms(*ms as u64),
            KOp::Pub0 => {
                let _ = e.publish(PublishCommand::simple("t", vec![1], 0, false));
                if connected {
                    ensure!(!e.take_outgoing().is_empty(), "publish-lost", "QoS 0 publish produced no bytes");
                    last_sent = now;
                } else {
                    // it leaves right after the next CONNACK
                    let _ = e.take_outgoing();
                }
            }
            KOp::PubEnc => {
                if connected {
                    let _ = e.publish_encoded(PublishCommand::simple("t", vec![1], 0, false), Some(4));
                    last_sent = now;
                }
            }
            KOp::In => {
                if connected {
                    let p = R::Publish { dup: false, qos: 0, retain: false, topic: "a".into(), pid: 0, props: vec![], payload: vec![] };
                    let ev = e.handle_incoming(&refcodec::encode(&p, v5, 0));
                    ensure!(ev.len() == 2, "message-lost", "{ev:?}");
                }
            }
            KOp::Pong => {
                if connected {
                    let ev = e.handle_incoming(&refcodec::encode(&R::Pingresp, v5, 0));
                    ensure!(matches!(ev[..], [MqttEvent::PingResponse(_)]), "pingresp-event", "{ev:?}");
                    ping = None;
                }
            }
            KOp::Ping => {
                if connected {
                    ensure!(e.try_send_ping().is_ok(), "ping-refused", "try_send_ping failed");
                    ensure!(e.take_outgoing() == vec![0xc0, 0], "ping-bytes", "PINGREQ not queued");
                    ping = Some(now);
                    last_sent = now;
                }
            }
            KOp::Disconnect { server } => {
                if connected {
                    if *server {
                        if !v5 {
                            continue;
                        }
                        let ev = e.handle_incoming(&refcodec::encode(&R::Disconnect { code: 0x8b, props: vec![] }, v5, 1));
                        ensure!(matches!(ev[..], [MqttEvent::Disconnected(Some(0x8b))]), "disconnect-event", "{ev:?}");
                    } else {
                        ensure!(e.try_disconnect().is_ok(), "disconnect-refused", "try_disconnect failed");
                        let out = refcodec::decode_all(&e.take_outgoing(), v5).unwrap_or_default();
                        ensure!(matches!(out[..], [R::Disconnect { code: 0, .. }]), "disconnect-packet", "{out:?}");
                    }
                    ensure!(!e.is_connected(), "still-connected", "connected after DISCONNECT");
                    connected = false;
                    o.label("disconnect");
                }
            }
            KOp::Lost => {
                e.handle_connection_lost();
                if connected {
                    connected = false;
                }
            }
        }
        // messages queued while disconnected leave when connected
        if connected && !e.take_outgoing().is_empty() {
            last_sent = clk.ms();
        }
    }
    o.nt_if(o.labels.contains_key("pingreq"));
    Ok(())
}

/// Driven exactly as documented (sleep until next_tick_at), with a broker that
/// answers pings, the silence between two client packets never exceeds the
/// keep-alive interval.
#[derive(Debug, Serialize, Deserialize)]
struct PacedCase {
    v5: bool,
    ka: u16,
    pubs: Vec<(u32, bool)>,
    answer_after: u32,
}
fn g06p(s: &mut Src) -> PacedCase {
    let ka = *s.pick(&[10u16, 1, 3, 60]);
    PacedCase {
        v5: s.bool(),
        ka,
        pubs: s.vec(1, 40, 12, |s| (s.below(ka as u64 * 3000) as u32, s.bool())),
        answer_after: s.below(ka as u64 * 900) as u32,
    }
}
fn c06p(c: &PacedCase, o: &mut Obs) -> Res {
    let clk = VClock::start();
    let mut e = connected_engine(c.v5, |o| o.keep_alive = c.ka)?;
    let mut last = clk.ms();
    let mut answer: Option<u64> = None;
    let seen = |now: u64, last: &mut u64| -> Res {
        ensure!(
            now - *last <= c.ka as u64 * 1000,
            "silent-too-long",
            "no packet sent between {last} and {now} ms with keep alive {} s",
            c.ka
        );
        *last = now;
        Ok(())
    };
    for (gap, q0) in &c.pubs {
        let target = clk.ms() + *gap as u64;
        loop {
            let now = clk.ms();
            let mut next = target;
            if let Some(t) = e.next_tick_at() {
                next = next.min(now + t.saturating_duration_since(Instant::now()).as_millis() as u64);
            }
            if let Some(a) = answer {
                next = next.min(a);
            }
            clk.advance_ms(next.saturating_sub(now));
            let now = clk.ms();
            if answer.is_some_and(|a| now >= a) {
                answer = None;
                e.handle_incoming(&[0xd0, 0]);
            }
            let ev = e.handle_tick(Instant::now());
            ensure!(ev.is_empty(), "spurious-timeout", "{ev:?}");
            let out = refcodec::decode_all(&e.take_outgoing(), c.v5).unwrap_or_default();
            if !out.is_empty() {
                seen(now, &mut last)?;
                if out.contains(&R::Pingreq) {
                    o.label("pingreq");
                    answer = Some(now + c.answer_after as u64);
                }
            }
            if now >= target {
                break;
            }
        }
        let _ = e.publish(PublishCommand::simple("t", vec![], if *q0 { 0 } else { 1 }, false));
        if !e.take_outgoing().is_empty() {
            seen(clk.ms(), &mut last)?;
        }
    }
    o.nt_if(o.labels.contains_key("pingreq"));
    Ok(())
}
pub fn e06() -> Property {
    Property {
        id: "E06",
        rule: "at least one automatic PINGREQ was due",
        assumptions: &["Time is virtual (the thread's monotonic clock is replaced)."],
        subs: vec![
            Box::new(Sub { name: "timers", quick: 250_000, thorough: 3750000, threads: 0, gen: g06, check: c06 }),
            Box::new(Sub { name: "paced", quick: 60_000, thorough: 900000, threads: 0, gen: g06p, check: c06p }),
        ],
    }
}

// ----------------------------------------------------------------------- E07

#[derive(Debug, Clone, Serialize, Deserialize)]
enum BOp {
    Schedule,
    Tick(u64),
    TickDue,
    Connack(bool),
    Lost,
    ResetTransport,
}
#[derive(Debug, Serialize, Deserialize)]
struct BCase {
    v5: bool,
    base: u64,
    max: u64,
    attempts: u32,
    ops: Vec<BOp>,
}
fn g07(s: &mut Src) -> BCase {
    let base = *s.pick(&[1000u64, 1, 0, 7, 500, 30_000, 1 << 40, u64::MAX]);
    let max = *s.pick(&[60_000u64, 1, 0, 1000, 8000, 10_000_000, 1 << 41]);
    BCase {
        v5: s.bool(),
        base,
        max,
        attempts: *s.pick(&[0u32, 1, 2, 5, 20]),
        ops: s.vec(1, 80, 25, |s| match s.weighted(&[8, 4, 6, 3, 2, 1]) {
            0 => BOp::Schedule,
            1 => BOp::Tick(s.below(base.min(max).min(1 << 30) * 2 + 5)),
            2 => BOp::TickDue,
            3 => BOp::Connack(s.chance(2, 3)),
            4 => BOp::Lost,
            _ => BOp::ResetTransport,
        }),
    }
}
fn c07(c: &BCase, o: &mut Obs) -> Res {
    let clk = VClock::start();
    let mut op = MqttClientOptions::builder().mqtt_version(conv::ver(c.v5)).keep_alive(0).build();
    op.reconnect_base_delay_ms = c.base;
    op.reconnect_max_delay_ms = c.max;
    op.max_reconnect_attempts = c.attempts;
    let mut e = MqttEngine::new(op);
    let mut n = 0u32;
    let mut due: Option<u128> = None;
    let mut connected = false;
    for opn in &c.ops {
        let now = clk.ms() as u128;
        match opn {
            BOp::Schedule => {
                if connected {
                    continue;
                }
                e.schedule_reconnect(Instant::now());
                let ev = e.take_events();
                if c.attempts > 0 && n >= c.attempts {
                    ensure!(ev.is_empty(), "attempts-exceeded", "attempt {} scheduled, the maximum is {}: {ev:?}", n + 1, c.attempts);
                    due = None;
                    o.label("gave-up");
                } else {
                    let delay = ((c.base as u128) << n.min(10)).min(c.max as u128);
                    n += 1;
                    ensure!(
                        matches!(&ev[..], [MqttEvent::ReconnectScheduled { attempt, delay: d }] if *attempt == n && d.as_millis() == delay),
                        "backoff-delay",
                        "attempt {n} with base {} max {}: expected {delay} ms, got {ev:?}",
                        c.base,
                        c.max
                    );
                    due = Some(now + delay);
                    o.label("scheduled");
                    if n >= 3 {
                        o.nt();
                    }
                }
            }
            BOp::Tick(_) | BOp::TickDue => {
                match opn {
                    BOp::Tick(d) => clk.advance_ms(*d),
                    _ => {
                        if let Some(d) = due {
                            let w = d.saturating_sub(now);
                            if w < (1 << 33) {
                                clk.advance_ms(w as u64);
                            }
                        }
                    }
                }
                let now = clk.ms() as u128;
                let nt = e.next_tick_at().map(|t| {
                    let i = Instant::now();
                    if t >= i {
                        now + (t - i).as_millis()
                    } else {
                        now - (i - t).as_millis()
                    }
                });
                if !connected {
                    ensure!(nt == due, "next-tick", "next_tick_at {nt:?}, reconnect due {due:?}");
                }
                let ev = e.handle_tick(Instant::now());
                let fire = !connected && due.is_some_and(|d| now >= d);
                ensure!(
                    ev.len() == fire as usize && ev.iter().all(|x| matches!(x, MqttEvent::ReconnectNeeded)),
                    "reconnect-fire",
                    "due {due:?}, tick at {now}: {ev:?}"
                );
                if fire {
                    due = None;
                    o.label("fired");
                }
            }
            BOp::Connack(ok) => {
                if connected {
                    continue;
                }
                e.connect();
                e.take_outgoing();
                let code = if *ok { 0 } else if c.v5 { 0x88 } else { 3 };
                let _ = e.handle_incoming(&refcodec::encode(&R::Connack { sp: false, code, props: vec![] }, c.v5, 0));
                connected = *ok;
                ensure!(e.is_connected() == *ok, "connected-state", "CONNACK {code}: is_connected {}", e.is_connected());
                if *ok {
                    n = 0;
                    due = None;
                    o.label("connected");
                }
            }
            BOp::Lost => {
                e.handle_connection_lost();
                connected = false;
            }
            BOp::ResetTransport => {
                e.reset_for_new_transport();
                connected = false;
                due = None;
            }
        }
    }
    Ok(())
}
pub fn e07() -> Property {
    Property {
        id: "E07",
        rule: "at least three consecutive attempts were scheduled",
        assumptions: &["Time is virtual (the thread's monotonic clock is replaced)."],
        subs: vec![Box::new(Sub { name: "backoff", quick: 400_000, thorough: 6000000, threads: 0, gen: g07, check: c07 })],
    }
}

// ----------------------------------------------------------------------- E09

#[derive(Debug, Serialize, Deserialize)]
struct PressCase {
    v5: bool,
    max: usize,
    max_out: usize,
    pre: Vec<u8>,
    pkts: Vec<R>,
    cuts: Vec<u16>,
    /// after each piece: how many times the application comes back for more
    resumes: Vec<u8>,
}
fn inbound_pkt(s: &mut Src, v5: bool) -> R {
    let pid = s.range(1, 8) as u16;
    match s.below(10) {
        0..=4 => {
            let qos = s.below(3) as u8;
            R::Publish {
                dup: false,
                qos,
                retain: s.bool(),
                topic: refcodec::gen_topic(s),
                pid: if qos > 0 { pid } else { 0 },
                props: if v5 { refcodec::gen_props(s, 3) } else { vec![] },
                payload: s.bytes(60),
            }
        }
        5 => R::ack(6, pid),
        6 => R::ack(*s.pick(&[4u8, 5, 7]), pid),
        7 => R::Suback { pid, props: vec![], codes: vec![0, 1] },
        8 => R::Unsuback { pid, props: vec![], codes: if v5 { vec![0] } else { vec![] } },
        _ => R::Pingresp,
    }
}
fn g09(s: &mut Src) -> PressCase {
    let v5 = s.bool();
    PressCase {
        v5,
        max: *s.pick(&[1usize, 2, 3, 7, 50]),
        max_out: *s.pick(&[1000usize, 1, 2, 5]),
        pre: s.vec(0, 10, 4, |s| 1 + s.below(2) as u8),
        pkts: s.vec(1, 60, 15, |s| inbound_pkt(s, v5)),
        cuts: s.vec(0, 10, 3, |s| s.below(2000) as u16),
        resumes: s.vec(0, 10, 4, |s| s.below(4) as u8),
    }
}
fn preload(e: &mut MqttEngine, pre: &[u8]) {
    for q in pre {
        let _ = e.publish_encoded(PublishCommand::simple("x", vec![*q], *q, false), None);
    }
}
fn split_at(b: &[u8], cuts: &[u16]) -> Vec<Vec<u8>> {
    let mut c: Vec<usize> = cuts.iter().map(|x| *x as usize % (b.len() + 1)).collect();
    c.push(b.len());
    c.sort();
    let mut out = vec![];
    let mut p = 0;
    for x in c {
        out.push(b[p..x].to_vec());
        p = x;
    }
    out
}
fn c09(c: &PressCase, o: &mut Obs) -> Res {
    let _clk = VClock::start();
    let mut bytes = vec![];
    for p in &c.pkts {
        bytes.extend(refcodec::encode(p, c.v5, 0));
    }
    let mut r = connected_engine(c.v5, |o| o.max_outgoing_packet_count = c.max_out)?;
    preload(&mut r, &c.pre);
    let want = evs(&r.handle_incoming(&bytes));
    let want_out = r.take_outgoing();

    let mut e = connected_engine(c.v5, |o| {
        o.max_event_count = c.max;
        o.max_outgoing_packet_count = c.max_out;
    })?;
    preload(&mut e, &c.pre);
    let mut got = vec![];
    let mut out = vec![];
    let mut paused = false;
    let mut call = |e: &mut MqttEngine, b: &[u8], got: &mut Vec<String>, out: &mut Vec<u8>| -> Result<usize, Fail> {
        let ev = e.handle_incoming(b);
        ensure!(
            ev.len() <= c.max + 1,
            "event-limit-exceeded",
            "{} events in one call, the limit is {}",
            ev.len(),
            c.max
        );
        got.extend(evs(&ev));
        out.extend(e.take_outgoing());
        Ok(ev.len())
    };
    for (i, piece) in split_at(&bytes, &c.cuts).iter().enumerate() {
        let n = call(&mut e, piece, &mut got, &mut out)?;
        paused |= n >= c.max;
        for _ in 0..c.resumes.get(i).copied().unwrap_or(0) {
            call(&mut e, &[], &mut got, &mut out)?;
        }
    }
    loop {
        if call(&mut e, &[], &mut got, &mut out)? == 0 {
            break;
        }
    }
    let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
    ensure!(
        got == want,
        "events-differ-under-back-pressure",
        "{} events instead of {}; first difference at {k}: {:?} instead of {:?}",
        got.len(),
        want.len(),
        got.get(k),
        want.get(k)
    );
    ensure!(
        out == want_out,
        "responses-differ-under-back-pressure",
        "sent {:?} instead of {:?}",
        refcodec::decode_all(&out, c.v5),
        refcodec::decode_all(&want_out, c.v5)
    );
    o.nt_if(paused && c.pkts.len() >= 4);
    if paused {
        o.label("paused");
    }
    Ok(())
}
pub fn e09() -> Property {
    Property {
        id: "E09",
        rule: "the event limit was reached at least once and at least four packets arrived",
        assumptions: &["The application calls again with an empty buffer until no more events come, as documented."],
        subs: vec![Box::new(Sub { name: "pressure", quick: 40_000, thorough: 800000, threads: 0, gen: g09, check: c09 })],
    }
}

// ----------------------------------------------------------------------- E10

#[derive(Debug, Serialize, Deserialize)]
pub struct OptCase {
    pub ver: u8,
    pub client_id: String,
    pub clean: bool,
    pub ka: u16,
    pub user: Option<String>,
    pub pass: Option<Vec<u8>>,
    pub will: Option<RWill>,
    pub sei: Option<u32>,
    pub mps: Option<u32>,
    pub rri: Option<bool>,
    pub rpi: Option<bool>,
    pub again: u8,
}
pub fn gen_optcase(s: &mut Src) -> OptCase {
    let ver = *s.pick(&[5u8, 4, 3]);
    let v5 = ver == 5;
    let user = s.opt(|s| refcodec::gen_string(s, 40));
    let pass = if v5 || user.is_some() { s.opt(|s| refcodec::gen_data(s, 40)) } else { None };
    OptCase {
        ver,
        client_id: refcodec::gen_string(s, 60),
        clean: s.bool(),
        ka: s.u16(),
        user,
        pass,
        will: s.opt(|s| refcodec::gen_will(s, v5)),
        sei: s.opt(|s| s.u32()),
        mps: s.opt(|s| s.u32().max(1)),
        rri: s.opt(|s| s.bool()),
        rpi: s.opt(|s| s.bool()),
        again: s.below(3) as u8,
    }
}
pub fn optcase_options(c: &OptCase) -> MqttClientOptions {
    let mut b = MqttClientOptions::builder().mqtt_version(c.ver).client_id(c.client_id.clone()).clean_start(c.clean).keep_alive(c.ka);
    if let Some(u) = &c.user {
        b = b.username(u.clone());
    }
    if let Some(p) = &c.pass {
        b = b.password(p.clone());
    }
    if let Some(w) = &c.will {
        b = b.will(flow_will(w));
    }
    if let Some(x) = c.sei {
        b = b.session_expiry_interval(x);
    }
    if let Some(x) = c.mps {
        b = b.maximum_packet_size(x);
    }
    if let Some(x) = c.rri {
        b = b.request_response_information(x);
    }
    if let Some(x) = c.rpi {
        b = b.request_problem_information(x);
    }
    b.build()
}
pub fn flow_will(w: &RWill) -> Will {
    let R::Connect { .. } = (R::Connect {
        clean: true,
        keep_alive: 0,
        client_id: String::new(),
        will: None,
        user: None,
        pass: None,
        props: vec![],
    }) else {
        unreachable!()
    };
    match conv::to_flow(
        &R::Connect {
            clean: true,
            keep_alive: 0,
            client_id: "c".into(),
            will: Some(w.clone()),
            user: None,
            pass: None,
            props: vec![],
        },
        true,
    ) {
        flowsdk::mqtt_serde::control_packet::MqttPacket::Connect5(c) => c.will.unwrap(),
        _ => unreachable!(),
    }
}
pub fn optcase_connect(c: &OptCase) -> R {
    let v5 = c.ver == 5;
    let mut props = vec![];
    if v5 {
        if let Some(x) = c.sei {
            props.push(Prop { id: 0x11, v: V::W(x) });
        }
        if let Some(x) = c.mps {
            props.push(Prop { id: 0x27, v: V::W(x) });
        }
        if let Some(x) = c.rri {
            props.push(Prop { id: 0x19, v: V::B(x as u8) });
        }
        if let Some(x) = c.rpi {
            props.push(Prop { id: 0x17, v: V::B(x as u8) });
        }
    }
    let mut will = c.will.clone();
    if !v5 {
        if let Some(w) = &mut will {
            w.props = vec![];
        }
    }
    let mut will2 = will;
    refcodec::canon_will(&mut will2);
    R::Connect {
        clean: c.clean,
        keep_alive: c.ka,
        client_id: c.client_id.clone(),
        will: will2,
        user: c.user.clone(),
        pass: c.pass.clone(),
        props,
    }
}
/// CONNECT comparison that does not depend on the order of properties.
pub fn same_connect(a: &R, b: &R) -> bool {
    let norm = |r: &R| {
        let mut r = r.clone();
        if let R::Connect { props, will, .. } = &mut r {
            props.sort_by_key(|p| p.id);
            refcodec::canon_will(will);
        }
        r
    };
    norm(a) == norm(b)
}
fn c10(c: &OptCase, o: &mut Obs) -> Res {
    let _clk = VClock::start();
    let v5 = c.ver == 5;
    let want = optcase_connect(c);
    let mut e = MqttEngine::new(optcase_options(c));
    for round in 0..=c.again {
        e.connect();
        let out = e.take_outgoing();
        let got = refcodec::decode_all(&out, v5);
        match got.as_deref() {
            Ok([p]) => ensure!(
                same_connect(p, &want),
                "connect-differs-from-options",
                "round {round}: sent {p:?}, configured {want:?}"
            ),
            x => return fail("connect-packet", format!("round {round}: connect() sent {x:?}")),
        }
        // one connection comes and goes
        let code = if round == 1 { if v5 { 0x88 } else { 3 } } else { 0 };
        e.handle_incoming(&refcodec::encode(&R::Connack { sp: false, code, props: vec![] }, v5, 0));
        if code == 0 {
            e.connect();
            ensure!(e.take_outgoing().is_empty(), "second-connect", "connect() while connected sent another packet");
        }
        if round == 0 {
            e.handle_connection_lost();
        } else {
            e.reset_for_new_transport();
        }
    }
    o.nt_if(c.will.is_some() || c.user.is_some() || c.sei.is_some());
    o.label(match c.ver {
        5 => "v5",
        4 => "v4",
        _ => "v3",
    });
    Ok(())
}
pub fn e10() -> Property {
    Property {
        id: "E10",
        rule: "a will, credentials or a session expiry interval is configured",
        assumptions: &["MQTT 3.1.1 options are generated without a password when there is no user name (the protocol forbids it)."],
        subs: vec![Box::new(Sub { name: "connect", quick: 250_000, thorough: 3750000, threads: 0, gen: gen_optcase, check: c10 })],
    }
}

// ----------------------------------------------------------------------- E12

#[derive(Debug, Clone, Serialize, Deserialize)]
enum FOp {
    Bytes(Vec<u8>),
    Pkt(R),
    Pub(u8, u16),
    PubEnc(u8, Option<u8>),
    Sub(u8),
    Unsub(u8),
    Tick(u32),
    Out,
    Connect,
    Disconnect,
    Lost,
    Reset,
    Ping,
    Auth(u8),
    Ingest(R, u8),
    Schedule,
}
#[derive(Debug, Serialize, Deserialize)]
struct FuzzCase {
    ver: u8,
    small: bool,
    ka: u16,
    ops: Vec<FOp>,
}
fn mutated(s: &mut Src, v5: bool) -> Vec<u8> {
    let p = refcodec::gen_packet(s, v5);
    let mut b = refcodec::encode(&p, v5, s.below(3) as u8);
    for _ in 0..s.below(4) {
        if b.is_empty() {
            break;
        }
        let i = s.below(b.len() as u64) as usize;
        match s.below(5) {
            0 => b[i] = s.u8(),
            1 => b[i] ^= 1 << s.below(8),
            2 => {
                b.truncate(i);
            }
            3 => b.insert(i, s.u8()),
            _ => {
                b.remove(i);
            }
        }
    }
    b
}
fn g12(s: &mut Src) -> FuzzCase {
    let ver = *s.pick(&[5u8, 4, 3]);
    let v5 = ver == 5;
    let n = if s.thorough { 60 } else { 25 };
    FuzzCase {
        ver,
        small: s.bool(),
        ka: *s.pick(&[60u16, 0, 1, 65535]),
        ops: s.vec(1, 100, n, |s| match s.weighted(&[8, 8, 4, 3, 2, 1, 3, 2, 2, 1, 1, 1, 1, 1, 4, 1]) {
            0 => FOp::Bytes(if s.chance(1, 4) { s.bytes(40) } else { mutated(s, v5) }),
            1 => FOp::Pkt(if s.chance(1, 3) {
                R::Connack { sp: s.bool(), code: if s.chance(1, 4) { 0x87 } else { 0 }, props: if v5 { refcodec::gen_props(s, 2) } else { vec![] } }
            } else {
                inbound_pkt(s, v5)
            }),
            2 => FOp::Pub(s.below(3) as u8, s.below(300) as u16),
            3 => FOp::PubEnc(s.below(3) as u8, s.opt(|s| s.below(4) as u8)),
            4 => FOp::Sub(s.below(4) as u8),
            5 => FOp::Unsub(1 + s.below(3) as u8),
            6 => FOp::Tick(s.below(200_000) as u32),
            7 => FOp::Out,
            8 => FOp::Connect,
            9 => FOp::Disconnect,
            10 => FOp::Lost,
            11 => FOp::Reset,
            12 => FOp::Ping,
            13 => FOp::Auth(s.u8()),
            14 => FOp::Ingest(if s.bool() { inbound_pkt(s, v5) } else { refcodec::gen_packet(s, v5) }, s.below(4) as u8),
            _ => FOp::Schedule,
        }),
    }
}
fn c12(c: &FuzzCase, o: &mut Obs) -> Res {
    let clk = VClock::start();
    let v5 = c.ver == 5;
    let mut op = MqttClientOptions::builder().mqtt_version(c.ver).keep_alive(c.ka).client_id("z").build();
    if c.small {
        op.max_event_count = 2;
        op.max_outgoing_packet_count = 2;
        op.receive_maximum = 2;
        op.parser_buffer_size = 16;
    }
    let mut e = MqttEngine::new(op);
    e.connect();
    let mut n_err = 0;
    let mut n_ev = 0;
    for f in &c.ops {
        let mut ev = vec![];
        match f {
            FOp::Bytes(b) => ev = e.handle_incoming(b),
            FOp::Pkt(p) => ev = e.handle_incoming(&refcodec::encode(p, v5, 0)),
            FOp::Pub(q, n) => {
                let _ = e.publish(PublishCommand::simple("a", vec![0; *n as usize], *q, false));
            }
            FOp::PubEnc(q, st) => {
                let _ = e.publish_encoded(PublishCommand::simple("a", vec![], *q, false), st.map(|x| x as u64));
            }
            FOp::Sub(n) => {
                let mut b = SubscribeCommand::builder();
                for i in 0..*n {
                    b = b.add_topic(format!("a/{i}"), i % 3);
                }
                if let Ok(cmd) = b.build() {
                    let _ = e.subscribe(cmd);
                }
            }
            FOp::Unsub(n) => {
                let _ = e.unsubscribe(UnsubscribeCommand::from_topics((0..*n).map(|i| format!("a/{i}")).collect()));
            }
            FOp::Tick(ms) => {
                clk.advance_ms(*ms as u64);
                let _ = e.next_tick_at();
                ev = e.handle_tick(Instant::now());
            }
            FOp::Out => {
                let b = e.take_outgoing();
                if let Err(x) = lax(&b, v5) {
                    return fail("undecodable-output", format!("the engine sent {b:02x?}: {x:?}"));
                }
                for (_, b) in e.take_stream_retransmissions() {
                    if let Err(x) = lax(&b, v5) {
                        return fail("undecodable-output", format!("the engine retransmitted {b:02x?}: {x:?}"));
                    }
                }
            }
            FOp::Connect => e.connect(),
            FOp::Disconnect => e.disconnect(),
            FOp::Lost => e.handle_connection_lost(),
            FOp::Reset => e.reset_for_new_transport(),
            FOp::Ping => e.send_ping(),
            FOp::Auth(c) => e.auth(*c, vec![]),
            FOp::Ingest(p, s) => {
                let (x, b) = e.ingest_stream_packet(conv::to_flow(p, v5), *s as u64);
                ev = x;
                if let Err(x) = lax(&b, v5) {
                    return fail("undecodable-output", format!("the engine answered {b:02x?}: {x:?}"));
                }
            }
            FOp::Schedule => e.schedule_reconnect(Instant::now()),
        }
        n_ev += ev.len();
        n_err += ev.iter().filter(|x| matches!(x, MqttEvent::Error(_))).count();
    }
    if n_err > 0 {
        o.label("parse-error");
    }
    o.nt_if(n_ev >= 3);
    Ok(())
}

#[derive(Debug, Serialize, Deserialize)]
struct FragCase {
    v5: bool,
    pre: Vec<u8>,
    parts: Vec<Vec<u8>>,
    cuts: Vec<u16>,
    bytewise: bool,
}
fn g12f(s: &mut Src) -> FragCase {
    let v5 = s.bool();
    FragCase {
        v5,
        pre: s.vec(0, 8, 3, |s| 1 + s.below(2) as u8),
        parts: s.vec(1, 20, 6, |s| {
            if s.chance(1, 8) {
                mutated(s, v5)
            } else {
                let p = inbound_pkt(s, v5);
                refcodec::encode(&p, v5, s.below(3) as u8)
            }
        }),
        cuts: s.vec(0, 12, 5, |s| s.below(3000) as u16),
        bytewise: s.chance(1, 4),
    }
}
fn c12f(c: &FragCase, o: &mut Obs) -> Res {
    let _clk = VClock::start();
    let bytes: Vec<u8> = c.parts.concat();
    let run = |pieces: Vec<Vec<u8>>| -> Result<(Vec<String>, Vec<u8>, bool), Fail> {
        let mut e = connected_engine(c.v5, |_| {})?;
        preload(&mut e, &c.pre);
        let mut all = vec![];
        let mut out = vec![];
        for p in pieces {
            let ev = e.handle_incoming(&p);
            out.extend(e.take_outgoing());
            for x in ev {
                if matches!(x, MqttEvent::Error(_)) {
                    all.push("error".to_string());
                    return Ok((all, out, e.is_connected()));
                }
                all.extend(evs(&[x]));
            }
        }
        Ok((all, out, e.is_connected()))
    };
    let whole = run(vec![bytes.clone()])?;
    let pieces = if c.bytewise { bytes.iter().map(|b| vec![*b]).collect() } else { split_at(&bytes, &c.cuts) };
    let n = pieces.len();
    let frag = run(pieces)?;
    let k = whole.0.iter().zip(&frag.0).take_while(|(a, b)| a == b).count();
    ensure!(
        whole.0 == frag.0,
        "events-depend-on-fragmentation",
        "{} events from one buffer, {} from {n} pieces; first difference at {k}: {:?} / {:?}",
        whole.0.len(),
        frag.0.len(),
        whole.0.get(k),
        frag.0.get(k)
    );
    ensure!(whole.1 == frag.1, "output-depends-on-fragmentation", "{:02x?} / {:02x?}", whole.1, frag.1);
    ensure!(whole.2 == frag.2, "state-depends-on-fragmentation", "connected {} / {}", whole.2, frag.2);
    if whole.0.last().is_some_and(|x| x == "error") {
        o.label("parse-error");
    }
    o.nt_if(n >= 3 && whole.0.len() >= 2);
    Ok(())
}
pub fn e12() -> Property {
    Property {
        id: "E12",
        rule: "at least two (robustness: three) events were produced, over at least three pieces",
        assumptions: &["After the first protocol error the application is expected to drop the connection; what is compared ends there."],
        subs: vec![
            Box::new(Sub { name: "robust", quick: 60_000, thorough: 1500000, threads: 0, gen: g12, check: c12 }),
            Box::new(Sub { name: "fragments", quick: 40_000, thorough: 800000, threads: 0, gen: g12f, check: c12f }),
        ],
    }
}

/// Decodes what the engine sent; a hostile broker's identifier 0 may be echoed.
fn lax(b: &[u8], v5: bool) -> Result<(), String> {
    match refcodec::decode_all(b, v5) {
        Err(x) if x != "packet id 0" => Err(x),
        _ => Ok(()),
    }
}

// ----------------------------------------------------------------------- E13

#[derive(Debug, Clone, Serialize, Deserialize)]
enum QOp {
    Enq(u8, u16),
    Deq,
    Peek,
    Clear,
    Reload,
}
#[derive(Debug, Serialize, Deserialize)]
struct QCase {
    cap: usize,
    text: String,
    ops: Vec<QOp>,
}
fn g13(s: &mut Src) -> QCase {
    QCase {
        cap: *s.pick(&[3usize, 0, 1, 2, 10, 50]),
        text: refcodec::gen_string(s, 20),
        ops: s.vec(1, 200, 50, |s| match s.weighted(&[20, 9, 3, 1, 1]) {
            0 => QOp::Enq(*s.pick(&[128u8, 0, 1, 2, 254, 255]), s.below(1000) as u16),
            1 => QOp::Deq,
            2 => QOp::Peek,
            3 => QOp::Clear,
            _ => QOp::Reload,
        }),
    }
}
/// The file a case saves to, again and again over what is there.
struct QFile(std::path::PathBuf);
impl Drop for QFile {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
fn c13(c: &QCase, o: &mut Obs) -> Res {
    let file = QFile(std::env::temp_dir().join(format!("vh-pq-{}-{:?}.json", std::process::id(), std::thread::current().id())));
    let mut longest = 0;
    let mut q: PriorityQueue<u8, String> = PriorityQueue::new(c.cap);
    let mut m: Vec<(u8, String)> = vec![]; // insertion order
    let best = |m: &Vec<(u8, String)>| -> Option<usize> {
        let mx = m.iter().map(|x| x.0).max()?;
        m.iter().position(|x| x.0 == mx)
    };
    for (n, op) in c.ops.iter().enumerate() {
        match op {
            QOp::Enq(p, x) => {
                let t = format!("{}{n}-{x}", c.text);
                q.enqueue(*p, t.clone());
                m.push((*p, t));
                if m.len() > c.cap {
                    let mn = m.iter().map(|x| x.0).min().unwrap();
                    let i = m.iter().position(|x| x.0 == mn).unwrap();
                    m.remove(i);
                    o.label("evicted");
                }
            }
            QOp::Deq => {
                let want = best(&m).map(|i| m.remove(i));
                let got = q.dequeue();
                ensure!(got == want, "dequeue-order", "step {n}: dequeued {got:?}, expected {want:?}");
            }
            QOp::Peek => {
                let want = best(&m).map(|i| (m[i].0, m[i].1.clone()));
                let got = q.peek().map(|(p, t)| (*p, t.clone()));
                ensure!(got == want, "peek", "step {n}: peeked {got:?}, expected {want:?}");
            }
            QOp::Clear => {
                q.clear();
                m.clear();
            }
            QOp::Reload => {
                let r = q.save_to_file(&file.0);
                let l: std::io::Result<PriorityQueue<u8, String>> = PriorityQueue::load_from_file(&file.0);
                if let Err(e) = r {
                    return fail("save-failed", format!("{e}"));
                }
                match l {
                    Ok(x) => q = x,
                    Err(e) => return fail("load-failed", format!("saved queue does not load: {e}")),
                }
                o.label("reloaded");
                if m.len() < longest {
                    o.label("saved-over-longer");
                }
                longest = m.len();
            }
        }
        ensure!(q.len() == m.len() && q.is_empty() == m.is_empty(), "length", "step {n}: len {} / {}", q.len(), m.len());
    }
    while let Some(i) = best(&m) {
        let want = m.remove(i);
        let got = q.dequeue();
        ensure!(got.as_ref() == Some(&want), "dequeue-order", "draining: {got:?}, expected {want:?}");
    }
    ensure!(q.dequeue().is_none() && q.is_empty(), "length", "queue not empty at the end");
    o.nt_if(o.labels.contains_key("evicted") || o.labels.contains_key("reloaded"));
    Ok(())
}

fn g13s(s: &mut Src) -> Hist {
    gen_hist(
        s,
        &Prof { w: [16, 0, 0, 0, 1, 5, 1, 0, 0, 0, 0, 3, 1, 0, 0], ops: 60, prio: true, streams: false, small_out: false, ..BASE },
    )
}
fn c13s(h: &Hist, o: &mut Obs) -> Res {
    let r = run_hist(h, "E13", o);
    nt_hist(h, o);
    r
}

#[derive(Debug, Serialize, Deserialize)]
struct EvictCase {
    v5: bool,
    prios: Vec<u8>,
    qos: Vec<u8>,
    extra: u16,
    max_out: usize,
}
fn g13e(s: &mut Src) -> EvictCase {
    EvictCase {
        v5: s.bool(),
        prios: s.vec(1, 20, 8, |s| *s.pick(&[128u8, 0, 255, 1, 77])),
        qos: s.vec(1, 5, 2, |s| s.below(3) as u8),
        extra: s.below(60) as u16,
        max_out: *s.pick(&[5000usize, 1000, 7, 1]),
    }
}
fn c13e(c: &EvictCase, o: &mut Obs) -> Res {
    let _clk = VClock::start();
    let mut e = connected_engine(c.v5, |o| {
        o.max_outgoing_packet_count = c.max_out;
        o.receive_maximum = 65535;
    })?;
    e.handle_connection_lost();
    let total = 1000 + c.extra as usize;
    let mut m: Vec<(u8, usize)> = vec![];
    for k in 0..total {
        let p = c.prios[(k * 7 + k / 3) % c.prios.len()];
        let q = c.qos[k % c.qos.len()];
        let mut cmd = PublishCommand::simple("t", (k as u32).to_be_bytes().to_vec(), q, false);
        cmd.priority = p;
        if let Err(x) = e.publish(cmd) {
            return fail("publish-refused", format!("{x:?}"));
        }
        m.push((p, k));
        if m.len() > 1000 {
            let mn = m.iter().map(|x| x.0).min().unwrap();
            let i = m.iter().position(|x| x.0 == mn).unwrap();
            m.remove(i);
        }
    }
    m.sort_by_key(|x| (255 - x.0, x.1));
    e.connect();
    e.take_outgoing();
    e.handle_incoming(&refcodec::encode(&R::Connack { sp: false, code: 0, props: vec![] }, c.v5, 0));
    let mut got = vec![];
    loop {
        let out = match refcodec::decode_all(&e.take_outgoing(), c.v5) {
            Ok(o) => o,
            Err(x) => return fail("undecodable-output", format!("{x:?}")),
        };
        if out.is_empty() {
            break;
        }
        ensure!(
            out.len() <= c.max_out,
            "outgoing-limit",
            "{} packets queued, the limit is {}",
            out.len(),
            c.max_out
        );
        for p in out {
            if let R::Publish { payload, .. } = p {
                got.push(u32::from_be_bytes(payload[..4].try_into().unwrap()) as usize);
            }
        }
        e.handle_incoming(&[]);
    }
    let want: Vec<usize> = m.iter().map(|x| x.1).collect();
    let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
    ensure!(
        got == want,
        "queue-order",
        "{} messages left instead of {}; at position {k}: #{:?} instead of #{:?}",
        got.len(),
        want.len(),
        got.get(k),
        want.get(k)
    );
    o.nt_if(c.extra > 0);
    Ok(())
}
pub fn e13() -> Property {
    Property {
        id: "E13",
        rule: "something was evicted or reloaded; or messages of several priorities waited",
        assumptions: &["The queue of the engine holds 1000 messages."],
        subs: vec![
            Box::new(Sub { name: "queue", quick: 200_000, thorough: 3000000, threads: 0, gen: g13, check: c13 }),
            Box::new(Sub { name: "engine", quick: 60_000, thorough: 900000, threads: 0, gen: g13s, check: c13s }),
            Box::new(Sub { name: "evict", quick: 3_000, thorough: 45000, threads: 0, gen: g13e, check: c13e }),
        ],
    }
}

// ----------------------------------------------------------------------- E14

/// An answer of the broker, as codes on the wire.
#[derive(Debug, Serialize, Deserialize)]
enum Answer {
    Connack(u8),
    Suback(Vec<u8>),
    Unsuback(Vec<u8>),
    Puback(u8),
    Pubrec(u8),
    Pubcomp(u8),
    Auth(u8),
}
#[derive(Debug, Serialize, Deserialize)]
struct AnswerCase {
    v5: bool,
    long: u8,
    a: Answer,
}
/// MQTT 5.0 section 2.4, the codes of the answers, by packet.
const C_CONNACK: &[u8] = &[
    0, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8c, 0x90, 0x95, 0x97, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9f,
];
const C_SUBACK: &[u8] = &[0, 1, 2, 0x80, 0x83, 0x87, 0x8f, 0x91, 0x97, 0x9e, 0xa1, 0xa2];
const C_UNSUBACK: &[u8] = &[0, 0x11, 0x80, 0x83, 0x87, 0x8f, 0x91];
const C_PUBACK: &[u8] = &[0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99];
fn code_name(c: u8) -> &'static str {
    match c {
        0x10 => "no matching subscribers",
        0x80 => "unspecified error",
        0x81 => "malformed packet",
        0x82 => "protocol error",
        0x83 => "implementation specific error",
        0x84 => "unsupported protocol version",
        0x85 => "client identifier not valid",
        0x86 => "bad user name or password",
        0x87 => "not authorized",
        0x88 => "server unavailable",
        0x89 => "server busy",
        0x8a => "banned",
        0x8c => "bad authentication method",
        0x90 => "topic name invalid",
        0x91 => "packet identifier in use",
        0x92 => "packet identifier not found",
        0x95 => "packet too large",
        0x97 => "quota exceeded",
        0x99 => "payload format invalid",
        0x9a => "retain not supported",
        0x9b => "qos not supported",
        0x9c => "use another server",
        0x9d => "server moved",
        0x9f => "connection rate exceeded",
        _ => "success",
    }
}
fn g14(s: &mut Src) -> AnswerCase {
    let v5 = s.bool();
    let some = |s: &mut Src, c: &[u8], v3: &[u8]| *s.pick(if v5 { c } else { v3 });
    let a = match s.below(if v5 { 7 } else { 4 }) {
        0 => Answer::Connack(some(s, C_CONNACK, &[0, 1, 2, 3, 4, 5])),
        1 => {
            // mostly good, so that a single refusal decides
            let n = s.usize(1, 12);
            Answer::Suback((0..n).map(|_| if s.chance(2, 3) { s.below(3) as u8 } else { some(s, C_SUBACK, &[0, 1, 2, 0x80]) }).collect())
        }
        2 => {
            let n = s.usize(1, 12);
            Answer::Unsuback((0..n).map(|_| if s.chance(2, 3) { *s.pick(&[0u8, 0x11]) } else { *s.pick(C_UNSUBACK) }).collect())
        }
        3 => Answer::Puback(some(s, C_PUBACK, &[0])),
        4 => Answer::Pubrec(some(s, C_PUBACK, &[0])),
        5 => Answer::Pubcomp(some(s, &[0, 0x92], &[0])),
        _ => Answer::Auth(*s.pick(&[0u8, 0x18, 0x19])),
    };
    AnswerCase { v5, long: s.below(3) as u8, a }
}
fn c14(c: &AnswerCase, o: &mut Obs) -> Res {
    let _clk = VClock::start();
    let v5 = c.v5;
    let named = |what: &str, code: u8, got: &str| -> Res {
        ensure!(
            !v5 || got.to_lowercase() == code_name(code),
            format!("description:{what}"),
            "{what} with reason code {code:#x}, {:?}, is described as {got:?}",
            code_name(code)
        );
        Ok(())
    };
    if let Answer::Auth(code) = c.a {
        let r = flowsdk::mqtt_client::client::AuthResult { reason_code: code, properties: vec![] };
        o.label("auth");
        let got = (r.is_success(), r.is_continue(), r.is_re_authenticate());
        ensure!(got == (code == 0, code == 0x18, code == 0x19), "auth-outcome", "AUTH {code:#x}: success, continue, re-authenticate {got:?}");
        return Ok(());
    }
    if let Answer::Connack(code) = c.a {
        let op = MqttClientOptions::builder().mqtt_version(conv::ver(v5)).keep_alive(0).client_id("x").build();
        let mut e = MqttEngine::new(op);
        e.connect();
        e.take_outgoing();
        let ev = e.handle_incoming(&refcodec::encode(&R::Connack { sp: false, code, props: vec![] }, v5, c.long));
        let Some(r) = ev.iter().find_map(|x| if let MqttEvent::Connected(r) = x { Some(r) } else { None }) else {
            return fail("no-outcome", format!("CONNACK {code:#x}: no outcome in {:?}", evs(&ev)));
        };
        o.label(if code == 0 { "accepted" } else { "refused" });
        o.nt_if(code != 0);
        ensure!(
            r.is_success() == (code == 0) && r.is_failure() == (code != 0),
            "connect-outcome",
            "CONNACK {code:#x}: success {}, failure {}",
            r.is_success(),
            r.is_failure()
        );
        return named("CONNACK", code, r.reason_description());
    }
    let mut e = connected_engine(v5, |_| ())?;
    let filters: Vec<String> = match &c.a {
        Answer::Suback(x) | Answer::Unsuback(x) => (0..x.len()).map(|i| format!("f{i}")).collect(),
        _ => vec![],
    };
    let err = |x: flowsdk::mqtt_client::error::MqttClientError| Fail { sig: "call-refused".into(), msg: format!("{x:?}") };
    let wire = |p: R| refcodec::encode(&p, v5, c.long);
    let (ev, codes) = match &c.a {
        Answer::Suback(codes) => {
            let mut b = SubscribeCommand::builder();
            for f in &filters {
                b = b.add_topic(f.clone(), 2);
            }
            let pid = e.subscribe(b.build().map_err(|x| Fail { sig: "build".into(), msg: format!("{x:?}") })?).map_err(err)?;
            (e.handle_incoming(&wire(R::Suback { pid, props: vec![], codes: codes.clone() })), codes.clone())
        }
        Answer::Unsuback(codes) => {
            let pid = e.unsubscribe(UnsubscribeCommand::from_topics(filters.clone())).map_err(err)?;
            let codes = if v5 { codes.clone() } else { vec![] };
            (e.handle_incoming(&wire(R::Unsuback { pid, props: vec![], codes: codes.clone() })), codes)
        }
        a => {
            let (q, kind, code) = match a {
                Answer::Puback(x) => (1, 4, *x),
                Answer::Pubrec(x) => (2, 5, *x),
                Answer::Pubcomp(x) => (2, 7, *x),
                _ => unreachable!(),
            };
            let pid = e.publish(PublishCommand::simple("t", vec![1], q, false)).map_err(err)?.unwrap_or(0);
            if kind == 7 {
                e.handle_incoming(&wire(R::Ack { kind: 5, pid, code: 0, props: vec![] }));
            }
            let mut ev = e.handle_incoming(&wire(R::Ack { kind, pid, code, props: vec![] }));
            if kind == 5 && code < 0x80 {
                ev = e.handle_incoming(&wire(R::Ack { kind: 7, pid, code: 0, props: vec![] }));
            }
            (ev, vec![if kind == 5 && code < 0x80 { 0 } else { code }])
        }
    };
    let good = codes.iter().filter(|x| **x < 0x80).count();
    let all = good == codes.len();
    o.label(if all { "accepted" } else { "refused" });
    o.nt_if(!all || codes.iter().any(|x| *x != 0));
    for x in &ev {
        match (x, &c.a) {
            (MqttEvent::Subscribed(r), Answer::Suback(_)) => {
                ensure!(
                    r.is_success() == all && r.successful_subscriptions() == good,
                    "subscribe-outcome",
                    "SUBACK {codes:02x?}: success {}, {} subscriptions",
                    r.is_success(),
                    r.successful_subscriptions()
                );
                return Ok(());
            }
            (MqttEvent::Unsubscribed(r), Answer::Unsuback(_)) => {
                ensure!(r.is_success() == all, "unsubscribe-outcome", "UNSUBACK {codes:02x?}: success {}", r.is_success());
                return Ok(());
            }
            (MqttEvent::Published(r), Answer::Puback(_) | Answer::Pubrec(_) | Answer::Pubcomp(_)) => {
                ensure!(r.is_success() == all, "publish-outcome", "{:?}: success {}, reported {:?}", c.a, r.is_success(), r.reason_code);
                if let Some(code) = r.reason_code {
                    named("publish", code, r.reason_description())?;
                }
                return Ok(());
            }
            _ => {}
        }
    }
    fail("no-outcome", format!("{:?}: no outcome in {:?}", c.a, evs(&ev)))
}
pub fn e14() -> Property {
    Property {
        id: "E14",
        rule: "an answer with a code other than 0",
        assumptions: &["Reason codes are those MQTT 5.0 and 3.1.1 allow in the packet; descriptions are compared, without regard to case, for MQTT 5.0 only (the table is of MQTT 5.0 codes)."],
        subs: vec![Box::new(Sub { name: "outcome", quick: 60_000, thorough: 600_000, threads: 0, gen: g14, check: c14 })],
    }
}

// ----------------------------------------------------------------------- S01

#[derive(Debug, Clone, Serialize, Deserialize)]
enum SOp {
    Publish(u8, u16),
    Puback(u16, u8),
    Pubrec(u16, u8),
    Pubrel(u16),
    Pubcomp(u16, u8),
    InPublish(u8, u16),
    InPubrel(u16),
    Resend,
    Clear,
    NextId(u32),
}
#[derive(Debug, Serialize, Deserialize)]
struct SCase {
    ops: Vec<SOp>,
}
fn gs01(s: &mut Src) -> SCase {
    SCase {
        ops: s.vec(1, 120, 40, |s| {
            let id = s.range(1, 6) as u16;
            match s.weighted(&[10, 3, 5, 4, 4, 3, 2, 5, 1, 1]) {
                0 => SOp::Publish(s.below(3) as u8, id),
                1 => SOp::Puback(id, *s.pick(&[0u8, 0x10, 0x80, 0x97])),
                2 => SOp::Pubrec(id, *s.pick(&[0u8, 0x10, 0x80, 0x97])),
                3 => SOp::Pubrel(id),
                4 => SOp::Pubcomp(id, *s.pick(&[0u8, 0x92])),
                5 => SOp::InPublish(s.below(3) as u8, s.u16().max(1)),
                6 => SOp::InPubrel(s.u16()),
                7 => SOp::Resend,
                8 => SOp::Clear,
                _ => SOp::NextId(if s.chance(1, 10) { 70_000 } else { s.below(5) as u32 }),
            }
        }),
    }
}
fn cs01(c: &SCase, o: &mut Obs) -> Res {
    use flowsdk::mqtt_serde::control_packet::MqttPacket as M;
    use flowsdk::mqtt_serde::mqttv5 as v5;
    use flowsdk::mqtt_session::ClientSession;
    let mut s = ClientSession::new();
    let mut pubs: BTreeMap<u16, String> = BTreeMap::new();
    let mut rels: BTreeSet<u16> = BTreeSet::new();
    let mut handed = vec![0u64; 65536];
    let mut counter = 0u64;
    for (n, op) in c.ops.iter().enumerate() {
        match op {
            SOp::Publish(q, id) => {
                let payload = vec![n as u8, (n >> 8) as u8];
                let p = v5::publishv5::MqttPublish::new_with_prop(
                    *q,
                    format!("t{}", n % 7),
                    (*q > 0).then_some(*id),
                    payload,
                    n % 3 == 0,
                    false,
                    if n % 2 == 0 { vec![v5::common::properties::Property::ContentType(format!("c{n}"))] } else { vec![] },
                );
                s.handle_outgoing_publish(p.clone());
                if *q > 0 {
                    pubs.entry(*id).or_insert(format!("{p:?}"));
                }
            }
            SOp::Puback(id, code) => {
                s.handle_incoming_puback(v5::pubackv5::MqttPubAck::new(*id, *code, vec![]));
                pubs.remove(id);
            }
            SOp::Pubrec(id, code) => {
                let r = s.handle_incoming_pubrec(v5::pubrecv5::MqttPubRec::new(*id, *code, vec![]));
                pubs.remove(id);
                ensure!(
                    r.as_ref().map(|x| (x.packet_id, x.reason_code)) == (*code < 0x80).then_some((*id, 0)),
                    "pubrec-answer",
                    "PUBREC {id} code {code:#x} answered with {r:?}"
                );
            }
            SOp::Pubrel(id) => {
                s.handle_outgoing_pubrel(v5::pubrelv5::MqttPubRel::new(*id, 0, vec![]));
                rels.insert(*id);
            }
            SOp::Pubcomp(id, code) => {
                s.handle_incoming_pubcomp(v5::pubcompv5::MqttPubComp::new(*id, *code, vec![]));
                rels.remove(id);
            }
            SOp::InPublish(q, id) => {
                let p = v5::publishv5::MqttPublish::new(*q, "t".into(), (*q > 0).then_some(*id), vec![], false, false);
                let r = s.handle_incoming_publish(p);
                let ok = match (&r, q) {
                    (None, 0) => true,
                    (Some(M::PubAck5(a)), 1) => a.packet_id == *id && a.reason_code == 0,
                    (Some(M::PubRec5(a)), 2) => a.packet_id == *id && a.reason_code == 0,
                    _ => false,
                };
                ensure!(ok, "publish-answer", "PUBLISH QoS {q} id {id} answered with {r:?}");
            }
            SOp::InPubrel(id) => {
                let r = s.handle_incoming_pubrel(v5::pubrelv5::MqttPubRel::new(*id, 0, vec![]));
                ensure!(r.packet_id == *id && r.reason_code == 0, "pubrel-answer", "PUBREL {id} answered with {r:?}");
            }
            SOp::Resend => {
                let mut gp = BTreeMap::new();
                let mut gr = BTreeSet::new();
                for p in s.resend_pending_messages() {
                    match p {
                        M::Publish5(mut p) => {
                            p.dup = false; // a resent PUBLISH may carry DUP
                            ensure!(gp.insert(p.packet_id.unwrap(), format!("{p:?}")).is_none(), "resend-twice", "PUBLISH twice");
                        }
                        M::PubRel5(r) => {
                            ensure!(gr.insert(r.packet_id), "resend-twice", "PUBREL twice");
                        }
                        x => return fail("resend-kind", format!("{x:?}")),
                    }
                }
                let wp: BTreeMap<u16, String> = pubs.iter().filter(|(k, _)| !rels.contains(k)).map(|(k, v)| (*k, v.clone())).collect();
                ensure!(gp == wp, "resend-publishes", "resends {gp:?}, unacknowledged {wp:?}");
                ensure!(gr == rels, "resend-pubrels", "resends PUBREL {gr:?}, open {rels:?}");
                if !gp.is_empty() && !gr.is_empty() {
                    o.nt();
                }
            }
            SOp::Clear => {
                s.clear();
                pubs.clear();
                rels.clear();
            }
            SOp::NextId(n) => {
                for _ in 0..*n {
                    let id = s.next_packet_id();
                    counter += 1;
                    let last = std::mem::replace(&mut handed[id as usize], counter);
                    ensure!(id != 0, "packet-id-zero", "identifier 0 after {counter} calls");
                    ensure!(last == 0 || counter - last >= 65535, "packet-id-reused", "identifier {id} again after {} calls", counter - last);
                }
            }
        }
    }
    Ok(())
}
pub fn s01() -> Property {
    Property {
        id: "S01",
        rule: "a resend list contained both PUBLISH and PUBREL",
        assumptions: &["The caller records the PUBREL it sends (handle_outgoing_pubrel), as the API requires."],
        subs: vec![Box::new(Sub { name: "session", quick: 300_000, thorough: 4500000, threads: 0, gen: gs01, check: cs01 })],
    }
}

#[allow(dead_code)]
fn _unused(_: Duration) {}

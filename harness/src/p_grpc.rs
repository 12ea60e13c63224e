//! G01: packets as protocol buffers.
use crate::conv;
use crate::core::{fail, Obs, Property, Res, Src, Sub};
use crate::ensure;
use crate::refcodec::{self as rc, Prop, RWill, R, V};
use mqtt_grpc_proxy::mqtt_unified_pb::{mqtt_stream_message::Payload, MessageDirection, MqttStreamMessage};
use mqtt_grpc_proxy::{convert_mqtt_to_stream_message, convert_stream_message_to_mqtt_packet, mqttv3pb as p3, mqttv5pb as p5};
use prost::Message;
use serde::{Deserialize, Serialize};

#[derive(Debug, Serialize, Deserialize)]
struct Case {
    v5: bool,
    p: R,
    seq: u64,
    to_client: bool,
}
fn gen5(s: &mut Src) -> Case {
    gen(s, true)
}
fn gen3(s: &mut Src) -> Case {
    gen(s, false)
}
fn gen(s: &mut Src, v5: bool) -> Case {
    Case { v5, p: rc::gen_packet(s, v5), seq: if s.bool() { s.below(300) } else { u64::MAX - s.below(300) }, to_client: s.bool() }
}

fn prop(p: &Prop) -> p5::Property {
    use p5::property::PropertyType as T;
    let b = || matches!(p.v, V::B(1));
    let w = || match p.v {
        V::B(x) => x as u32,
        V::H(x) => x as u32,
        V::W(x) | V::L(x) => x,
        _ => unreachable!(),
    };
    let st = || match &p.v {
        V::S(x) => x.clone(),
        _ => unreachable!(),
    };
    let d = || match &p.v {
        V::D(x) => x.clone(),
        _ => unreachable!(),
    };
    let t = match p.id {
        0x01 => T::PayloadFormatIndicator(b()),
        0x02 => T::MessageExpiryInterval(w()),
        0x03 => T::ContentType(st()),
        0x08 => T::ResponseTopic(st()),
        0x09 => T::CorrelationData(d()),
        0x0b => T::SubscriptionIdentifier(w()),
        0x11 => T::SessionExpiryInterval(w()),
        0x12 => T::AssignedClientIdentifier(st()),
        0x13 => T::ServerKeepAlive(w()),
        0x15 => T::AuthenticationMethod(st()),
        0x16 => T::AuthenticationData(d()),
        0x17 => T::RequestProblemInformation(b()),
        0x18 => T::WillDelayInterval(w()),
        0x19 => T::RequestResponseInformation(b()),
        0x1a => T::ResponseInformation(st()),
        0x1c => T::ServerReference(st()),
        0x1f => T::ReasonString(st()),
        0x21 => T::ReceiveMaximum(w()),
        0x22 => T::TopicAliasMaximum(w()),
        0x23 => T::TopicAlias(w()),
        0x24 => T::MaximumQos(w()),
        0x25 => T::RetainAvailable(b()),
        0x26 => match &p.v {
            V::P(k, v) => T::UserProperty(p5::UserProperty { key: k.clone(), value: v.clone() }),
            _ => unreachable!(),
        },
        0x27 => T::MaximumPacketSize(w()),
        0x28 => T::WildcardSubscriptionAvailable(b()),
        0x29 => T::SubscriptionIdentifiersAvailable(b()),
        0x2a => T::SharedSubscriptionAvailable(b()),
        x => panic!("property {x}"),
    };
    p5::Property { property_type: Some(t) }
}
fn props(ps: &[Prop]) -> Vec<p5::Property> {
    ps.iter().map(prop).collect()
}
fn codes(c: &[u8]) -> Vec<u32> {
    c.iter().map(|c| *c as u32).collect()
}
/// what the message says, field by field
fn to_pb(r: &R, v5: bool) -> Payload {
    if v5 {
        use p5::mqtt_packet::Packet as K;
        let k = match r {
            R::Connect { clean, keep_alive, client_id, will, user, pass, props: ps } => K::Connect(p5::Connect {
                client_id: client_id.clone(),
                protocol_name: "MQTT".into(),
                protocol_version: 5,
                clean_start: *clean,
                keep_alive: *keep_alive as u32,
                username: user.clone(),
                password: pass.clone(),
                will: will.as_ref().map(|w: &RWill| p5::Will { topic: w.topic.clone(), payload: w.payload.clone(), qos: w.qos as i32, retain: w.retain, properties: props(&w.props) }),
                properties: props(ps),
            }),
            R::Connack { sp, code, props: ps } => K::Connack(p5::Connack { session_present: *sp, reason_code: *code as u32, properties: props(ps) }),
            R::Publish { dup, qos, retain, topic, pid, props: ps, payload } => {
                K::Publish(p5::Publish { topic: topic.clone(), message_id: if *qos > 0 { *pid as u32 } else { 0 }, qos: *qos as i32, retain: *retain, dup: *dup, payload: payload.clone(), properties: props(ps) })
            }
            R::Ack { kind, pid, code, props: ps } => {
                let (message_id, reason_code, properties) = (*pid as u32, *code as u32, props(ps));
                match kind {
                    4 => K::Puback(p5::Puback { message_id, reason_code, properties }),
                    5 => K::Pubrec(p5::Pubrec { message_id, reason_code, properties }),
                    6 => K::Pubrel(p5::Pubrel { message_id, reason_code, properties }),
                    _ => K::Pubcomp(p5::Pubcomp { message_id, reason_code, properties }),
                }
            }
            R::Subscribe { pid, props: ps, subs } => K::Subscribe(p5::Subscribe {
                message_id: *pid as u32,
                subscriptions: subs.iter().map(|s| p5::TopicSubscription { topic_filter: s.filter.clone(), qos: s.qos as u32, no_local: s.nl, retain_as_published: s.rap, retain_handling: s.rh as u32 }).collect(),
                properties: props(ps),
            }),
            R::Suback { pid, props: ps, codes: c } => K::Suback(p5::Suback { message_id: *pid as u32, reason_codes: codes(c), properties: props(ps) }),
            R::Unsubscribe { pid, props: ps, filters } => K::Unsubscribe(p5::Unsubscribe { message_id: *pid as u32, topic_filters: filters.clone(), properties: props(ps) }),
            R::Unsuback { pid, props: ps, codes: c } => K::Unsuback(p5::Unsuback { message_id: *pid as u32, reason_codes: codes(c), properties: props(ps) }),
            R::Pingreq => K::Pingreq(p5::Pingreq {}),
            R::Pingresp => K::Pingresp(p5::Pingresp {}),
            R::Disconnect { code, props: ps } => K::Disconnect(p5::Disconnect { reason_code: *code as u32, properties: props(ps) }),
            R::Auth { code, props: ps } => K::Auth(p5::Auth { reason_code: *code as u32, properties: props(ps) }),
        };
        Payload::MqttV5Packet(p5::MqttPacket { packet: Some(k) })
    } else {
        use p3::mqtt_packet::Packet as K;
        let k = match r {
            R::Connect { clean, keep_alive, client_id, will, user, pass, .. } => K::Connect(p3::Connect {
                client_id: client_id.clone(),
                protocol_name: "MQTT".into(),
                protocol_version: 4,
                clean_session: *clean,
                keep_alive: *keep_alive as u32,
                username: user.clone(),
                password: pass.clone(),
                will: will.as_ref().map(|w| p3::Will { topic: w.topic.clone(), payload: w.payload.clone(), qos: w.qos as i32, retain: w.retain }),
            }),
            R::Connack { sp, code, .. } => K::Connack(p3::Connack { session_present: *sp, return_code: *code as u32 }),
            R::Publish { dup, qos, retain, topic, pid, payload, .. } => {
                K::Publish(p3::Publish { topic: topic.clone(), message_id: if *qos > 0 { *pid as u32 } else { 0 }, qos: *qos as i32, retain: *retain, dup: *dup, payload: payload.clone() })
            }
            R::Ack { kind, pid, .. } => {
                let message_id = *pid as u32;
                match kind {
                    4 => K::Puback(p3::Puback { message_id }),
                    5 => K::Pubrec(p3::Pubrec { message_id }),
                    6 => K::Pubrel(p3::Pubrel { message_id }),
                    _ => K::Pubcomp(p3::Pubcomp { message_id }),
                }
            }
            R::Subscribe { pid, subs, .. } => {
                K::Subscribe(p3::Subscribe { message_id: *pid as u32, subscriptions: subs.iter().map(|s| p3::TopicSubscription { topic_filter: s.filter.clone(), qos: s.qos as u32 }).collect() })
            }
            R::Suback { pid, codes: c, .. } => K::Suback(p3::Suback { message_id: *pid as u32, return_codes: codes(c) }),
            R::Unsubscribe { pid, filters, .. } => K::Unsubscribe(p3::Unsubscribe { message_id: *pid as u32, topic_filters: filters.clone() }),
            R::Unsuback { pid, .. } => K::Unsuback(p3::Unsuback { message_id: *pid as u32 }),
            R::Pingreq => K::Pingreq(p3::Pingreq {}),
            R::Pingresp => K::Pingresp(p3::Pingresp {}),
            R::Disconnect { .. } => K::Disconnect(p3::Disconnect {}),
            R::Auth { .. } => unreachable!(),
        };
        Payload::MqttV3Packet(p3::MqttPacket { packet: Some(k) })
    }
}
/// the properties of a will have no order of their own
fn sort_will(m: &mut MqttStreamMessage) {
    if let Some(Payload::MqttV5Packet(p5::MqttPacket { packet: Some(p5::mqtt_packet::Packet::Connect(c)) })) = &mut m.payload {
        if let Some(w) = &mut c.will {
            w.properties.sort_by_key(|p| match &p.property_type {
                Some(p5::property::PropertyType::UserProperty(_)) => String::from("z"),
                x => format!("{x:?}"),
            });
        }
    }
}
pub fn canon(r: &R) -> R {
    let mut r = r.clone();
    if let R::Connect { will, .. } = &mut r {
        rc::canon_will(will);
    }
    r
}

fn check(c: &Case, o: &mut Obs) -> Res {
    let name = c.p.kind_name();
    o.label(name);
    o.nt_if(!matches!(c.p, R::Pingreq | R::Pingresp) && (c.v5 || !matches!(c.p, R::Disconnect { .. })));
    let m = conv::to_flow(&c.p, c.v5);
    let dir = if c.to_client { MessageDirection::BrokerToClient } else { MessageDirection::ClientToBroker };
    let Some(mut msg) = convert_mqtt_to_stream_message(&m, c.seq, dir) else { return fail(format!("to-none:{name}"), format!("no message for {m:?}")) };
    let wire = msg.encode_to_vec();
    let mut want = MqttStreamMessage { sequence_id: c.seq, direction: dir as i32, payload: Some(to_pb(&c.p, c.v5)) };
    sort_will(&mut msg);
    sort_will(&mut want);
    ensure!(msg == want, format!("to-differs:{name}"), "{msg:?}, not {want:?}");
    // back, as it comes from this library and as any other program may have written it
    for (what, bytes) in [("own", wire), ("other", want.encode_to_vec())] {
        let msg = match MqttStreamMessage::decode(&bytes[..]) {
            Ok(m) => m,
            Err(e) => return fail(format!("decode:{name}"), e.to_string()),
        };
        let Some(back) = convert_stream_message_to_mqtt_packet(msg) else { return fail(format!("from-none:{name}"), format!("no packet for {want:?}")) };
        let out = match back.to_bytes() {
            Ok(b) => b,
            Err(e) => return fail(format!("from-unfit:{name}"), format!("{what}: {back:?} cannot be written: {e}")),
        };
        match rc::decode(&out, c.v5) {
            Ok(r) => ensure!(canon(&r) == canon(&c.p), format!("from-differs:{name}"), "{what}: {r:?}, not {:?}", c.p),
            Err(e) => return fail(format!("from-malformed:{name}"), format!("{what}: {e}: {back:?}")),
        }
        // what is not said in the bytes of a packet: how it is held
        if let (flowsdk::mqtt_serde::control_packet::MqttPacket::Publish5(p), R::Publish { qos: 0, .. }) = (&back, &c.p) {
            ensure!(p.packet_id.is_none(), "qos0-id", "{what}: a QoS 0 message with packet identifier {:?}", p.packet_id);
        }
    }
    Ok(())
}

pub fn g01() -> Property {
    Property {
        id: "G01",
        rule: "a packet with fields",
        assumptions: &["generated strings contain no NUL and no leading BOM"],
        subs: vec![
            Box::new(Sub { name: "v5", quick: 60_000, thorough: 1_500_000, threads: 0, gen: gen5, check }),
            Box::new(Sub { name: "v3", quick: 30_000, thorough: 500_000, threads: 0, gen: gen3, check }),
        ],
    }
}

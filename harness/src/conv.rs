//! Reference packet -> flowsdk packet value.
use crate::refcodec::*;
use flowsdk::mqtt_serde::control_packet::MqttPacket as M;
use flowsdk::mqtt_serde::mqttv3 as v3;
use flowsdk::mqtt_serde::mqttv5 as v5;
use v5::common::properties::Property as FP;

pub fn prop(p: &Prop) -> FP {
    macro_rules! get {
        ($k:ident) => {
            match &p.v {
                V::$k(x) => x.clone(),
                _ => panic!("bad prop {p:?}"),
            }
        };
    }
    match p.id {
        0x01 => FP::PayloadFormatIndicator(get!(B)),
        0x02 => FP::MessageExpiryInterval(get!(W)),
        0x03 => FP::ContentType(get!(S)),
        0x08 => FP::ResponseTopic(get!(S)),
        0x09 => FP::CorrelationData(get!(D)),
        0x0b => FP::SubscriptionIdentifier(get!(L)),
        0x11 => FP::SessionExpiryInterval(get!(W)),
        0x12 => FP::AssignedClientIdentifier(get!(S)),
        0x13 => FP::ServerKeepAlive(get!(H)),
        0x15 => FP::AuthenticationMethod(get!(S)),
        0x16 => FP::AuthenticationData(get!(D)),
        0x17 => FP::RequestProblemInformation(get!(B)),
        0x18 => FP::WillDelayInterval(get!(W)),
        0x19 => FP::RequestResponseInformation(get!(B)),
        0x1a => FP::ResponseInformation(get!(S)),
        0x1c => FP::ServerReference(get!(S)),
        0x1f => FP::ReasonString(get!(S)),
        0x21 => FP::ReceiveMaximum(get!(H)),
        0x22 => FP::TopicAliasMaximum(get!(H)),
        0x23 => FP::TopicAlias(get!(H)),
        0x24 => FP::MaximumQoS(get!(B)),
        0x25 => FP::RetainAvailable(get!(B)),
        0x26 => match &p.v {
            V::P(a, b) => FP::UserProperty(a.clone(), b.clone()),
            _ => panic!(),
        },
        0x27 => FP::MaximumPacketSize(get!(W)),
        0x28 => FP::WildcardSubscriptionAvailable(get!(B)),
        0x29 => FP::SubscriptionIdentifierAvailable(get!(B)),
        0x2a => FP::SharedSubscriptionAvailable(get!(B)),
        x => panic!("prop {x}"),
    }
}
pub fn props(ps: &[Prop]) -> Vec<FP> {
    ps.iter().map(prop).collect()
}

pub fn rprop(p: &FP) -> Prop {
    let (id, v) = match p {
        FP::PayloadFormatIndicator(x) => (0x01, V::B(*x)),
        FP::MessageExpiryInterval(x) => (0x02, V::W(*x)),
        FP::ContentType(x) => (0x03, V::S(x.clone())),
        FP::ResponseTopic(x) => (0x08, V::S(x.clone())),
        FP::CorrelationData(x) => (0x09, V::D(x.clone())),
        FP::SubscriptionIdentifier(x) => (0x0b, V::L(*x)),
        FP::SessionExpiryInterval(x) => (0x11, V::W(*x)),
        FP::AssignedClientIdentifier(x) => (0x12, V::S(x.clone())),
        FP::ServerKeepAlive(x) => (0x13, V::H(*x)),
        FP::AuthenticationMethod(x) => (0x15, V::S(x.clone())),
        FP::AuthenticationData(x) => (0x16, V::D(x.clone())),
        FP::RequestProblemInformation(x) => (0x17, V::B(*x)),
        FP::WillDelayInterval(x) => (0x18, V::W(*x)),
        FP::RequestResponseInformation(x) => (0x19, V::B(*x)),
        FP::ResponseInformation(x) => (0x1a, V::S(x.clone())),
        FP::ServerReference(x) => (0x1c, V::S(x.clone())),
        FP::ReasonString(x) => (0x1f, V::S(x.clone())),
        FP::ReceiveMaximum(x) => (0x21, V::H(*x)),
        FP::TopicAliasMaximum(x) => (0x22, V::H(*x)),
        FP::TopicAlias(x) => (0x23, V::H(*x)),
        FP::MaximumQoS(x) => (0x24, V::B(*x)),
        FP::RetainAvailable(x) => (0x25, V::B(*x)),
        FP::UserProperty(a, b) => (0x26, V::P(a.clone(), b.clone())),
        FP::MaximumPacketSize(x) => (0x27, V::W(*x)),
        FP::WildcardSubscriptionAvailable(x) => (0x28, V::B(*x)),
        FP::SubscriptionIdentifierAvailable(x) => (0x29, V::B(*x)),
        FP::SharedSubscriptionAvailable(x) => (0x2a, V::B(*x)),
    };
    Prop { id, v }
}

pub fn will5(w: &RWill) -> v5::willv5::Will {
    let mut p = v5::willv5::WillProperties::new();
    for x in &w.props {
        match prop(x) {
            FP::WillDelayInterval(v) => p.will_delay_interval = Some(v),
            FP::PayloadFormatIndicator(v) => p.payload_format_indicator = Some(v),
            FP::MessageExpiryInterval(v) => p.message_expiry_interval = Some(v),
            FP::ContentType(v) => p.content_type = Some(v),
            FP::ResponseTopic(v) => p.response_topic = Some(v),
            FP::CorrelationData(v) => p.correlation_data = Some(v),
            u @ FP::UserProperty(..) => p.user_properties.push(u),
            other => panic!("{other:?}"),
        }
    }
    v5::willv5::Will {
        will_qos: w.qos,
        will_retain: w.retain,
        will_topic: w.topic.clone(),
        will_message: w.payload.clone(),
        properties: p,
    }
}

pub fn to_flow(r: &R, five: bool) -> M {
    if five {
        match r {
            R::Connect {
                clean,
                keep_alive,
                client_id,
                will,
                user,
                pass,
                props: ps,
            } => M::Connect5(v5::connectv5::MqttConnect {
                protocol_name: "MQTT".into(),
                protocol_version: 5,
                keep_alive: *keep_alive,
                client_id: client_id.clone(),
                will: will.as_ref().map(will5),
                username: user.clone(),
                password: pass.clone(),
                properties: props(ps),
                clean_start: *clean,
            }),
            R::Connack {
                sp,
                code,
                props: ps,
            } => M::ConnAck5(v5::connackv5::MqttConnAck {
                session_present: *sp,
                reason_code: *code,
                // "no properties" is decoded as None
                properties: (!ps.is_empty()).then(|| props(ps)),
            }),
            R::Publish {
                dup,
                qos,
                retain,
                topic,
                pid,
                props: ps,
                payload,
            } => M::Publish5(v5::publishv5::MqttPublish {
                topic_name: topic.clone(),
                qos: *qos,
                dup: *dup,
                retain: *retain,
                packet_id: (*qos > 0).then_some(*pid),
                payload: payload.clone(),
                properties: props(ps),
            }),
            R::Ack {
                kind,
                pid,
                code,
                props: ps,
            } => {
                let p = props(ps);
                match kind {
                    4 => M::PubAck5(v5::pubackv5::MqttPubAck::new(*pid, *code, p)),
                    5 => M::PubRec5(v5::pubrecv5::MqttPubRec::new(*pid, *code, p)),
                    6 => M::PubRel5(v5::pubrelv5::MqttPubRel::new(*pid, *code, p)),
                    _ => M::PubComp5(v5::pubcompv5::MqttPubComp::new(*pid, *code, p)),
                }
            }
            R::Subscribe {
                pid,
                props: ps,
                subs,
            } => M::Subscribe5(v5::subscribev5::MqttSubscribe {
                packet_id: *pid,
                subscriptions: subs
                    .iter()
                    .map(|s| v5::subscribev5::TopicSubscription {
                        topic_filter: s.filter.clone(),
                        qos: s.qos,
                        no_local: s.nl,
                        retain_as_published: s.rap,
                        retain_handling: s.rh,
                    })
                    .collect(),
                properties: props(ps),
            }),
            R::Suback {
                pid,
                props: ps,
                codes,
            } => M::SubAck5(v5::subackv5::MqttSubAck::new(*pid, codes.clone(), props(ps))),
            R::Unsubscribe {
                pid,
                props: ps,
                filters,
            } => M::Unsubscribe5(v5::unsubscribev5::MqttUnsubscribe::new(
                *pid,
                filters.clone(),
                props(ps),
            )),
            R::Unsuback {
                pid,
                props: ps,
                codes,
            } => M::UnsubAck5(v5::unsubackv5::MqttUnsubAck::new(
                *pid,
                codes.clone(),
                props(ps),
            )),
            R::Pingreq => M::PingReq5(v5::pingreqv5::MqttPingReq::new()),
            R::Pingresp => M::PingResp5(v5::pingrespv5::MqttPingResp::new()),
            R::Disconnect { code, props: ps } => {
                M::Disconnect5(v5::disconnectv5::MqttDisconnect::new(*code, props(ps)))
            }
            R::Auth { code, props: ps } => M::Auth(v5::authv5::MqttAuth::new(*code, props(ps))),
        }
    } else {
        match r {
            R::Connect {
                clean,
                keep_alive,
                client_id,
                will,
                user,
                pass,
                ..
            } => {
                let mut c =
                    v3::connectv3::MqttConnect::new(client_id.clone(), *keep_alive, *clean);
                c.will = will.as_ref().map(|w| v3::connectv3::Will {
                    retain: w.retain,
                    qos: w.qos,
                    topic: w.topic.clone(),
                    message: w.payload.clone(),
                });
                c.username = user.clone();
                c.password = pass.clone();
                M::Connect3(c)
            }
            R::Connack { sp, code, .. } => {
                M::ConnAck3(v3::connackv3::MqttConnAck::new(*sp, *code))
            }
            R::Publish {
                dup,
                qos,
                retain,
                topic,
                pid,
                payload,
                ..
            } => M::Publish3(v3::publishv3::MqttPublish {
                dup: *dup,
                qos: *qos,
                retain: *retain,
                topic_name: topic.clone(),
                message_id: (*qos > 0).then_some(*pid),
                payload: payload.clone(),
            }),
            R::Ack { kind, pid, .. } => match kind {
                4 => M::PubAck3(v3::pubackv3::MqttPubAck::new(*pid)),
                5 => M::PubRec3(v3::pubrecv3::MqttPubRec::new(*pid)),
                6 => M::PubRel3(v3::pubrelv3::MqttPubRel::new(*pid)),
                _ => M::PubComp3(v3::pubcompv3::MqttPubComp::new(*pid)),
            },
            R::Subscribe { pid, subs, .. } => {
                M::Subscribe3(v3::subscribev3::MqttSubscribe::new(
                    *pid,
                    subs.iter()
                        .map(|s| v3::subscribev3::SubscriptionTopic {
                            topic_filter: s.filter.clone(),
                            qos: s.qos,
                        })
                        .collect(),
                ))
            }
            R::Suback { pid, codes, .. } => {
                M::SubAck3(v3::subackv3::MqttSubAck::new(*pid, codes.clone()))
            }
            R::Unsubscribe { pid, filters, .. } => {
                M::Unsubscribe3(v3::unsubscribev3::MqttUnsubscribe::new(*pid, filters.clone()))
            }
            R::Unsuback { pid, .. } => M::UnsubAck3(v3::unsubackv3::MqttUnsubAck::new(*pid)),
            R::Pingreq => M::PingReq3(v3::pingreqv3::MqttPingReq::new()),
            R::Pingresp => M::PingResp3(v3::pingrespv3::MqttPingResp::new()),
            R::Disconnect { .. } => M::Disconnect3(v3::disconnectv3::MqttDisconnect::new()),
            R::Auth { .. } => panic!("no AUTH in v3"),
        }
    }
}

pub fn ver(five: bool) -> u8 {
    if five {
        5
    } else {
        4
    }
}

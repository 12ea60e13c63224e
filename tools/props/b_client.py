P("B01","Calls of the blocking client return exactly the broker's answer to them",
"""Every call of the blocking client sends exactly the packet that was asked for and returns the broker's answer to that very
request, whatever else arrives before it; an answer that never comes, a refusal, malformed data or the loss of the
connection is an error within the time-out, and the client can connect again afterwards. What other packets arrive is
put aside in order and once, answers to calls that did not wait are found under their packet identifiers, and no
identifier is used for two operations at a time.""",
["inputs","histories","fault_sequences"],"sequences of awaited and fire-and-forget calls in both protocol versions against a broker that answers in any order, late, wrongly, in pieces, or not at all",
"The tests need a live broker or check option values; which packets come before, between and instead of an answer is unbounded.",
["src/mqtt_client/client.rs","src/mqtt_client/opts.rs","src/mqtt_serde/mqttv5/","src/mqtt_session/client_session.rs"],
[("requests and answers","MqttClient::connected / published / subscribed / unsubscribed / pingd / disconnected"),("waiting","MqttClient::recv_for_packet / recv_packet"),("fire and forget","MqttClient::*_send, complete_*, get_pending_*")],
state=[("pending operations","calls made without waiting, by packet identifier","MqttClient context"),("unhandled packets","packets that arrived while another was awaited","MqttClient context")],
observe=["results of the calls","packets at the broker","unhandled and pending collections"],
tech="Stateful model-based testing: generated call histories on real loopback sockets with a scripted broker; a reference model computes each result, each packet and what is put aside or pending.",
note="Sampling, 25k histories per quick run. Messages of QoS 1 and 2 that arrive are handed over, the blocking client has no way to acknowledge them.")
P("B02","The threaded client delivers, acknowledges and resubscribes across connections",
"""The threaded client sends every command, once and with a fresh packet identifier, in the order they were given, reports every
answer and every incoming message exactly once, completes the QoS 1 and 2 handshakes in both directions, and restores exactly
the subscriptions in force when it connects again. While there is no connection it keeps the configured number of messages, the
newest ones, and sends them in order once it is connected; it never sends to a broker that refused it or after DISCONNECT, and
shutting it down always ends it in order.""",
["histories","schedules","fault_sequences"],"sequences of commands, broker packets, losses, refusals and reconnections at arbitrary moments, in both protocol versions",
"The tests never connect it to a broker; losses and commands interleave without bound.",
["src/mqtt_client/async_client.rs","src/mqtt_client/client.rs"],
[("worker loop","the thread that owns the connection in the thread client"),("buffering","messages given while disconnected"),("resubscription","subscriptions restored after CONNACK")],
state=[("subscriptions","topics acknowledged or asked for","thread client worker"),("buffer","messages waiting for a connection","thread client worker")],
observe=["packets at the broker","events on the client's channel"],
tech="Stateful model-based testing with a scripted broker over loopback TCP and fault injection; a model of subscriptions, buffer and handshakes judges every packet and event.",
note="Sampling, 2,500 histories per quick run. It does not resend unacknowledged messages after a reconnection, which it does not promise.")

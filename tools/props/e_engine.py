ENG=["src/mqtt_client/engine.rs"]
INF=ENG+["src/mqtt_client/inflight.rs"]
SIMT="Stateful generated histories (application calls, broker packets, fragmentation, loss, reconnect, virtual time) run against the real engine; every packet and event is judged by a model of the exchange state. Shrunk to a minimal history."
SIMN="Sampling of histories of up to a few hundred steps; the simulated broker is conforming; time is virtual."
P("E01","Each QoS 1/2 publish runs its exchange to exactly one completion",
"""Every QoS 1 or 2 message the protocol engine accepts is sent, and with a conforming broker ends in exactly one
completion event carrying its packet identifier, QoS and the broker's reason code; QoS 2 goes PUBLISH, PUBREC, PUBREL,
PUBCOMP, a PUBREC with an error code ends it without PUBREL, and nothing of a finished exchange is sent again. This holds
across connection loss, full buffers, repeated PUBRECs and acknowledgements for unknown identifiers, which cause no event.""",
["histories","inputs"],"histories of publishes, acknowledgements, losses, resumptions and ticks with small and large windows and buffers",
"Tests walk one exchange at a time; interleaved exchanges with losses, refusals and repeated packets are unbounded.",
INF,[("acknowledgement handling","MqttEngine::handle_packet PUBACK/PUBREC/PUBCOMP"),("inflight table","InflightQueue")],
state=[("unfinished exchanges","packet identifiers awaiting PUBACK/PUBREC/PUBCOMP","InflightQueue.entries")],observe=["take_outgoing","handle_incoming events"],tech=SIMT,note=SIMN)
P("E02","The broker's receive maximum is never exceeded and never leaks",
"""On a connection the engine never has more QoS 1/2 messages first sent on it unfinished than the receive maximum in
force (the broker's, or the configured one when the broker gives none; a QoS 2 message counts until PUBCOMP). A finished
or refused exchange frees its place, so with a cooperative broker everything that waits for the window is eventually sent.""",
["histories"],"histories with windows from 1 to 65535, changed at every connection, QoS 0/1/2 mixes, refusals and losses",
"Tests fill a window once; leaks and overruns need particular orders of refusal, loss, PUBREC and reconnect.",
INF,[("flow control","InflightQueue::can_push_publish / update_receive_maximum"),("queue release","MqttEngine::process_queue")],
state=[("window","places taken","InflightQueue.publish_count")],observe=["take_outgoing","publish_encoded result"],tech=SIMT,note=SIMN)
P("E03","Packet identifiers are never zero and never shared by open exchanges",
"""Every packet identifier the engine hands out is non-zero and different from those of all unfinished publish, subscribe
and unsubscribe exchanges and of all messages still queued, also when the counter wraps around. As long as one identifier
is free allocation succeeds; when none is free it is refused with an error.""",
["histories","inputs"],"long-lived exchanges while the counter wraps, and exhaustion of all 65,535 identifiers",
"No test allocates 65,535 identifiers with old exchanges still open.",
INF,[("allocation","MqttEngine::next_packet_id"),("session counter","ClientSession::next_packet_id")],
state=[("identifier counter","last identifier handed out","ClientSession.next_packet_id")],observe=["publish/subscribe results","packets sent"],tech=SIMT+" A second generator exhausts the identifier space.",note=SIMN)
P("E04","A resumed session resends exactly its unfinished messages, in order",
"""After a reconnect for which the broker reports a present session, the engine sends again, before any new publish, every
unfinished PUBLISH (with DUP, same content) and every pending PUBREL, each once and in their original order. Without a
present session nothing of the old session is sent again on connecting, and with MQTT 5.0 its exchanges are dropped so
that they hold neither identifiers nor window places.""",
["histories","crash points"],"losses at every point of the exchange, with and without bytes lost in transit, several times over",
"Tests resume one session in one state; the order and the set to resend depend on the whole history.",
INF,[("resumption","MqttEngine::handle_packet CONNACK"),("pending packets","InflightQueue::get_all_for_reconnect / discard_sent_before")],
state=[("unfinished exchanges","as above","InflightQueue.entries")],observe=["take_outgoing after CONNACK"],tech=SIMT,note=SIMN+" On a resume more packets than a newly lowered receive maximum may be resent; that is not judged. MQTT 3.1.1 keeps unfinished messages without a session and retries them by timer.")
P("E05","MQTT 3.1.1 retransmits by timeout on the right channel; MQTT 5.0 never does",
"""With MQTT 3.1.1 an unacknowledged PUBLISH, PUBREL, SUBSCRIBE or UNSUBSCRIBE is sent again exactly when the retransmission
timeout has passed since it was last sent (a PUBLISH with DUP), on the logical channel it was sent on, or the control
channel after a reconnect; acknowledged packets are not. With MQTT 5.0 nothing is ever sent again on a live connection.""",
["histories","schedules"],"arbitrary tick times and acknowledgement orders, several logical channels, reconnects",
"Tests tick once past one timeout; timer bookkeeping errors need many entries, acknowledgements and re-sends interleaved.",
INF,[("timers","InflightQueue::get_expired_with_stream / next_expiration"),("routing","MqttEngine::handle_retransmissions")],
state=[("deadlines","packets and when they were last sent","InflightQueue.deadline_queue")],observe=["take_outgoing","take_stream_retransmissions","next_tick_at"],tech=SIMT,note=SIMN+" Exact times are judged on one connection; after a reconnect only channel and content.")
P("E06","Keep-alive pings are sent in time and only real timeouts are reported",
"""While connected with automatic keep-alive, a PINGREQ is sent exactly when nothing has been sent for the keep-alive
interval and none is outstanding, so the client is never silent longer than the interval; the interval is the configured
one, or the server's when its CONNACK gives one, and 0 disables pings. The connection is given up and a reconnect
scheduled exactly when a PINGREQ of this connection stays unanswered for the configured multiple of the interval, and
the announced next wake-up time is exactly the next such deadline.""",
["histories","schedules"],"sequences of ticks, traffic, pings, answers, disconnects and reconnects at arbitrary times",
"Tests check single deadlines; mistakes show with particular mixes of traffic, late ticks and reconnects.",
ENG,[("timer processing","MqttEngine::handle_tick / next_tick_at")],state=[("ping state","when the outstanding PINGREQ was sent","MqttEngine.ping_sent_at")],
observe=["take_outgoing","handle_tick events","next_tick_at"],tech="Generated timed histories under a virtual clock against a model of the keep-alive state; plus runs paced exactly by the announced wake-up times.",note="Sampling; time is virtual.")
P("E07","Reconnects back off exponentially within limits and stop at the maximum",
"""The n-th consecutive reconnect is scheduled after base delay times 2^(n-1) (exponent capped at 10), never more than the
maximum delay, and asked for exactly once, at the first tick at or after that time. A successful connection resets the
sequence, a failed one does not, and when the maximum number of attempts is reached none is scheduled any more.""",
["histories"],"arbitrary base, maximum and attempt settings including extremes, with schedules, ticks, failures and successes in any order",
"Tests check a few steps with default settings.",
ENG,[("scheduling","MqttEngine::schedule_reconnect / reset_reconnect_state")],state=[("attempt counter","consecutive attempts","MqttEngine.reconnect_attempts")],
observe=["ReconnectScheduled / ReconnectNeeded events","next_tick_at"],tech="Generated histories under a virtual clock against an arithmetic model.",note="Sampling; time is virtual.")
P("E08","Inbound messages are delivered and acknowledged exactly as their QoS demands",
"""Every inbound QoS 0 or 1 message and every new QoS 2 message is delivered to the application exactly once, unchanged and
in arrival order, preceded by its metadata. With automatic acknowledgement exactly the owed PUBACK, PUBREC or PUBCOMP is
sent, in order and on the channel of the packet it answers, also when the outgoing buffer is full, and a repeated
unreleased QoS 2 message is acknowledged but not delivered again; with manual acknowledgement nothing is sent.""",
["histories","inputs"],"inbound message mixes on several channels with repeats, releases, losses and resumptions",
"Tests deliver one message of each QoS.",
ENG,[("inbound handling","MqttEngine::handle_packet PUBLISH/PUBREL"),("stream ingestion","MqttEngine::ingest_stream_packet")],
observe=["events","take_outgoing","stream responses"],tech=SIMT,note=SIMN)
P("E09","Back-pressure on events loses, repeats and reorders nothing",
"""When the application's event limit stops processing, resuming yields exactly the events and outgoing packets, in the same
order, that an unlimited engine yields for the same bytes. No call returns more events than the limit plus the one
metadata/message pair in progress.""",
["inputs","schedules"],"inbound streams in arbitrary chunks with limits from 1 up and resumptions at arbitrary points",
"Tests reach the limit once with whole packets.",
ENG,[("pausing","MqttEngine::handle_incoming")],state=[("unprocessed input","bytes kept for later","MqttEngine.parser")],observe=["handle_incoming events","take_outgoing"],
tech="Differential: the same bytes through a limited and an unlimited engine.",note="Sampling.")
P("E10","CONNECT carries exactly the configured options",
"""The CONNECT the engine sends for any set of client options carries exactly the configured protocol version, client
identifier, clean start flag, keep alive, user name, password and will and, for MQTT 5.0, the configured properties, and
nothing else.""",
["inputs"],"all combinations of options with boundary strings and binary data, all protocol versions",
"Tests use one or two option sets and do not decode the CONNECT.",
ENG+["src/mqtt_client/opts.rs"],[("CONNECT","MqttEngine::connect"),("options","MqttClientOptions builder")],observe=["first bytes of take_outgoing"],
tech="Generated options; the packet is decoded by an independent codec and compared with the options.",note="Sampling.")
P("E11","Subscribe and unsubscribe requests are sent as asked and answered once",
"""Every accepted SUBSCRIBE or UNSUBSCRIBE goes out with exactly the requested filters, options and properties and a fresh
identifier, and its SUBACK or UNSUBACK produces one event with that identifier and the broker's codes. A request refused
because of a full outgoing buffer sends nothing and leaves nothing behind.""",
["histories"],"histories of requests on several channels with full buffers, losses and late answers",
"Tests send single requests with room in the buffer.",
INF,[("requests","MqttEngine::subscribe / unsubscribe / *_encoded")],observe=["take_outgoing","events"],tech=SIMT,note=SIMN)
P("E12","No input makes the engine panic, and fragmentation is invisible",
"""For any sequence of application calls, ticks and arbitrary incoming bytes the engine never panics or hangs, and all it
sends is well-formed MQTT. The same bytes split in any way give the same events and the same outgoing packets.""",
["inputs","schedules","histories"],"mutated and random broker bytes interleaved with every engine call, in every connection state",
"Tests send valid broker packets to a connected engine.",
ENG+["src/mqtt_serde/parser/stream.rs"],[("input","MqttEngine::handle_incoming / ingest_stream_packet")],observe=["panic","take_outgoing","events"],
tech="Mutation fuzzing with structured corpora (robustness) and a metamorphic fragmentation relation.",note="Sampling; overflow checks on; a hang fails the check through a watchdog.")
P("E13","Waiting messages leave by priority, then age, and overflow evicts the least",
"""Queued publishes leave highest priority first and in order of acceptance within a priority, whatever happens to the
connection meanwhile. When the queue overflows, the oldest message of the lowest priority is dropped and all others stay;
saving a queue to a file and loading it preserves contents, order and limit.""",
["histories","inputs"],"operation sequences with equal and extreme priorities, overflow, reload and disconnected phases",
"Tests use a handful of entries with distinct priorities.",
ENG+["src/priority_queue.rs"],[("queue","PriorityQueue"),("release","MqttEngine::process_queue")],state=[("queue","waiting messages","PriorityQueue")],
observe=["dequeue/peek","order of PUBLISH packets sent"],tech="Model-based histories against a sorted-list model, on the queue itself and through the engine.",note="Sampling.")
P("E14","An operation reads as successful exactly when the broker accepted it",
"""The outcome of connecting, subscribing, unsubscribing, publishing or authenticating says success exactly when every
code of the broker's answer, in either protocol version, means success, counts the accepted subscriptions exactly, and
describes an MQTT 5.0 reason code by the name the specification gives it.""",
["inputs"],"every reason code of every answer, lists of codes with any mixture of refusals, in both protocol versions and every wire form",
"Tests look at one or two codes per answer.",
["src/mqtt_client/client.rs","src/mqtt_client/engine.rs"],[("outcomes","ConnectionResult, SubscribeResult, UnsubscribeResult, PublishResult, AuthResult"),("names","reason_code_to_string")],
observe=["is_success, is_failure, successful_subscriptions, reason_description of the outcomes in events"],
tech="Random broker answers on the wire through the real engine; the oracle is the specification's tables of codes.",note="Sampling of a small space: every single code is reached many times.")
P("S01","The session store remembers exactly the unfinished packets",
"""After any sequence of sent and received packets, the client session's resend list holds exactly the PUBLISH packets (QoS
1/2) not yet acknowledged and the PUBRELs not yet completed, with their original content, each once. It answers every
inbound PUBLISH and PUBREL with the acknowledgement its QoS demands, and identifiers it hands out are non-zero and do not
repeat before all 65,535 have been used.""",
["histories"],"sequences of outgoing and incoming exchange packets in any order, including error codes and unknown identifiers",
"Tests follow single exchanges.",
["src/mqtt_session/client_session.rs","src/mqtt_session/"],[("session","ClientSession")],state=[("unacknowledged packets","publishes and PUBRELs","ClientSession")],observe=["resend_pending_messages","handle_* results"],
tech="Model-based histories against a set model.",note="Sampling. The server session type is an unfinished stub and makes no claim.")

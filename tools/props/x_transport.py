P("X01","The TLS engine is transparent and trusts nobody it should not",
"""Over TLS the broker receives exactly the bytes, and the application exactly the events, that the plain protocol engine
would produce for the same calls and broker bytes: whatever their size, however the ciphertext is fragmented, and with any
event limit. What a call or a tick produces is on the socket after one drive. A server whose certificate is not trusted or
not valid for the name never receives MQTT data, and altered or random ciphertext never yields an event.""",
["inputs","schedules"],"calls, ticks and broker packets of up to several hundred KB, arbitrary fragmentation, hostile servers and ciphertext",
"Tests only construct the engine; record sizes, buffer limits and fragmentation are unbounded.",
["src/mqtt_client/tls_engine.rs"],[("inbound","TlsMqttEngine::handle_socket_data"),("drive","TlsMqttEngine::handle_tick"),("outbound","TlsMqttEngine::take_socket_data")],
state=[("plaintext","decrypted bytes not yet given to the protocol engine","TlsMqttEngine.incoming_plaintext")],observe=["bytes decrypted by a real TLS server","handle_tick events"],
tech="Differential: generated histories through the TLS engine (with an in-memory TLS server as peer) and through a plain engine must agree; hostile servers and mutated ciphertext as a second generator.",
note="Sampling; the TLS library itself is trusted.")
P("X02","QUIC streams carry each packet once, in order, on the right stream",
"""Over QUIC the broker receives on every stream exactly the packets the application put on it, in order and complete, before
its end, whatever the network loses, delays, repeats or reorders and however flow control stalls; an accepted request is
never lost unless its stream is reset or stopped. Messages arrive at the application once and in the order of their stream,
acknowledgements and PUBRELs stay on the stream of their message, and every reset, stop and end of a stream is reported
once with its code.""",
["inputs","schedules","fault_sequences","histories"],"calls on many streams, server streams, resets and stops, tiny windows, stream limits and event limits, lossy networks",
"Tests use one stream and a perfect in-process peer; stalls, losses and stream ends at arbitrary points are unbounded.",
["src/mqtt_client/engine.rs"],[("drive","QuicMqttEngine::handle_tick"),("inbound streams","QuicMqttEngine::drain_data_stream"),("stream ends","QuicMqttEngine::handle_stream_reset_fields / handle_stream_stopped_fields")],
state=[("streams","data streams with parser and unsent bytes","QuicMqttEngine.data_streams"),("control stream","bytes not yet written","QuicMqttEngine.control_outgoing")],observe=["packets received by a real QUIC server per stream","handle_tick events"],
tech="Stateful generated histories against the real engine with a quinn-proto server in memory, over a simulated network in virtual time; per-stream reference model. Shrunk to a minimal history.",
note="Sampling; the QUIC library itself is trusted.")
P("X03","Each QUIC connection starts clean, ends as asked and trusts the right server",
"""However a connection is made (anew, by reconnecting, with 0-RTT accepted or rejected) and however the one before ended,
its control stream begins with exactly one CONNECT, nothing left over from before is sent on it, and unfinished QoS 1/2
messages are resent on it exactly once when the session is resumed; accepted early data arrives exactly once. A server with an
untrusted certificate or another name never receives MQTT data. Every way to end a connection, by either side, takes
effect with its code, is reported at most once (exactly once when the peer or the network did it), and afterwards
nothing is accepted until the next connection.""",
["histories","fault_sequences","crash_points"],"sequences of connections of all kinds to good, hostile, forgetful and dead servers, ended in every way at every stage, on lossy networks",
"Tests make one connection to a good server; leftovers show only in particular sequences of connections.",
["src/mqtt_client/engine.rs"],[("connecting","QuicMqttEngine::connect / reconnect / connect_with_zero_rtt"),("early data","QuicMqttEngine::begin_zero_rtt_attempt / replay_early_stream_journals"),("ends","QuicMqttEngine::close / disconnect_and_close / close_silent")],
state=[("connection state","streams and unsent bytes of the connection","QuicMqttEngine.reset_connection_state"),("early data","bytes to replay","QuicMqttEngine.early_stream_journal")],observe=["packets received by a real QUIC server","handle_tick events","is_connected"],
tech="Stateful generated sequences of connections of the real engine to a quinn-proto server in memory over a simulated network in virtual time; reference model of the session. Shrunk to a minimal sequence.",
note="Sampling; early data below the QUIC congestion window (quinn-proto stalls beyond it under loss).")
P("X04","Each socket transport reaches the right server and carries every byte",
"""A TCP, TLS or QUIC transport connects exactly to the servers that its settings accept (authorities, system certificates,
name and chain checks, client certificate, application protocols; names, IPv4 and IPv6 addresses), and a server it must not
accept receives nothing.
The bytes written on either side arrive complete and in order, whatever their sizes, the flushing and the reading; a closed or
half-closed transport is seen by the other side as a clean end after all data, and the other half stays usable after a half-close.
The local address is the one the server sees, and a QUIC transport survives a move to a new local address.""",
["inputs","configurations","schedules"],"every combination of transport, trust settings, ways to give them, server certificate and address kind; up to some hundred KB each way in any pieces; every kind of end",
"Tests cover construction and refusals; the network tests are ignored for want of a server, and the settings combine to thousands of cases.",
["src/mqtt_client/transport/tcp.rs","src/mqtt_client/transport/tls.rs","src/mqtt_client/transport/rustls_tls.rs","src/mqtt_client/transport/quic.rs"],
[("connecting","TcpTransport / TlsTransport / RustlsTlsTransport / QuicTransport::connect_with_config"),("settings","TlsConfig, RustlsTlsConfig, QuicConfig builders"),("end","Transport::close, poll_shutdown"),("move","QuicTransport::rebind")],
observe=["bytes and ends at real servers on the loopback network"],
tech="Generated configurations and traffic against real TCP, rustls and quinn servers; a truth table of who may connect and byte-for-byte comparison. Shrunk to a minimal configuration.",
note="Sampling over the loopback network; TLS servers that the client leaves without reading may lose the end of the data to a TCP reset, so TLS clients wait for the server's end.")
P("Q01","The tokio QUIC client carries every command and reports every outcome",
"""Every command of the tokio QUIC client returns, also while the application reads no events; an accepted publish,
subscribe or unsubscribe reaches the broker exactly once, as given, with the packet id it returned (one exactly when the
packet has one), in the order of the calls for each stream; nothing is accepted without a connection. Each outcome and each message of the broker is
reported exactly once, in order, with its content. A refused connect or rebind changes nothing; a rebind moves the connection to
the address it returns. Each connection begins with one CONNECT, its end by the broker is reported once with its code, a
DISCONNECT arrives when asked for, and dropping the client ends its task and its connection.""",
["inputs","histories","schedules"],"commands, floods of messages, unread events, moves, ends of every kind and reconnections, over IPv4 and IPv6, against a real QUIC broker on the loopback network",
"The client's tests construct values only; nothing runs its worker against a server.",
["src/mqtt_client/tokio_quic_client.rs"],[("worker","run_engine_loop"),("commands","TokioQuicMqttClient::publish / subscribe / unsubscribe / disconnect"),("move","TokioQuicMqttClient::rebind"),("events","TokioQuicMqttClient::next_event")],
state=[("socket","the socket of the connection","run_engine_loop socket"),("events","reported, not yet read","TokioQuicMqttClient.event_rx")],observe=["packets and addresses at a real quinn server","next_event","results of the commands"],
tech="Stateful generated histories of the real client against a broker behind a real quinn server on the loopback network; reference model of packets and events. Shrunk to a minimal history.",
note="Sampling in real time over the loopback network; the QUIC library is trusted. Whether a QoS 0 publish is reported is left open.")

P("F01","The foreign-language interface is a faithful copy of the protocol engine",
"""For any sequence of calls and broker bytes, an engine used through the foreign-language objects or the C functions puts the
same bytes on the wire, reports the same events with the same contents, announces the same deadlines and returns the same
packet identifiers as the native engine with the same options, and reports a refused call as such.
A list of events has the announced length, each is readable at its index, as JSON and as an object alike, and memory handed
out is returned in full by the matching free function.""",
["inputs","histories","configurations"],"options, calls, broker bytes (valid, repeated, malformed), clock steps; three interfaces; time since creation including fractions of milliseconds",
"The library's tests construct an engine and call a few functions; conversions and times must agree for every option, event and instant.",
["flowsdk_ffi/src/engine.rs"],[("objects","MqttEngineFFI"),("C functions","mqtt_engine_*"),("events","MqttEventFFI / mqtt_event_list_*"),("free","mqtt_engine_free_bytes / mqtt_engine_free_string")],
state=[("event queue","events not yet taken by the application","MqttEngineFFI.events")],observe=["bytes, events, deadlines and return values of both engines"],
tech="Differential: generated histories run in step on the foreign interface and on the native engine must agree after every call; a counting allocator checks what the C functions hand out. Shrunk to a minimal history.",
note="Sampling; the foreign language bindings generated by uniffi are not run.")
P("F02","The foreign-language TLS and QUIC engines use every option they are given",
"""Through the foreign-language objects and the C functions, a TLS or QUIC engine connects exactly to the servers that
the given authority, name, insecure flag, client certificate and application protocols allow, for every kind of server key, and
to all of these, and any other outcome (a missing file, a bad address, an untrusted or refusing server) is reported by a
return value, an event or the connection state.
Once connected, the broker receives the CONNECT with all options, and the packets and events are those of the
native engine.""",
["inputs","configurations","histories"],"all combinations of trust settings, certificate files, ALPN, server certificates and MQTT options, then calls and broker messages",
"No test of the library connects to anything; which options reach the connection can be seen only at a server.",
["flowsdk_ffi/src/engine.rs"],[("TLS","TlsMqttEngineFFI / mqtt_tls_engine_*"),("QUIC","QuicMqttEngineFFI / mqtt_quic_engine_*"),("options","MqttOptionsFFI, MqttTlsOptionsFFI")],
observe=["packets decrypted by real TLS and QUIC servers","events and return values"],
tech="Generated configurations against in-memory TLS and QUIC servers with a truth table of who may connect, and a native engine in step as the oracle for packets and events.",
note="Sampling; TLS and QUIC libraries trusted. Constructors that panic on an invalid server name or a mismatched key are excluded (the interface cannot report it).")

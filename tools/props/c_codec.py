SER="src/mqtt_serde/"
COD=[SER+"control_packet.rs", SER+"base_data.rs", SER+"mod.rs", SER+"mqttv3/", SER+"mqttv5/"]
P("C01","Encoding produces the exact wire form the MQTT specification defines",
"""Encoding any valid MQTT 3.1.1 or MQTT 5.0 packet value yields one frame that an independent specification-following
decoder accepts and reads as exactly the same packet, and the library's own decoder reads that frame back as an equal
value. Serialising a packet value to JSON and back also yields an equal value.""",
["inputs"],"every valid packet value of both protocol versions: all 15 packet types, all properties, empty and maximal strings and payloads",
"The tests encode a few hand-written packets of each type and compare with the library's own decoder, so an error made symmetrically, or only for a boundary length, rare property or optional-field combination, is invisible.",
COD,[("packet encoders","MqttControlPacket::to_bytes / encode_to_buffer in mqttv3/*.rs and mqttv5/*.rs"),("property encoder","mqttv5/common/properties.rs")],
observe=["MqttPacket::to_bytes","serde_json round trip"],
tech="Random structured generation from the packet grammar; round-trip against an independently written codec (differential oracle) and against the library's own decoder; JSON round trip.",
note="Sampling: tens of thousands of packets per run (over a million in thorough) with boundary-biased lengths. Independent reference codec is the oracle; strings with NUL or a leading BOM, which the encoder documents as refused, are left to C07.")
P("C02","Every legal wire form of a packet decodes to the packet it denotes",
"""A well-formed frame of either protocol version, in any legal short or long form (omitted or explicit reason codes and
property lengths), decodes to exactly the packet it denotes, consuming exactly its own bytes.""",
["inputs"],"every valid packet encoded by an independent encoder in every legal form",
"Tests decode frames that the library itself encoded, hence only the forms its encoder chooses and only sampled field values.",
COD,[("packet decoders","MqttControlPacket::from_bytes in mqttv3/*.rs and mqttv5/*.rs"),("version dispatch","MqttPacket::from_bytes_with_version")],
observe=["MqttPacket::from_bytes_with_version"],
tech="Random structured generation; frames written by an independent encoder (including long and short forms), decoded value compared with the generated one.",
note="Sampling. The two-byte AUTH packet is a recorded finding with its own sub-check.")
P("C03","Decoding untrusted bytes is total and never reads beyond the frame",
"""For any byte string, decoding returns a packet, a request for more data, or an error; it never panics or hangs. The
outcome depends only on the bytes of the first frame (bytes that follow it are never consumed or consulted), a complete
frame never asks for more data, and an accepted frame is consumed in full.""",
["inputs"],"arbitrary byte strings: mutated, truncated, length-lying and random frames, alone or followed by other data",
"Tests use valid packets and a few hand-made malformed ones; the claim is about all byte strings.",
COD+[SER+"parser/"],[("frame dispatch","MqttPacket::from_bytes_v3 / from_bytes_v5"),("primitive decoders","base_data.rs")],
observe=["MqttPacket::from_bytes_with_version","each packet type's from_bytes"],
tech="Mutation fuzzing over a structured corpus; invariants (no panic, prefix locality, no Continue on a complete frame) and a metamorphic relation (appending bytes does not change the outcome).",
note="Sampling, 250k mutated inputs per quick run, 7M in thorough. Overflow checks are on.")
P("C04","Packet reassembly does not depend on how the byte stream is split",
"""Whatever way a sequence of valid packets is cut into chunks (down to single bytes), the streaming parser, at every
parse level, and the blocking stream reader deliver exactly the packets sent, in order, each as soon as its last byte
has arrived and never an error; the protocol version is detected from a CONNECT as soon as its bytes suffice.""",
["inputs","schedules"],"every packet sequence and every fragmentation of it, including short reads and interrupted reads",
"Tests feed one packet whole or cut at one chosen point; fragmentation points and sequences are unbounded.",
[SER+"parser/stream.rs",SER+"parser/leveled.rs",SER+"control_packet.rs"],[("streaming parser","MqttParser::feed/next_packet/next_parsed"),("blocking reader","MqttStream::next")],
state=[("parse buffer","bytes received and not yet consumed","MqttParser.buffer")],observe=["next_packet results after each chunk"],
tech="Generated packet sequences and chunkings; oracle is the list of packets that were encoded plus the exact frame boundaries.",
note="Sampling; includes byte-by-byte delivery and readers that return WouldBlock.")
P("C05","All parse levels agree with full decoding",
"""For any complete frame, the type-only, raw-body and header-only parse levels report the same packet type, flags, frame
length, variable-header fields, properties and payload bytes that full decoding reports, and each level accepts every
frame that full decoding accepts.""",
["inputs"],"valid and mutated frames of both versions at all parse levels",
"Tests compare levels on a handful of packets per type.",
[SER+"parser/leveled.rs"],[("level parsers","parse_type_only / parse_raw_body / parse_headers_only"),("property skipping","VariableHeader in leveled.rs")],
observe=["next_parsed at each ParseLevel"],
tech="Differential testing of the four parse levels on generated and mutated frames.",
note="Sampling; only frames the full decoder accepts must be accepted by the others.")
P("C06","Strict mode rejects each documented protocol violation",
"""With strict protocol compliance on, a frame carrying a documented violation (reserved header flag or option bits set,
QoS 3, DUP on QoS 0, zero packet identifier in SUBSCRIBE, UNSUBSCRIBE or their acknowledgements, empty subscription lists,
malformed wildcards or shared filters, wildcards in a publish topic, non-minimal or overlong lengths, invalid or
NUL-bearing UTF-8, unknown properties, trailing or missing bytes, contradictory CONNECT flags) is rejected, never decoded as a packet.""",
["inputs"],"each violation planted at every applicable place in generated packets of every applicable type and version",
"Each violation is tested with one packet; the check must hold whatever the rest of the packet contains.",
COD,[("strict validation","cfg(feature = strict-protocol-compliance) blocks"),("filter validation","validate_topic_filter / validate_shared_subscription")],
observe=["MqttPacket::from_bytes_with_version"],
tech="Fault injection at the wire level: one violation planted in a generated valid packet; oracle is rejection.",
note="Sampling over the violation table in DESIGN.md; only violations the documentation or code comments claim to reject.")
P("C07","Encoding refuses what the wire cannot carry instead of corrupting it",
"""Encoding a packet value whose fields do not fit the protocol (strings or binary data over 65535 bytes, strings with the
null character, QoS or option values wider than their bit field, identifiers or lengths beyond a variable-length integer)
either fails with an error or yields one well-framed packet that carries every field unchanged; no field is ever truncated
or spilled into another.""",
["inputs"],"packet values with any field out of range, for all packet types of both versions",
"Tests check two or three specific refusals; silent truncation needs oversize values in fields they never combine.",
COD,[("length-prefixed encoders","encode_utf8_string / encode_binary_data"),("flag encoders","flags() / connect flags / subscription options")],
observe=["MqttPacket::to_bytes"],
tech="Generation of out-of-range packet values; oracle: refusal, or strict independent decoding to the same value.",
note="Sampling, plus payloads at the 268435455-byte limit. Values that merely break a protocol rule (identifier 0, DUP on QoS 0, wildcard topic) may be encoded; only framing and field integrity are judged for them.")

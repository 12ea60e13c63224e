M="mqtt_grpc_duality/"
P("G01","MQTT packets survive the translation to gRPC messages and back",
"""Every valid MQTT 3.1.1 or 5.0 packet becomes a gRPC message whose fields say exactly what the packet says, with the given
sequence number and direction. That message, also after its own binary encoding, becomes a packet that
denotes exactly the same again and can be written as a valid frame.""",
["inputs"],"every valid packet of both versions and all 15 types, with all properties, and the message's protobuf encoding",
"The tests convert a few samples per packet type; an optional field that is dropped, or told apart from an empty one wrongly, shows only for particular combinations.",
[M+"src/lib.rs",M+"proto/"],[("MQTT to gRPC","convert_mqtt_to_stream_message and the From impls"),("gRPC to MQTT","convert_stream_message_to_mqtt_packet and the From impls")],
observe=["the protobuf message, field by field","the packet that comes back"],
tech="Random structured generation; the expected message is built field by field from the generated packet (differential oracle), and the round trip is read by an independent codec.",
note="Sampling, 90k packets per quick run. The order of user properties is kept; strings with NUL are not generated.")
P("G02","The proxies relay every packet, in order, to its own peer, until one side ends",
"""Through the two proxies, each client gets a broker connection of its own, whatever its identifier, and every packet of either side arrives
at the other unchanged, once and in order, however the bytes are split and however long it is. When one side ends, breaks off or sends
malformed data, what it sent before ending still arrives (unless the connection was reset), the other side's connection ends too, no other client is affected, and a
client whose broker cannot be reached is told so by the end of its connection.""",
["inputs","schedules","fault_sequences"],"several clients of both versions at once, arbitrary packets and fragmentation in both directions, and ends, resets and malformed data of either side",
"No test runs the proxies; order, fragmentation, number of clients and the moment of an end are unbounded.",
[M+"src/bin/r-proxy.rs",M+"src/bin/s-proxy.rs",M+"src/lib.rs"],[("client side","handle_new_incoming_tcp / start_streaming_loop in r-proxy.rs"),("broker side","stream_mqtt_messages / mqtt_client_loop_simple in s-proxy.rs")],
observe=["bytes and ends at the clients and at the broker"],
tech="Generated multi-client scripts against the real proxy programs as processes on loopback, between scripted clients and a scripted broker; the oracle is the list of packets each side sent and who ended how.",
note="Sampling, 800 scripts per quick run with a patience of 12 s for what must arrive. The empty AUTH packet is left to C02; peers that stop reading are not generated.")

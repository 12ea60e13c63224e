P("P01","Calls of the Python asyncio client end with the broker's answer, in time",
"""Every call of the Python client sends exactly the request that was asked for, at once, and returns when, and only when, the
broker's answer to it has arrived; without a connection, with arguments that cannot be sent, or when the connection ends under
it, it raises within moments instead of waiting. connect() ends by its time-out with the broker's verdict, never leaves a failed
connection open, and works again after any end. Messages reach on_message once and in order whatever it raises; keep-alive,
acknowledgements and retransmissions keep their times; disconnect() sends DISCONNECT and closes.""",
["inputs","histories","schedules","fault_sequences"],"call histories over TCP, TLS and QUIC in both protocol versions against a broker that answers late, wrongly, in pieces or not at all, refuses, ends or resets the connection at any time",
"No test runs the Python package at all; moments of answers, losses and time-outs interleave without bound.",
["python/package/flowsdk/async_client.py","flowsdk_ffi/src/engine.rs","src/mqtt_client/engine.rs"],
[("protocols","FlowMqttProtocol / FlowMqttDatagramProtocol: pump, data_received, connection_lost"),("calls","FlowMqttClient.connect / publish / subscribe / unsubscribe / disconnect"),("FFI","MqttEngineFFI, TlsMqttEngineFFI")],
state=[("pending calls","futures by packet identifier","FlowMqttClient"),("timer","the next tick of the engine","the protocol classes")],
observe=["results of the calls and when they end","packets at the broker and when they arrive","messages handed to on_message"],
tech="Stateful model-based testing of the Python package on the real engine in virtual time: generated scripts for application, broker and network; an oracle over the whole history judges every call, packet, message and moment; failures are shrunk.",
note="Sampling, 24k histories per quick run. The QUIC engine is replaced by a stand-in that puts MQTT in plain datagrams; the automatic reconnection of the README does not exist in Python.")

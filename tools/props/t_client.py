P("T01","Awaited client calls return exactly their own outcome, in time",
"""On a healthy connection every awaited call of the asynchronous client returns exactly what the broker answered to that very
request, when it answers; a call that is not answered fails with its own time-out at that time, and one without a time-out keeps
waiting. Requests reach the broker complete and in the order they were made, every completion and every message of the broker
is handed to the event handler exactly once and in order, and messages are acknowledged according to their QoS.""",
["inputs","schedules"],"sequences of calls with arbitrary time-outs, broker delays, answers and codes, broker messages, fragmentation, event limits",
"Tests need a live broker or sample single calls; overlap of calls, answers and time-outs is unbounded.",
["src/mqtt_client/tokio_async_client.rs","src/mqtt_client/engine.rs"],
[("worker loop","TokioClientWorker::run"),("callbacks and completions","TokioClientWorker::dispatch_events"),("time-outs","TokioAsyncMqttClient::with_timeout")],
state=[("awaited calls","callers waiting under their packet identifier","TokioClientWorker.pending_publishes")],observe=["results of the calls with their times","handler callbacks","packets at the broker"],
tech="Generated call sequences against a mock broker over loopback TCP in simulated time (the clock moves only when every task is idle); the oracle computes each call's outcome and time from the broker's script.",
note="Sampling; one thread per client; a PINGRESP may complete any earlier ping.")
P("T02","The client survives connection loss and reconnects as configured",
"""However a connection ends, its loss is reported once, and with automatic reconnection the next attempts follow the configured
back-off and limit until one succeeds; with it off, or after disconnect(), there is none. Each connection begins with CONNECT,
carries nothing of an earlier one except what the session resumes, ends with DISCONNECT when asked to, and never runs beside another.
Awaited calls never report a success the broker did not give, fail once it has dropped their session, and while the broker keeps the session no accepted QoS 1 or 2 message is lost.""",
["inputs","schedules","fault_sequences"],"scripts of broker faults (close, reset, cut packet, DISCONNECT, silence, refusal, outage) and user commands at arbitrary moments",
"Each test covers one fault; combinations with commands, outages and back-off are unbounded, and real time makes them slow.",
["src/mqtt_client/tokio_async_client.rs","src/mqtt_client/engine.rs"],
[("loss","TokioClientWorker::handle_connection_lost"),("connection","TokioClientWorker::handle_connect"),("disconnect","TokioClientWorker::handle_disconnect"),("back-off","MqttEngine::schedule_reconnect")],
state=[("transport","the current connection, if any","TokioClientWorker.stream")],observe=["connections and packets at the broker","handler callbacks","results of the calls"],
tech="Fault injection by a scripted mock broker in simulated time, judged by a model of the reconnection schedule and invariants over each connection's history.",
note="Sampling; commands within 40 ms of a loss or an attempt are not judged against the schedule.")

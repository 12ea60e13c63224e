"""P01: the Python client (python/package/flowsdk/async_client.py) on the real engine, in virtual time.

A case is a script for the application and one for the broker.  `run` plays it and returns what was
seen; `judge` says what is wrong with it.
"""
import asyncio
import logging
import os
import ssl

import wire
import vloop
from vloop import now_ms

flowsdk_ffi = None
async_client = None
CERTS = None
TLS_SERVER = {}


def load(pkg, certs):
    global flowsdk_ffi, async_client, CERTS
    import sys
    sys.path.insert(0, pkg)
    from flowsdk import async_client as m
    async_client = m
    flowsdk_ffi = m.flowsdk_ffi
    CERTS = certs
    logging.disable(logging.CRITICAL)


class FakeQuic:
    """Stands for the QUIC engine: MQTT in plain datagrams.  As with the real one, what comes in and
    what is to go out is worked on by handle_tick, which returns the events that take_events gives again."""

    def __init__(self, opts):
        self.e = flowsdk_ffi.MqttEngineFfi.new_with_opts(opts)
        self.inbox, self.out, self.up = b"", [], False
        self.addr, self.cut, self.extra = None, False, []

    def connect(self, server_addr, server_name, tls_opts, now_ms):
        WORLD.quic.append((server_addr, server_name, tls_opts.insecure_skip_verify, list(tls_opts.alpn_protocols)))
        self.addr = server_addr
        self.inbox, self.out, self.cut = b"", [], False
        self.e.handle_connection_lost()
        self.e.take_events()
        self.e.connect()
        self.up = True

    def handle_datagram(self, data, remote_addr, now_ms):
        assert remote_addr == self.addr, "a datagram from " + remote_addr
        self.inbox += data
        if not data:  # the connection is over
            self.cut = True

    def handle_tick(self, now_ms):
        ev = []
        if self.up:
            if self.inbox:
                b, self.inbox = self.inbox, b""
                ev += self.e.handle_incoming(b)
            ev += self.e.handle_tick(now_ms)
            if self.cut:
                self.up = False
                self.e.handle_connection_lost()
                self.e.take_outgoing()
                d = flowsdk_ffi.MqttEventFfi.DISCONNECTED(reason_code=None)
                self.extra.append(d)
                return ev + [d]
            b = self.e.take_outgoing()
            self.out += [flowsdk_ffi.MqttDatagramFfi(addr=self.addr, data=b[i:i + 1200]) for i in range(0, len(b), 1200)]
        return ev

    def take_outgoing_datagrams(self):
        o, self.out = self.out, []
        return o

    def take_events(self):
        x, self.extra = self.extra, []
        return self.e.take_events() + x

    def publish(self, topic, payload, qos):
        return self.e.publish(topic, payload, qos, None)

    def subscribe(self, t, q):
        return self.e.subscribe(t, q)

    def unsubscribe(self, t):
        return self.e.unsubscribe(t)

    def disconnect(self):
        self.e.disconnect()

    def is_connected(self):
        return self.e.is_connected()


WORLD = None


class World:
    def __init__(self, case):
        self.case = case
        self.conns = []
        self.dials = 0
        self.dial_log = []  # [script, when it was done, the connection]
        self.n_answer = 0
        self.ops = []
        self.delivered = []  # messages complete at a client that is up
        self.delivered_at = []
        self.got = []
        self.quic = []
        self.bad = []
        self.live = None  # the connection that connect() reported
        self.classes = set()

    def say(self, what):
        self.bad.append(what)

    def answer(self):
        a = self.case["answers"]
        r = a[self.n_answer % len(a)] if a else {"delay": 0, "kind": "ok", "code": 0}
        self.n_answer += 1
        return r

    async def dial(self, host, port, kind):
        c = self.case["dials"][self.dials % len(self.case["dials"])]
        self.dials += 1
        log = [c, None, None]
        self.dial_log.append(log)
        if (host, port) != (("192.0.2.1" if kind else "broker.example"), 1883):
            self.say(("target", f"connects to {host}:{port}"))
        if c["dial"] == "hang":
            await asyncio.sleep(100000)
        if c["delay"]:
            await asyncio.sleep(c["delay"] / 1000)
        log[1] = now_ms()
        if c["dial"] == "refused":
            raise ConnectionRefusedError(111, "refused")
        s = Server(self, len(self.conns), c)
        self.conns.append(s)
        log[2] = s
        return s


class Server:
    def __init__(self, world, n, script):
        self.w, self.n, self.script = world, n, script
        self.v = world.case["v"]
        self.pipe = None
        self.bye = False
        self.taken = set()  # repetitions of an earlier connection's messages
        self.t0 = now_ms()
        self.buf = b""
        self.recv = []  # (time, packet)
        self.reqs = []  # requests, without repetitions: {"t", "p", "done"}
        self.outq = []
        self.busy = False
        self.up_at = None  # CONNACK has arrived
        self.end_at = None  # lost, or ended by DISCONNECT of the broker
        self.closed_at = None  # the client closed it
        self.lost_at = None
        self.sent = []  # messages handed over: pid -> state
        self.ping_unanswered = None
        self.next_id = 100
        self.inb = {}  # our QoS 1/2 messages: id -> [qos, stage, time of what is owed]
        self.tls = None
        self.want = {}
        if world.case["transport"] == "tls":
            which = script.get("cert", "good")
            if which not in TLS_SERVER:
                ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
                f = "leaf_ca" if which == "good" else "leaf_other"
                ctx.load_cert_chain(os.path.join(CERTS, f + ".pem"), os.path.join(CERTS, f + ".key"))
                ctx.set_alpn_protocols(["mqtt"])
                TLS_SERVER[which] = ctx
            self.tin, self.tout = ssl.MemoryBIO(), ssl.MemoryBIO()
            self.tls = TLS_SERVER[which].wrap_bio(self.tin, self.tout, server_side=True)
            self.shook = False

    def misuse(self, what):
        self.w.say(("misuse", what))

    # from the client
    def received(self, data):
        if self.tls:
            self.tin.write(data)
            try:
                if not self.shook:
                    self.tls.do_handshake()
                    self.shook = True
                while True:
                    b = self.tls.read(65536)
                    if not b:
                        break
                    self.buf += b
            except ssl.SSLWantReadError:
                pass
            except ssl.SSLError:
                pass
            self.flush_tls(None)
        else:
            self.buf += data
        try:
            while True:
                x = wire.split(self.buf)
                if not x:
                    break
                f, body, self.buf = x
                p = wire.parse(self.v, f, body)
                self.recv.append((now_ms(), p))
                self.handle(p)
        except (wire.Bad, UnicodeDecodeError) as e:
            self.w.say(("malformed", f"the broker cannot read what it gets: {e}"))
            self.buf = b""

    def closed_by_client(self):
        self.closed_at = now_ms()
        if self.w.live is self:
            self.w.live = None

    # to the client
    def flush_tls(self, then):
        b = self.tout.read()
        if b:
            self.outq.append(("raw", b, None))
        if then:
            self.outq.append(("mark", b"", then))
        self.go()

    def send(self, data, then=None):
        """`then` is called when the client has taken the last byte."""
        if self.tls:
            self.tls.write(data)
            self.flush_tls(then)
        else:
            self.outq.append(("raw", data, None))
            if then:
                self.outq.append(("mark", b"", then))
            self.go()

    def later(self, ms, f, *a):
        asyncio.get_running_loop().call_later(ms / 1000, f, *a)

    def go(self):
        if not self.busy:
            self.busy = True
            asyncio.get_running_loop().call_soon(self.step)

    def step(self):
        self.busy = False
        if not self.outq:
            return
        kind, b, then = self.outq.pop(0)
        if kind == "raw":
            c = self.w.case["chunks"]
            n = c[len(b) % len(c)] if c and self.script["connack"] != "garbage" else len(b)
            if n < len(b):
                if len(b) > 40 * n:
                    n = len(b) // 40 + 1
                self.outq.insert(0, ("raw", b[n:], None))
                b = b[:n]
            ok = self.end_at is None
            # marks that belong to these bytes: now
            while self.outq and self.outq[0][0] == "mark":
                _, _, f = self.outq.pop(0)
                if self.closed_at is None and self.lost_at is None:
                    f(True)
            if ok and self.pipe:
                self.pipe.deliver(b)
        elif kind == "mark":
            if self.closed_at is None and self.lost_at is None:
                then(True)
        elif kind == "lose":
            if self.closed_at is None and self.lost_at is None:
                self.lost_at = now_ms()
                if self.end_at is None:
                    self.end_at = self.lost_at
                if self.w.live is self:
                    self.w.live = None
                if self.w.case["transport"] == "quic":
                    self.pipe.deliver(b"")
                else:
                    self.pipe.lose(then)
        if self.outq:
            self.go()

    def lose(self, hard):
        self.outq.append(("lose", b"", ConnectionResetError(104, "reset") if hard else None))
        self.go()

    def end(self):
        self.end_at = now_ms()
        if self.w.live is self:
            self.w.live = None

    def handle(self, p):
        t = p["t"]
        if t == "CONNECT":
            self.do_connect()
        elif t in ("PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE"):
            again = t == "PUBLISH" and p["dup"] or any(r["p"] == p for r in self.reqs if r["open"] and p.get("id"))
            if again:
                for r in self.reqs:
                    if r["open"] and r["p"]["t"] == t and r["p"]["id"] == p["id"]:
                        r["again"].append(now_ms())
                        return
                if not self.earlier(p["id"]) and not self.never_sent(p):
                    self.w.say(("repeat", f"a repetition of nothing: {p}"))
                self.taken.add(p["id"])
                self.send(wire.ack(self.v, 3 + p["qos"], p["id"], 0))
                return
            if self.v != 5 and p.get("id") and self.earlier(p["id"], p):
                self.send(wire.suback(self.v, p["id"], [0]) if t == "SUBSCRIBE" else wire.unsuback(self.v, p["id"], [0]))
                return
            r = {"t": now_ms(), "p": p, "done": None, "open": True, "again": [], "rec": None, "rel": None, "relagain": []}
            self.reqs.append(r)
            if t == "PUBLISH" and p["qos"] == 0:
                r["open"] = False
                return
            a = self.w.answer()
            r["a"] = a
            if a["kind"] == "never":
                return
            if a["kind"] in ("drop", "reset"):
                self.later(a["delay"], self.lose, a["kind"] == "reset")
                return
            self.later(a["delay"], self.reply, r)
        elif t == "PUBREL":
            for r in self.reqs:
                if r["open"] and r["p"]["id"] == p["id"] and r["p"].get("qos") == 2:
                    if r["rel"] is None:
                        r["rel"] = now_ms()
                        a = self.w.answer()
                        if a["kind"] == "never":
                            return
                        self.later(a["delay"], self.comp, r)
                    else:
                        r["relagain"].append(now_ms())
                    return
            if not self.earlier(p["id"]) and p["id"] not in self.taken:
                self.w.say(("repeat", f"a PUBREL for nothing: {p}"))
            self.send(wire.ack(self.v, 7, p["id"], 0))
        elif t == "PINGREQ":
            a = self.w.answer() if self.w.case["pings"] else {"delay": 0, "kind": "ok"}
            if a["kind"] == "never":
                self.w.classes.add("PINGREQ unanswered")
                if self.ping_unanswered is None:
                    self.ping_unanswered = now_ms()
            else:
                self.later(min(a["delay"], 200), lambda: self.send(wire.PINGRESP))
        elif t in ("PUBACK", "PUBREC", "PUBCOMP"):
            m = self.inb.get(p["id"])
            if m is None or m["owed"] != t:
                self.w.say(("ack", f"{t} that is not owed"))
                return
            m["owed"] = None
            if t == "PUBREC":
                def rel(ok, m=m):
                    m["owed"], m["since"] = "PUBCOMP", now_ms()
                m["owed"], m["since"] = "PUBCOMP", now_ms()
                self.send(wire.ack(self.v, 6, p["id"], 0), rel)
            else:
                del self.inb[p["id"]]

    def earlier(self, pid, same=None):
        """A request of this id was left open when an earlier connection ended."""
        if self.tls:
            return False  # every TLS connection has an engine of its own
        return any(r["open"] and r["p"].get("id") == pid and (r["p"] == same if same else r["p"].get("qos")) for s in self.w.conns[:self.n] for r in s.reqs)

    def never_sent(self, p):
        """A call that failed because the connection was ending; the session (of v3.1.1) still has it."""
        return self.v != 5 and not self.tls and self.n > 0 and any(
            r["o"]["op"] == "pub" and r["out"] == "error" and r["o"]["topic"] == p["topic"] and r["o"]["qos"] == p["qos"]
            and r["o"]["payload"] + "66" * r["o"].get("big", 0) == p["payload"] for r in self.w.ops)

    def reply(self, r):
        p, a = r["p"], r["a"]
        if self.bye or self.lost_at is not None or self.closed_at is not None or not r["open"]:
            return
        code = a["code"] if a["kind"] == "code" else 0

        def done(ok):
            r["done"] = now_ms()
            r["open"] = False

        if p["t"] == "SUBSCRIBE":
            self.send(wire.suback(self.v, p["id"], [0x80 if code else p["subs"][0][1]]), done)
        elif p["t"] == "UNSUBSCRIBE":
            self.send(wire.unsuback(self.v, p["id"], [0x11 if code else 0]), done)
        elif p["qos"] == 1:
            self.send(wire.ack(self.v, 4, p["id"], code if self.v == 5 else 0), done)
        elif code and self.v == 5:
            self.send(wire.ack(self.v, 5, p["id"], code), done)
        else:
            def rec(ok):
                r["rec"] = now_ms()
            self.send(wire.ack(self.v, 5, p["id"], 0), rec)

    def comp(self, r):
        def done(ok):
            r["done"] = now_ms()
            r["open"] = False
        if not self.bye and self.lost_at is None and self.closed_at is None and r["open"]:
            self.send(wire.ack(self.v, 7, r["p"]["id"], 0), done)

    def do_connect(self):
        c = self.script
        k = c["connack"]
        if k == "never":
            return
        if k in ("drop", "reset"):
            self.later(c["wait"], self.lose, k == "reset")
        elif k == "garbage":
            def junk(ok):
                self.end()
            self.later(c["wait"], lambda: self.send(b"\xf5\x03\x00\x00\x00" if self.v == 3 else b"\x00\x03\x00\x00\x00", junk))
        elif k == "refuse":
            def no(ok):
                self.end()
            code = 5 if self.v != 5 else c["code"]
            self.later(c["wait"], lambda: self.send(wire.connack(self.v, 0, code), no))
        else:
            def up(ok):
                self.up_at = now_ms()
            self.later(c["wait"], lambda: self.send(wire.connack(self.v, 0, 0), up))
            for m in c["events"]:
                self.later(c["wait"] + 1 + m["at"], self.event, m)

    def event(self, m):
        if self.bye or self.lost_at is not None or self.closed_at is not None or self.end_at is not None or self.up_at is None:
            return
        if m["what"] == "msg":
            payload = bytes.fromhex(m["payload"])
            if m.get("big"):
                payload = payload * 1 + b"\x55" * m["big"]
            pid = 0
            if m["qos"]:
                self.next_id += 1
                pid = self.next_id

            def arrived(ok):
                self.w.delivered.append((m["topic"], payload, m["qos"]))
                self.w.delivered_at.append((now_ms(), self))
            if pid:
                self.inb[pid] = {"owed": "PUBACK" if m["qos"] == 1 else "PUBREC", "since": now_ms()}
            self.send(wire.publish(self.v, m["topic"], payload, m["qos"], m["retain"], False, pid), arrived)
        elif m["what"] in ("drop", "reset"):
            if m.get("torn"):
                self.w.classes.add("the connection ends within a packet")
                self.send(wire.publish(self.v, "torn/topic", b" " * 60, 1, False, False, 7)[:m["torn"]])
            self.lose(m["what"] == "reset")
        elif m["what"] == "disconnect":
            if self.v == 5:
                def gone(ok):
                    self.w.classes.add("DISCONNECT from the broker")
                    self.end()
                self.bye = True
                self.send(wire.disconnect(m["code"]), gone)
            else:
                self.lose(False)


def value(x):
    return x if x is None or isinstance(x, int) else repr(x)


async def app(w):
    c = w.case
    T = async_client.TransportType
    kw = dict(
        transport={"tcp": T.TCP, "tls": T.TLS, "quic": T.QUIC}[c["transport"]], mqtt_version=c["v"], clean_start=True,
        keep_alive=c["keep"], username=c["user"], password=c["pass"])
    if c["transport"] == "tls":
        kw.update(ca_cert_file=os.path.join(CERTS, "ca.pem"), server_name="localhost")

    tasks = []

    def on_message(topic, payload, qos):
        w.got.append((topic, bytes(payload), qos))
        k = len(w.got)
        if c["cb"] == "raise" and k % 2 == 1:
            raise ValueError("an error of the application")
        if c["cb"] == "pump":
            client.pump()
        if c["cb"] == "reply" and k <= 3:
            tasks.append(asyncio.ensure_future(call({"op": "pub", "qos": k % 3, "topic": "re", "payload": "aa"}, True)))

    if c["cb"] != "none":
        kw["on_message"] = on_message
    client = async_client.FlowMqttClient(c["cid"], **kw)

    async def call(o, inner=False):
        rec = {"o": o, "t0": now_ms(), "live": w.live.n if w.live else None, "t1": None, "out": None, "val": None,
               "conns": len(w.conns), "n_dial": w.dials}
        w.ops.append(rec)
        try:
            k = o["op"]
            if k == "conn":
                args = {"timeout": o["timeout"] / 1000}
                r = await client.connect("broker.example", 1883, **args)
                s = w.dial_log[rec["n_dial"]][2]
                if s and s.end_at is None and s.closed_at is None and s.lost_at is None:
                    w.live = s
            elif k == "pub":
                r = await client.publish(o["topic"], bytes.fromhex(o["payload"]) + b"\x66" * o.get("big", 0), o["qos"],
                                         *([] if o.get("retain") is None else [o["retain"]]))
            elif k == "sub":
                r = await client.subscribe(o["topic"], o["qos"])
            elif k == "unsub":
                r = await client.unsubscribe(o["topic"])
            elif k == "disc":
                s = w.live
                w.live = None
                rec["disc"] = s.n if s else None
                r = await client.disconnect()
            else:
                r = client.pump()
            rec["out"], rec["val"] = "ok", value(r)
        except asyncio.CancelledError:
            rec["out"] = "cancelled"
            raise
        except vloop.Stuck:
            raise
        except Exception as e:
            rec["out"], rec["val"], rec["kind"] = "error", repr(e), type(e).__mro__
        finally:
            rec["t1"] = now_ms()
            if o["op"] == "conn" and rec["n_dial"] < len(w.dial_log) and w.dial_log[rec["n_dial"]][2]:
                rec["sn"] = w.dial_log[rec["n_dial"]][2].n

    pending_conn = None
    for o in c["ops"]:
        if o["gap"]:
            await asyncio.sleep(o["gap"] / 1000)
        if o["op"] == "conn" and w.live:
            continue
        if o["op"] == "conn" and w.conns and c["transport"] != "tcp":
            # give the client the step it needs to notice that the connection is over
            over = max([x for s in w.conns for x in (s.end_at, s.lost_at, s.closed_at) if x is not None], default=-1e9)
            if now_ms() < over + 30:
                await asyncio.sleep((over + 30 - now_ms()) / 1000)
        if o["op"] == "disc" and not w.live:
            continue
        t = asyncio.ensure_future(call(o))
        tasks.append(t)
        if o["op"] in ("conn", "disc", "pump"):
            await asyncio.wait([t])
        elif o["patience"] is None:
            await asyncio.sleep(0)  # let it start
        else:
            await asyncio.wait([t], timeout=o["patience"] / 1000)
            if not t.done() and o["cancel"]:
                t.cancel()
                await asyncio.wait([t])
    await asyncio.sleep(c["tail"] / 1000)
    for r in w.ops:
        if r["t1"] is None:
            r["out"] = "pending"
    w.end = now_ms()
    hung = [t for t in tasks if not t.done()]
    for t in hung:
        t.cancel()
    if hung:
        await asyncio.wait(hung)
    for r in w.ops:
        if r["out"] == "cancelled" and r["t1"] >= w.end:
            r["out"] = "pending"
    w.live_end = w.live
    return client


def run(case):
    global WORLD
    vloop.reset_clock()
    w = World(case)
    WORLD = w
    real = flowsdk_ffi.QuicMqttEngineFfi
    flowsdk_ffi.QuicMqttEngineFfi = FakeQuic
    loop = vloop.VLoop(w.dial)
    try:
        asyncio.set_event_loop(loop)
        loop.run_until_complete(app(w))
        w.stuck = None
    except vloop.Stuck as e:
        w.stuck = str(e)
    finally:
        flowsdk_ffi.QuicMqttEngineFfi = real
        w.loop_errors = [repr(c.get("exception") or c.get("message")) for c in loop.errors]
        asyncio.set_event_loop(None)
        try:
            for t in asyncio.all_tasks(loop):
                t.cancel()
        except Exception:
            pass
        loop._selector.spins = -10**9
        try:
            loop.run_until_complete(asyncio.sleep(0))
        except BaseException:
            pass
        loop.close()
    return w

"""What is wrong with a run (see p01.run): a list of (kind, text)."""
SLACK = 25.0  # ms; the TLS and QUIC clients work in steps of 10 ms


def judge(w):
    c = w.case
    bad = list(w.bad)

    def say(kind, text):
        bad.append((kind, text))

    cls = w.classes
    cls.add("transport " + c["transport"])
    cls.add("v5" if c["v"] == 5 else "v3.1.1")
    if w.stuck:
        say("stuck", w.stuck)
        return bad
    for e in w.loop_errors:
        if "an error of the application" not in e:
            say("loop-error", f"an exception nobody sees: {e}")
    slack = SLACK

    # each connection, as the broker saw it
    for s in w.conns:
        conn(w, s, say)

    # each call
    per_conn = {}
    for r in w.ops:
        o, k = r["o"], r["o"]["op"]
        dt = None if r["t1"] is None else r["t1"] - r["t0"]
        if k == "conn":
            connect_call(w, r, say)
        elif k in ("pub", "sub", "unsub"):
            name = {"pub": "publish", "sub": "subscribe", "unsub": "unsubscribe"}[k]
            invalid = o.get("qos", 0) > 2
            if r["live"] is None:
                near = [s for s in w.conns if s.up_at is not None for x in (s.end_at, s.lost_at, s.closed_at)
                        if x is not None and abs(x - r["t0"]) <= slack]
                if r["out"] == "error" and dt <= slack:
                    cls.add("a call without a connection")
                    if not near and not any(t.__name__ == "RuntimeError" for t in r["kind"]):
                        say("not-connected", f"{name} without a connection raises {r['val']}, not RuntimeError")
                elif r["out"] == "cancelled" or near and r["out"] in ("ok", "error"):
                    pass
                else:
                    say("not-connected", f"{name} without a connection: {r['out']} {r['val'] or ''}")
                if near and not invalid:
                    r["maybe"] = True  # the client could not know yet
                    per_conn.setdefault(near[-1].n, []).append(r)
                continue
            if invalid:
                cls.add("arguments that are refused")
                if r["out"] != "error" or dt > slack:
                    say("invalid", f"{name}({o['topic']!r}, qos {o['qos']}): {r['out']} {r['val']}")
                continue
            per_conn.setdefault(r["live"], []).append(r)
        elif k == "disc":
            if r["out"] != "ok" or dt > 1000:
                say("disconnect", f"disconnect() ends with {r['out']} {r['val'] or ''} after {dt} ms")
            if r["disc"] is None:
                continue  # it ended on its own in that moment
            s = w.conns[r["disc"]]
            if s.lost_at is not None and s.lost_at <= r["t1"] + slack:
                continue
            cls.add("disconnect()")
            if not s.recv or s.recv[-1][1]["t"] != "DISCONNECT":
                say("disconnect", "disconnect() ends without a DISCONNECT at the broker")
            if s.closed_at is None or s.closed_at > r["t1"] + slack:
                say("left-open", "disconnect() leaves the connection open")
        elif r["out"] not in ("ok",):
            say("pump", f"pump() ends with {r['out']} {r['val']}")

    stray = []  # calls that failed as the connection ended; the session of v3.1.1 keeps their requests
    for s in w.conns:
        reqs = list(s.reqs)
        calls = per_conn.pop(s.n, [])
        if stray and c["v"] != 5 and c["transport"] != "tls":
            reqs = [m for m in reqs if any(r["t0"] <= m["t"] <= r["t0"] + slack and same(w, r["o"], m["p"]) for r in calls)
                    or not any(same(w, o, m["p"]) for o in stray)]
        for r in calls:
            o = r["o"]
            over = [x for x in (s.end_at, s.lost_at, s.closed_at) if x is not None]
            over = min(over) if over else None
            m = reqs[0] if reqs and same(w, o, reqs[0]["p"]) else None
            racing = over is not None and over <= r["t0"] + slack
            if m is not None and r.get("maybe"):
                reqs.pop(0)
                continue
            if m is None and r["out"] in ("error", "cancelled"):
                stray.append(o)
            if m is None:
                if r.get("maybe"):
                    continue
                if racing:
                    if r["out"] == "pending" and over + slack <= w.end:
                        say("hangs", f"{o['op']} at {r['t0']:.0f} never ends, though the connection ended at {over:.0f}")
                    continue
                if r["out"] == "cancelled" and r["t1"] - r["t0"] <= slack or r["t0"] + slack > w.end:
                    continue
                say("request", f"the broker does not get {o} (call at {r['t0']:.0f} ms: {r['out']} {r['val']}); next is {reqs[0]['p'] if reqs else None}")
                break
            reqs.pop(0)
            if m["t"] > r["t0"] + slack or m["t"] < r["t0"]:
                say("late", f"{o} called at {r['t0']:.1f} ms is sent at {m['t']:.1f} ms")
            if o["op"] == "pub" and o["qos"] == 0:
                if r["out"] != "ok" or r["val"] != 0 or r["t1"] > r["t0"] + slack:
                    say("result", f"publish at QoS 0: {r['out']} {r['val']} after {r['t1']} - {r['t0']} ms")
                cls.add("QoS 0")
                continue
            if r["out"] == "cancelled":
                cls.add("a call is cancelled")
                if m["done"] is not None and m["done"] + slack < r["t1"]:
                    say("hangs", f"{o['op']} of {m['p']['id']} is answered at {m['done']:.0f}, but waits until {r['t1']:.0f}")
                continue
            done = m["done"]
            if done is not None:
                if r["out"] == "pending" and done + slack > w.end:
                    continue
                cls.add(f"{o['op']} answered" + (f", QoS {o['qos']}" if o["op"] == "pub" else ""))
                code = m["a"]["kind"] == "code" and not (w.case["v"] != 5 and o["op"] != "sub")
                if code:
                    cls.add("a refusing answer")
                if r["out"] == "ok":
                    if r["val"] != m["p"]["id"]:
                        say("result", f"{o['op']} returns {r['val']}, its packet id is {m['p']['id']}")
                    if r["t1"] < done:
                        say("early", f"{o['op']} of {m['p']['id']} returns at {r['t1']:.1f}, its answer comes at {done:.1f}")
                elif not (r["out"] == "error" and code):
                    if not (r["out"] == "error" and over is not None and over <= done + slack):
                        say("result", f"{o['op']} of {m['p']['id']}, answered at {done:.0f}: {r['out']} {r['val']}")
                    continue
                if r["t1"] > done + slack:
                    say("hangs", f"{o['op']} of {m['p']['id']} returns at {r['t1']:.1f}, its answer came at {done:.1f}")
            elif over is not None:
                cls.add("the connection ends under a call")
                if r["out"] == "pending" and over + slack > w.end:
                    continue
                if r["out"] == "pending":
                    say("hangs", f"{o['op']} of {m['p']['id']} never ends, though the connection ended at {over:.0f} unanswered")
                elif r["out"] != "error":
                    say("result", f"{o['op']} of {m['p']['id']}: {r['out']} {r['val']}, though it is never answered")
                elif r["t1"] > over + slack:
                    say("hangs", f"{o['op']} of {m['p']['id']} ends at {r['t1']:.0f}, the connection ended at {over:.0f}")
                elif r["t1"] + 1 < over:
                    say("early", f"{o['op']} fails at {r['t1']:.0f} with {r['val']}, before the connection ends at {over:.0f}")
            else:
                cls.add("a call is still waiting at the end")
                if r["out"] != "pending":
                    say("early", f"{o['op']} of {m['p']['id']} ends ({r['out']} {r['val']}) at {r['t1']:.0f}, unanswered")
        else:
            if reqs:
                say("request", f"the broker gets {reqs[0]['p']}, which nobody asked for")

    # messages
    if c["cb"] == "none":
        pass
    else:
        # what was on its way to the application when the connection or the run ended may be missing
        at = {0}  # how many of w.got may be explained by the messages so far
        for i, m in enumerate(w.delivered):
            t, s = w.delivered_at[i]
            end = ended(s)
            nxt = {n + 1 for n in at if n < len(w.got) and w.got[n] == m}
            if c["transport"] != "tcp" and (t + slack > w.end or end is not None and t + slack > end and s.end_at in (None, s.lost_at)
                                          or s.lost_at is not None and t + slack > s.lost_at):
                nxt |= at
            if not nxt:
                n = max(at)
                say("messages", f"on_message gets {len(w.got)} of {len(w.delivered)} messages; message {n} is "
                    f"{short(w.got[n]) if n < len(w.got) else 'missing'}, not {short(m)}")
                break
            at = nxt
        else:
            if len(w.got) not in at:
                n = max(at)
                say("messages", f"on_message gets {len(w.got)} of {len(w.delivered)} messages; message {n} is {short(w.got[n])}, not any")
    if w.delivered:
        cls.add("messages to the application, " + c["cb"])
    return bad


def short(m):
    return (m[0], m[1][:10].hex(), len(m[1]), m[2])


def same(w, o, p):
    if o["op"] == "pub":
        return p["t"] == "PUBLISH" and p["topic"] == o["topic"] and p["qos"] == o["qos"] and not p["dup"] \
            and p["retain"] == bool(o.get("retain") and w.case["transport"] != "quic") \
            and p["payload"] == o["payload"] + "66" * o.get("big", 0) and p["props"] == ""
    if o["op"] == "sub":
        return p["t"] == "SUBSCRIBE" and len(p["subs"]) == 1 and p["subs"][0][0] == o["topic"] and p["subs"][0][1] & 3 == o["qos"]
    return p["t"] == "UNSUBSCRIBE" and p["subs"] == [o["topic"]]


def ended(s):
    x = [t for t in (s.end_at, s.lost_at, s.closed_at) if t is not None]
    return min(x) if x else None


def connect_call(w, r, say):
    o, c = r["o"], w.case
    limit = r["t0"] + o["timeout"]
    out, t1 = r["out"], r["t1"]
    kinds = [t.__name__ for t in r.get("kind", ())]
    if r["n_dial"] >= len(w.dial_log):
        say("connect", f"connect() dials nothing: {out} {r['val']}")
        return
    script, t_dial, s = w.dial_log[r["n_dial"]]
    if out == "pending":
        say("hangs", f"connect() at {r['t0']:.0f} with a time-out of {o['timeout']} ms never ends")
        return
    # what should happen, and when
    if script["dial"] == "hang" or t_dial is None or t_dial > limit:
        want, at = "time-out", limit
        near = t_dial is not None and abs(t_dial - limit) <= SLACK
    elif script["dial"] == "refused":
        want, at, near = "error", t_dial, abs(t_dial - limit) <= SLACK
    else:
        over = min([t for t in (s.end_at, s.lost_at) if t is not None], default=None)
        if s.up_at is not None and s.up_at <= limit:
            want, at = "ok", s.up_at
        elif over is not None and over <= limit:
            want, at = "error", over
        else:
            want, at = "time-out", limit
        near = any(t is not None and abs(t - limit) <= SLACK for t in (s.up_at, over))
        if want == "ok" and over is not None and over <= s.up_at + SLACK:
            near = True
        if c["transport"] == "tls" and script.get("cert", "good") != "good":
            w.classes.add("a certificate that does not verify")
            if s.recv:
                say("cert", "the client talks to a broker whose certificate does not verify")
            if out != "error" or t1 > t_dial + SLACK + 20:
                say("connect", f"connect() to a broker whose certificate does not verify: {out} {r['val']} after {t1 - t_dial:.0f} ms")
            else:
                check_closed(s, t1, say)
            return
    w.classes.add("connect() ends with " + want + ("" if script["dial"] != "ok" else ", CONNACK " + script["connack"]))
    if not near:
        if want == "ok" and out != "ok":
            say("connect", f"connect() ends with {r['val']}, though the broker accepts")
        elif want == "time-out" and not (out == "error" and "TimeoutError" in kinds):
            say("connect", f"connect() ends with {out} {r['val']} at {t1:.0f}; its time-out is at {limit:.0f}")
        elif want == "error" and not (out == "error" and ("ConnectionError" in kinds)):
            say("connect", f"connect() ends with {out} {r['val']}, not ConnectionError; {script['dial']}/{script['connack']}")
        elif not (at - 0.5 <= t1 <= at + SLACK):
            say("connect-time", f"connect() ends ({out} {r['val']}) at {t1:.1f}, should be {at:.1f}")
    if out == "error" and s is not None:
        check_closed(s, t1, say)
    if out == "error" and "TimeoutError" not in kinds and t1 < at - 1 and want == "time-out":
        say("connect-time", "connect() fails too early")


def check_closed(s, t1, say):
    if s.lost_at is not None and s.lost_at <= t1 + SLACK:
        return
    if s.closed_at is None or s.closed_at > t1 + SLACK:
        say("left-open", "connect() fails and leaves the connection open")


def conn(w, s, say):
    c = w.case
    keep = c["keep"] * 1000
    over = ended(s)
    end = over if over is not None else w.end
    up = s.up_at
    if s.recv:
        t, p = s.recv[0]
        if p["t"] != "CONNECT":
            say("first", f"the first packet is {p}")
        else:
            want = {"name": "MQTT", "level": 5 if c["v"] == 5 else 4, "clean": True, "keep": c["keep"], "cid": c["cid"], "user": c["user"],
                    "pass": None if c["pass"] is None else c["pass"].encode().hex()}
            got = {k: p[k] for k in want}
            if got != want:
                say("first", f"CONNECT {got}, should be {want}")
        if any(p["t"] == "CONNECT" for _, p in s.recv[1:]):
            say("first", "CONNECT twice")
    elif over is None and w.end - s.t0 > SLACK and not (c["transport"] == "tls" and s.script.get("cert", "good") != "good"):
        say("first", "no CONNECT")
    if up is None and any(p["t"] not in ("CONNECT", "DISCONNECT") for _, p in s.recv):
        say("first", f"before its CONNACK the client sends {[p['t'] for _, p in s.recv]}")
    gone = False
    for t, p in s.recv:
        if gone:
            say("after-disconnect", f"{p['t']} after DISCONNECT")
        gone |= p["t"] == "DISCONNECT"
    if s.end_at is not None and s.lost_at is None:
        # the broker said it is over: the client closes
        if s.closed_at is None:
            if w.end > s.end_at + SLACK:
                say("left-open", f"the broker ends the session at {s.end_at:.0f}; the client leaves the connection open")
        elif s.closed_at > s.end_at + SLACK:
            say("left-open", f"the broker ends the session at {s.end_at:.0f}; the client closes at {s.closed_at:.0f}")
        if any(t > s.end_at + SLACK for t, _ in s.recv):
            say("after-end", "the client goes on sending after the broker ended the session")
    # keep-alive
    if keep and up is not None:
        last = up
        waiting = s.ping_unanswered
        lim = end if waiting is None else min(end, waiting)
        times = [t for t, p in s.recv if t > up and t <= lim]
        n = 0
        for t in times + [lim]:
            if t - last > keep + 60:
                say("keep-alive", f"nothing is sent from {last:.0f} to {t:.0f} ms, the keep-alive interval is {keep} ms")
                break
            last = t
        pings = [t for t, p in s.recv if p["t"] == "PINGREQ"]
        if pings:
            w.classes.add("keep-alive pings")
        for a, b in zip(pings, pings[1:]):
            if b - a < keep - 60:
                say("keep-alive", f"PINGREQ at {a:.0f} and {b:.0f}, the keep-alive interval is {keep} ms")
                break
        if waiting is not None:
            if end > waiting + 2 * keep + 100:
                say("ping", f"the PINGREQ of {waiting:.0f} is not answered and at {end:.0f} the connection is still there")
            elif over is not None and s.closed_at == over and over > waiting + keep:
                w.classes.add("a PINGREQ unanswered ends the connection")
    elif not keep and any(p["t"] == "PINGREQ" for _, p in s.recv):
        say("keep-alive", "PINGREQ with keep-alive off")
    # a connection that the client ends for no reason
    if s.closed_at is not None and s.end_at is None and s.lost_at is None and up is not None:
        why = any(r["o"]["op"] == "disc" and r.get("disc") == s.n for r in w.ops)
        why |= s.ping_unanswered is not None and keep and s.closed_at >= s.ping_unanswered + keep
        why |= any(r["o"]["op"] == "conn" and r["out"] == "error" and r["t1"] >= s.up_at - SLACK for r in w.ops if r.get("sn") == s.n)
        if not why:
            say("closes", f"the client closes a good connection at {s.closed_at:.0f}")
    # what it owes for our messages
    for i, m in s.inb.items():
        if m["owed"] and m["since"] + SLACK < end and up is not None:
            say("owed", f"{m['owed']} for message {i} is not sent by {end:.0f}, owed since {m['since']:.0f}")
    for r in s.reqs:
        if r["rec"] is not None and (r["rel"] if r["rel"] is not None else end) > r["rec"] + SLACK:
            say("owed", f"PUBREL of {r['p']['id']} is not sent, PUBREC came at {r['rec']:.0f}")
    # repetitions
    for r in s.reqs:
        p = r["p"]
        if not p["id"]:
            continue
        if c["v"] == 5:
            if r["again"] or r["relagain"]:
                say("again", f"{p['topic']} (v5) is sent again on the same connection")
            continue
        closed = r["done"] if r["done"] is not None else end
        for first, seq, until in ((r["t"], r["again"], r["rec"] if r["rec"] is not None else closed), (r["rel"], r["relagain"], closed)):
            if first is None:
                continue
            until = min(until, end)
            last = first
            for t in list(seq) + [until]:
                if t - last > 5000 + 60:
                    say("again-late", f"{p['id']} unacknowledged since {first:.0f}: sent at {last:.0f}, then at {t:.0f}")
                    break
                if t is not until and t - last < 5000 - 60:
                    say("again", f"{p['id']}: sent at {last:.0f} and again at {t:.0f}")
                    break
                last = t
            if seq:
                w.classes.add("sent again after 5 s (v3.1.1)")

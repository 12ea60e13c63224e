"""Cases for P01, and smaller ones made from them."""
import copy
import random

TOPICS = ["a", "a/b", "t/é", "long/" + "x" * 60, "z"]
FILTERS = ["a", "a/#", "+/b", "#", "t/é"]
BAD_CODES = [0x80, 0x87, 0x97]


def pick(r, pairs):
    total = sum(w for _, w in pairs)
    x = r.random() * total
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


def gap(r):
    return pick(r, [(0, 8), (r.randrange(1, 60), 4), (r.randrange(60, 1500), 3), (r.randrange(1500, 7000), 1)])


def answer(r, calm):
    k = pick(r, [("ok", 12), ("code", 2), ("never", 1 if calm else 3), ("drop", 0 if calm else 1), ("reset", 0 if calm else 1)])
    return {"delay": pick(r, [(0, 5), (r.randrange(1, 100), 4), (r.randrange(100, 6000), 2)]), "kind": k,
            "code": r.choice(BAD_CODES) if k == "code" else 0}


def dial(r, transport, calm):
    d = pick(r, [("ok", 20), ("refused", 1), ("hang", 1)])
    c = pick(r, [("ok", 30 if calm else 8), ("never", 1), ("drop", 1), ("reset", 1), ("garbage", 1), ("refuse", 2)])
    ev = []
    t = 0
    for _ in range(pick(r, [(0, 2), (r.randrange(1, 4), 3), (r.randrange(4, 12), 2)])):
        t += gap(r)
        w = pick(r, [("msg", 20), ("drop", 0.3 if calm else 1.5), ("reset", 0.3 if calm else 1), ("disconnect", 0.3 if calm else 1.5)])
        e = {"at": t, "what": w}
        if w == "msg":
            e.update(topic=r.choice(TOPICS), payload=r.randbytes(r.randrange(0, 9)).hex(), qos=r.randrange(3), retain=r.random() < .2,
                     big=pick(r, [(0, 9), (r.randrange(100, 5000), 2), (r.randrange(5000, 60000), 0.4)]))
        if w == "disconnect":
            e["code"] = r.choice([0x8b, 0x8e, 0x98, 0x9d])
        if w in ("drop", "reset"):
            e["torn"] = pick(r, [(0, 2), (r.randrange(1, 30), 1)])
        ev.append(e)
    return {"dial": d, "delay": pick(r, [(0, 5), (r.randrange(1, 300), 3), (r.randrange(300, 4000), 1)]), "connack": c,
            "wait": pick(r, [(0, 5), (r.randrange(1, 300), 3), (r.randrange(300, 4000), 1)]), "code": r.choice([0x80, 0x86, 0x87, 0x9c]),
            "events": ev, "cert": "good" if transport != "tls" or r.random() < .9 else "bad"}


def op(r, kind=None):
    k = kind or pick(r, [("pub", 10), ("sub", 4), ("unsub", 3), ("disc", 1.2), ("conn", 1.5), ("pump", 1)])
    o = {"gap": gap(r), "op": k}
    if k == "conn":
        o["timeout"] = pick(r, [(10000, 4), (r.randrange(100, 4000), 3)])
    elif k == "pub":
        o.update(topic=r.choice(TOPICS), payload=r.randbytes(r.randrange(0, 9)).hex(),
                 qos=pick(r, [(r.randrange(3), 30), (3, 1)]), big=pick(r, [(0, 9), (r.randrange(100, 5000), 2), (r.randrange(5000, 70000), 0.4)]), retain=pick(r, [(None, 3), (True, 2), (False, 1)]))
    elif k == "sub":
        o.update(topic=r.choice(FILTERS), qos=pick(r, [(r.randrange(3), 30), (3, 1)]))
    elif k == "unsub":
        o.update(topic=r.choice(FILTERS))
    if k in ("pub", "sub", "unsub"):
        o["patience"] = pick(r, [(None, 4), (r.randrange(1, 200), 3), (r.randrange(200, 8000), 2)])
        o["cancel"] = r.random() < .4
    return o


def case(seed):
    r = random.Random(seed)
    transport = pick(r, [("tcp", 5), ("tls", 3), ("quic", 3)])
    calm = r.random() < .6
    ops = [op(r, "conn")]
    for _ in range(r.randrange(0, 14)):
        ops.append(op(r))
        if r.random() < .04:
            ops.append(op(r, "disc"))
            ops.append(op(r, "conn"))
    pw = None if r.random() < .6 else r.choice(["", "secret", "p" * 200])
    return {
        "transport": transport, "v": pick(r, [(5, 5), (3, 3), (4, 1)]),
        "keep": pick(r, [(0, 2), (1, 2), (2, 2), (5, 2), (30, 3)]),
        "user": pick(r, [(None, 3), (r.choice(["u", "ü" * 5]), 2)]) if pw is None else "u", "pass": pw,
        "cid": r.choice(["c", "client-" + "y" * 16]),
        "dials": [dial(r, transport, calm) for _ in range(r.randrange(1, 4))],
        "answers": [answer(r, calm) for _ in range(r.randrange(1, 5))],
        "chunks": pick(r, [([], 4), ([r.randrange(1, 8) for _ in range(r.randrange(1, 4))], 2), ([r.randrange(1, 300) for _ in range(3)], 2)]),
        "pings": r.random() < .4,
        "cb": pick(r, [("none", 1), ("plain", 5), ("raise", 2), ("pump", 2), ("reply", 2)]),
        "ops": ops, "tail": pick(r, [(50, 2), (r.randrange(50, 3000), 4), (r.randrange(3000, 14000), 3)]),
    }


def nontrivial(w):
    """A call other than connect() was made on a live connection, or a message arrived."""
    return bool(w.delivered) or any(r["live"] is not None and r["o"]["op"] != "conn" for r in w.ops)


def smaller(c):
    """Cases one step simpler."""
    def but(**kw):
        d = copy.deepcopy(c)
        d.update(copy.deepcopy(kw))
        return d

    n = len(c["ops"])
    for size in (n // 2, n // 4, 1):
        if size:
            for i in range(0, n, size):
                yield but(ops=c["ops"][:i] + c["ops"][i + size:])
    for i in range(len(c["dials"])):
        if len(c["dials"]) > 1:
            yield but(dials=c["dials"][:i] + c["dials"][i + 1:])
        ev = c["dials"][i]["events"]
        for j in range(len(ev)):
            d = copy.deepcopy(c)
            del d["dials"][i]["events"][j]
            yield d
    for i in range(len(c["answers"])):
        if len(c["answers"]) > 1:
            yield but(answers=c["answers"][:i] + c["answers"][i + 1:])
    for k, v in (("transport", "tcp"), ("chunks", []), ("user", None), ("pass", None), ("cb", "plain"), ("pings", False), ("keep", 0), ("keep", 30),
                 ("v", 5), ("cid", "c"), ("tail", 50), ("tail", c["tail"] // 2)):
        if c[k] != v and not (k == "tail" and (v >= c[k] or v < 50)) and not (k == "keep" and c[k] == 0) and not (k == "transport" and any(x["cert"] == "bad" for x in c["dials"])):
            yield but(**{k: v})
    simple = {"delay": 0, "wait": 0, "gap": 0, "at": 0, "big": 0, "payload": "", "qos": 0, "topic": "a", "dial": "ok", "connack": "ok",
              "cancel": False, "patience": None, "kind": "ok", "code": 0, "torn": 0, "retain": False, "cert": "good", "timeout": 10000}

    def places(d):
        yield from d["ops"]
        yield from d["answers"]
        for x in d["dials"]:
            yield x
            yield from x["events"]

    for i, x in enumerate(places(c)):
        for k, v in simple.items():
            if k in x and x[k] != v and not (k == "code" and x.get("kind", x.get("what", "")) in ("code", "disconnect")) and not (k == "code" and "connack" in x):
                d = copy.deepcopy(c)
                list(places(d))[i][k] = v
                yield d
                if isinstance(x[k], int) and isinstance(v, int) and not isinstance(x[k], bool) and k in ("delay", "wait", "gap", "at", "big") and x[k] > 1:
                    d = copy.deepcopy(c)
                    list(places(d))[i][k] = x[k] // 2
                    yield d


def shrink(c, fails, budget=400):
    while budget > 0:
        for d in smaller(c):
            budget -= 1
            if budget <= 0:
                break
            if fails(d):
                c = d
                break
        else:
            return c
    return c

"""Just enough of MQTT for a model broker."""


class Bad(Exception):
    pass


def vbi(n):
    out = bytearray()
    while True:
        b, n = n % 128, n // 128
        out.append(b | (0x80 if n else 0))
        if not n:
            return bytes(out)


def s(x):
    b = x.encode() if isinstance(x, str) else x
    return len(b).to_bytes(2, "big") + b


def frame(first, body):
    return bytes([first]) + vbi(len(body)) + body


class Reader:
    def __init__(self, b):
        self.b, self.i = b, 0

    def take(self, n):
        if self.i + n > len(self.b):
            raise Bad("short packet")
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def u8(self):
        return self.take(1)[0]

    def u16(self):
        return int.from_bytes(self.take(2), "big")

    def vbi(self):
        n = sh = 0
        while True:
            x = self.u8()
            n |= (x & 127) << sh
            sh += 7
            if not x & 128:
                return n
            if sh > 21:
                raise Bad("bad length")

    def bin(self):
        return self.take(self.u16())

    def str(self):
        return self.bin().decode()

    def left(self):
        return len(self.b) - self.i

    def rest(self):
        return self.take(self.left())


def split(buf):
    """One whole packet off the front: (first byte, body, rest), or None."""
    r = Reader(buf)
    try:
        f = r.u8()
        n = r.vbi()
        body = r.take(n)
    except Bad:
        if len(buf) > 5 and all(b & 128 for b in buf[1:5]):
            raise
        return None
    return f, body, buf[r.i:]


def parse(v, f, body):
    """A client's packet as a dictionary."""
    r = Reader(body)
    t = f >> 4
    v5 = v == 5

    def props():
        if v5:
            return r.take(r.vbi()).hex()
        return ""

    if t == 1:
        p = {"t": "CONNECT", "name": r.str(), "level": r.u8()}
        fl = r.u8()
        p["clean"] = bool(fl & 2)
        p["keep"] = r.u16()
        p["props"] = props()
        p["cid"] = r.str()
        if fl & 4:
            raise Bad("a will")
        p["user"] = r.str() if fl & 0x80 else None
        p["pass"] = r.bin().hex() if fl & 0x40 else None
        if fl & 0x39:
            raise Bad("connect flags")
    elif t == 3:
        q = f >> 1 & 3
        p = {"t": "PUBLISH", "qos": q, "dup": bool(f & 8), "retain": bool(f & 1), "topic": r.str()}
        p["id"] = r.u16() if q else 0
        p["props"] = props()
        p["payload"] = r.rest().hex()
    elif t in (4, 5, 6, 7):
        p = {"t": {4: "PUBACK", 5: "PUBREC", 6: "PUBREL", 7: "PUBCOMP"}[t], "id": r.u16()}
        p["code"] = r.u8() if v5 and r.left() else 0
        if v5 and r.left():
            p["props"] = props()
    elif t == 8:
        p = {"t": "SUBSCRIBE", "id": r.u16(), "props": props(), "subs": []}
        while r.left():
            p["subs"].append([r.str(), r.u8()])
    elif t == 10:
        p = {"t": "UNSUBSCRIBE", "id": r.u16(), "props": props(), "subs": []}
        while r.left():
            p["subs"].append(r.str())
    elif t == 12:
        p = {"t": "PINGREQ"}
    elif t == 14:
        p = {"t": "DISCONNECT", "code": r.u8() if r.left() else 0}
        if v5 and r.left():
            p["props"] = props()
    else:
        raise Bad(f"packet type {t} from a client")
    if r.left():
        raise Bad(f"{r.left()} bytes too many in {p}")
    if t in (6, 8, 10) and f & 15 != 2 or t in (1, 4, 5, 7, 12, 14) and f & 15:
        raise Bad(f"flags {f:#x}")
    return p


def connack(v, sp, code):
    return frame(0x20, bytes([sp, code]) + (b"\0" if v == 5 else b""))


def ack(v, kind, pid, code):
    """PUBACK 4, PUBREC 5, PUBREL 6, PUBCOMP 7"""
    b = pid.to_bytes(2, "big")
    if v == 5 and code:
        b += bytes([code])
    return frame(kind << 4 | (2 if kind == 6 else 0), b)


def suback(v, pid, codes):
    return frame(0x90, pid.to_bytes(2, "big") + (b"\0" if v == 5 else b"") + bytes(codes))


def unsuback(v, pid, codes):
    return frame(0xB0, pid.to_bytes(2, "big") + ((b"\0" + bytes(codes)) if v == 5 else b""))


def publish(v, topic, payload, qos, retain, dup, pid):
    b = s(topic) + (pid.to_bytes(2, "big") if qos else b"") + (b"\0" if v == 5 else b"") + payload
    return frame(0x30 | qos << 1 | retain | (8 if dup else 0), b)


PINGRESP = b"\xd0\0"


def disconnect(code):
    return frame(0xE0, bytes([code]))

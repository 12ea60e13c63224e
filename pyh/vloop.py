"""An asyncio loop in virtual time, whose connections lead to a model broker in memory."""
import asyncio
import ctypes
import selectors

_lib = ctypes.CDLL(None)
_lib.vclock_get.restype = ctypes.c_longlong
_lib.vclock_set.argtypes = [ctypes.c_longlong]
START = 1_000_000_000_000


def reset_clock():
    _lib.vclock_set(START)


def now_ms():
    return (_lib.vclock_get() - START) / 1e6


class Stuck(Exception):
    """The application spins without time going on, or waits for nothing."""


class _Selector(selectors.SelectSelector):
    spins = 0

    def select(self, timeout=None):
        if timeout is None:
            raise Stuck("nothing is scheduled any more")
        if timeout > 0:
            self.spins = 0
            _lib.vclock_set(_lib.vclock_get() + int(timeout * 1e9) + 1000)
        else:
            self.spins += 1
            if self.spins > 3000:
                raise Stuck("the client spins without end")
        return []


class Pipe(asyncio.Transport):
    """The client's end of a stream connection."""

    def __init__(self, loop, protocol, server):
        super().__init__({"peername": ("192.0.2.1", 1883), "sockname": ("192.0.2.2", 40000)})
        self._loop, self._protocol, self._server = loop, protocol, server
        self._closing = False
        self._lost = False
        server.pipe = self

    def write(self, data):
        assert isinstance(data, (bytes, bytearray, memoryview)), "write takes bytes"
        if self._lost:
            return
        if self._closing:
            self._server.misuse("data is written after close")
            return
        self._server.received(bytes(data))

    def writelines(self, parts):
        self.write(b"".join(parts))

    def is_closing(self):
        return self._closing

    def get_write_buffer_size(self):
        return 0

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def set_protocol(self, p):
        self._protocol = p

    def get_protocol(self):
        return self._protocol

    def is_reading(self):
        return True

    def pause_reading(self):
        pass

    def resume_reading(self):
        pass

    def can_write_eof(self):
        return False

    def close(self):
        if not self._closing:
            self._closing = True
            self._server.closed_by_client()
            self._loop.call_soon(self._end, None)

    def abort(self):
        self.close()

    def _end(self, exc):
        if not self._lost:
            self._lost = True
            self._closing = True
            self._protocol.connection_lost(exc)

    # what the broker does
    def deliver(self, data):
        if self._closing:
            return False
        try:
            self._protocol.data_received(data)
        except Exception as e:  # as asyncio does
            self._loop.call_exception_handler({"message": "Fatal error: protocol.data_received() call failed.", "exception": e})
            self._closing = True
            self._server.closed_by_client()
            self._loop.call_soon(self._end, e)
        return True

    def lose(self, exc):
        """The connection ends; None is an orderly end of the peer."""
        if self._closing:
            return False
        self._closing = True
        if exc is None:
            keep = getattr(self._protocol, "eof_received", lambda: None)()
            if keep:
                self._closing = False
                return True
        self._loop.call_soon(self._end, exc)
        return True


class Udp(asyncio.DatagramTransport):
    """The client's UDP socket; the peer is a model broker that takes datagrams as pieces of a stream."""

    def __init__(self, loop, protocol, server, addr):
        super().__init__({"peername": addr, "sockname": ("192.0.2.2", 40000)})
        self._loop, self._protocol, self._server, self._addr = loop, protocol, server, addr
        self._closing = False
        self._lost = False
        server.pipe = self

    def sendto(self, data, addr=None):
        if self._lost or self._closing:
            self._server.misuse("a datagram is sent after close")
            return
        if addr is not None and tuple(addr) != tuple(self._addr):
            self._server.misuse(f"a datagram goes to {addr}")
            return
        self._server.received(bytes(data))

    def is_closing(self):
        return self._closing

    def close(self):
        if not self._closing:
            self._closing = True
            self._server.closed_by_client()
            self._loop.call_soon(self._end, None)

    def abort(self):
        self.close()

    def _end(self, exc):
        if not self._lost:
            self._lost = True
            self._protocol.connection_lost(exc)

    def deliver(self, data):
        if self._closing:
            return False
        self._protocol.datagram_received(data, self._addr)
        return True

    def lose(self, exc):
        if self._closing:
            return False
        self._closing = True
        self._loop.call_soon(self._end, exc)
        return True


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self, dial):
        super().__init__(_Selector())
        self._dial = dial
        self.errors = []
        self.set_exception_handler(lambda _l, c: self.errors.append(c))

    async def create_connection(self, factory, host=None, port=None, **kw):
        server = await self._dial(host, port, None)
        p = factory()
        t = Pipe(self, p, server)
        done = self.create_future()

        def up():
            p.connection_made(t)
            if not done.done():
                done.set_result(None)

        self.call_soon(up)
        await done
        return t, p

    async def create_datagram_endpoint(self, factory, local_addr=None, remote_addr=None, **kw):
        server = await self._dial(remote_addr[0], remote_addr[1], "udp")
        p = factory()
        t = Udp(self, p, server, remote_addr)
        done = self.create_future()

        def up():
            p.connection_made(t)
            if not done.done():
                done.set_result(None)

        self.call_soon(up)
        await done
        return t, p

    async def getaddrinfo(self, host, port, *, family=0, type=0, proto=0, flags=0):
        return [(2, type, 17, "", ("192.0.2.1", port))]

"""Simulated network: name resolution, TCP and an HTTP server for game logs, in virtual time.

script: what the network does to the next requests, in order; when it is used up the network is healthy.
Each item is {"kind": ...}.  Kinds that act while connecting: dns, refuse, unreach, connstall, slowconn.
Kinds that act on a request: ok (with framing, fragment, delay, encoding, content type), redirect, loop,
sendreset, reset, stall, fin, garbage, empty, page, badchunk, badgzip.
"""
import errno
import gzip
import io
import os
import socket
import time
import zlib

_real = socket.socket

PAGES = {
    "404": (404, b"<html><head><title>404 Not Found</title></head><body><h1>Not Found</h1></body></html>"),
    "500": (500, b"<html><body>Internal Server Error</body></html>"),
    "503": (503, b""),
    "portal": (200, b"<html><head><title>Login</title></head><body><form action=\"/login\"></form></body></html>"),
    "text": (200, b"Service temporarily unavailable"),
    "blank": (200, b""),
    "bare": (200, b"<mjloggm ver=\"2.3\"></mjloggm>"),
}


class Reset:
    pass


class Conn:
    """server side of one connection"""

    def __init__(self, net, addr):
        self.net = net
        self.addr = addr
        self.inbuf = b""
        self.out = []          # [arrival time, bytes or b'' for FIN or Reset]
        self.dead = None       # None, 'fin', 'lost'
        self.used = 0

    def push(self, at, data):
        if self.out:
            at = max(at, self.out[-1][0])
        self.out.append([at, data])

    def receive(self, data):
        net = self.net
        if self.dead:
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer (simulated)")
        head = net.peek()
        if head and head["kind"] == "sendreset":
            net.take()
            net.fire("sendreset")
            self.dead = "lost"
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer (simulated)")
        self.inbuf += data
        while b"\r\n\r\n" in self.inbuf:
            request, self.inbuf = self.inbuf.split(b"\r\n\r\n", 1)
            self.used += 1
            net.serve(self, request.decode("latin-1"))


class Raw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock
        sock.refs += 1

    def readable(self):
        return True

    def readinto(self, b):
        data = self.sock._recv(len(b))
        b[:len(data)] = data
        return len(data)

    def fileno(self):
        return self.sock.fileno()

    def close(self):
        if not self.closed:
            super().close()
            self.sock.refs -= 1


class SimSocket:
    net = None

    def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):
        self.family, self.type, self.proto = family, type, proto
        self.timeout = None
        self.conn = None
        self.refs = 0
        self.closed = False
        self.pipe = None
        self.peer = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # options
    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def bind(self, addr):
        pass

    def getpeername(self):
        return self.peer

    def getsockname(self):
        return ("10.0.0.2", 40000)

    # connecting
    def connect(self, addr):
        net = self.net
        self.peer = addr
        net.waiting("connect", self.timeout)
        if addr[0] in net.refuse_addrs:
            net.now += 0.001
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused (simulated)")
        head = net.peek()
        kind = head["kind"] if head else None
        if kind == "refuse":
            net.take()
            net.fire(kind)
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused (simulated)")
        if kind == "unreach":
            net.take()
            net.fire(kind)
            raise OSError(errno.EHOSTUNREACH, "No route to host (simulated)")
        if kind == "connstall":
            net.take()
            net.fire(kind)
            net.stall(self.timeout)
        if kind == "slowconn":
            net.take()
            net.wait_until(net.now + head["delay"], self.timeout)
        net.now += 0.002
        self.conn = Conn(net, addr)
        net.conns.append(self.conn)
        net.log("connect", addr[0])

    def connect_ex(self, addr):
        try:
            self.connect(addr)
            return 0
        except OSError as e:
            return e.errno or errno.ETIMEDOUT

    # transfers
    def sendall(self, data, flags=0):
        if self.closed or self.conn is None:
            raise OSError(errno.EBADF, "Bad file descriptor")
        self.conn.receive(bytes(data))

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def _recv(self, n):
        net, conn = self.net, self.conn
        if conn is None:
            raise OSError(errno.ENOTCONN, "not connected")
        net.waiting("read", self.timeout)
        net.reads += 1
        if not conn.out:
            if conn.dead == "fin":
                return b""
            net.stall(self.timeout)
        at, data = conn.out[0]
        if at > net.now:
            net.wait_until(at, self.timeout)
        if data is Reset:
            conn.dead = "lost"
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer (simulated)")
        if data == b"":
            return b""
        part = data[:n]
        if len(data) > n:
            conn.out[0][1] = data[n:]
        else:
            del conn.out[0]
        return part

    def recv(self, n, flags=0):
        return self._recv(n)

    def recv_into(self, b, nbytes=0, flags=0):
        data = self._recv(nbytes or len(b))
        b[:len(data)] = data
        return len(data)

    def makefile(self, mode="r", buffering=None, **kw):
        raw = Raw(self)
        if buffering == 0:
            return raw
        return io.BufferedReader(raw, 8192)

    def fileno(self):
        """for poll(): readable when something has arrived or the peer has gone"""
        if self.closed:
            return -1
        if self.pipe is None:
            self.pipe = os.pipe()
            self.net.pipes.append(self.pipe)
            self.filled = False
        ready = bool(self.conn and (self.conn.out and self.conn.out[0][0] <= self.net.now or self.conn.dead == "fin"))
        if ready and not self.filled:
            os.write(self.pipe[1], b"x")
            self.filled = True
        elif self.filled and not ready:
            os.read(self.pipe[0], 1)
            self.filled = False
        return self.pipe[0]

    def shutdown(self, how):
        pass

    def detach(self):
        self.closed = True
        return -1

    def close(self):
        self.closed = True

    _closed = property(lambda self: self.closed)


class Net:
    """logs: {id: text}; limit: the caller's timeout, which every wait has to respect"""

    def __init__(self, logs, script, st=None, addrs=1):
        self.logs = dict(logs)
        self.script = list(script)
        self.st = st
        self.now = 0.0
        self.addrs = addrs
        self.refuse_addrs = set()
        self.conns, self.pipes = [], []
        self.limit = None
        self.bad_waits = []
        self.fired = []
        self.looping = False
        self.requests = []
        self.reads = 0

    # ------------------------------------------------------------ bookkeeping
    def log(self, *a):
        if self.st is not None:
            self.st.log(*a)

    def fire(self, kind):
        self.fired.append(kind)
        if self.st is not None:
            self.st.fault("net-" + kind)

    def peek(self):
        return self.script[0] if self.script else None

    def take(self):
        return self.script.pop(0) if self.script else {"kind": "ok"}

    def waiting(self, what, timeout):
        if self.limit is not None and (timeout is None or timeout > self.limit + 1e-9):
            self.bad_waits.append((what, timeout, self.limit))

    def stall(self, timeout):
        """nothing will ever come"""
        if timeout is None:
            self.bad_waits.append(("forever", None, self.limit))
            self.now += 3600
        else:
            self.now += timeout
        raise socket.timeout("timed out (simulated)")

    def wait_until(self, at, timeout):
        if timeout is not None and at > self.now + timeout:
            self.now += timeout
            raise socket.timeout("timed out (simulated)")
        self.now = max(self.now, at)

    # ------------------------------------------------------------ the patched calls
    def getaddrinfo(self, host, port, family=0, type=0, proto=0, flags=0):
        head = self.peek()
        if head and head["kind"] == "dns":
            self.take()
            self.fire("dns")
            raise socket.gaierror(-3, "Temporary failure in name resolution (simulated)")
        self.now += 0.001
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, "", ("10.1.0.%d" % (i + 1), port)) for i in range(self.addrs)]

    def sleep(self, s):
        self.now += max(0, s)

    def __enter__(self):
        self.saved = {k: os.environ.pop(k) for k in list(os.environ) if k.lower().endswith("_proxy")}
        self.orig = (socket.socket, socket.getaddrinfo, time.sleep, time.time, time.monotonic)
        sock = type("SimSocket", (SimSocket,), {"net": self})
        socket.socket, socket.getaddrinfo = sock, self.getaddrinfo
        time.sleep = self.sleep
        time.time = lambda: 1.6e9 + self.now
        time.monotonic = lambda: 1000.0 + self.now
        return self

    def __exit__(self, *a):
        socket.socket, socket.getaddrinfo, time.sleep, time.time, time.monotonic = self.orig
        os.environ.update(self.saved)
        for p in self.pipes:
            for fd in p:
                try:
                    os.close(fd)
                except OSError:
                    pass
        return False

    def idle(self, how):
        """what happens to connections nobody uses"""
        for c in self.conns:
            if c.dead is None:
                c.dead = how

    # ------------------------------------------------------------ the server
    def serve(self, conn, request):
        lines = request.split("\r\n")
        headers = {}
        for ln in lines[1:]:
            k, _, v = ln.partition(":")
            headers[k.strip().lower()] = v.strip()
        parts = lines[0].split(" ")
        path = parts[1] if len(parts) > 1 else ""
        self.requests.append((headers.get("host", ""), path))
        self.log("request", headers.get("host"), path)
        log_id = path.split("?", 1)[1] if path.startswith("/0/log/?") else path[3:] if path.startswith("/r/") else None
        b = {"kind": "loop"} if self.looping else self.take()
        if b["kind"] in ("dns", "refuse", "unreach", "connstall", "slowconn", "sendreset"):
            self.script.insert(0, b)      # for the next connection; this one already stands
            b = {"kind": "ok"}
        kind = b["kind"]
        if kind not in ("ok", "redirect"):
            self.fire(kind)
        text = self.logs.get(log_id)
        delay = b.get("delay", 0.0)
        if kind == "loop":
            self.looping = True
            return self.reply(conn, b, 302, b"", {"Location": path}, headers)
        if kind == "redirect" and text is not None:
            to = {"absolute": "http://e.mjv.jp/r/%s", "relative": "/r/%s", "host": "http://mirror.example/r/%s"}[b["to"]]
            return self.reply(conn, b, b["code"], b"moved", {"Location": to % log_id}, headers)
        if kind == "garbage":
            conn.push(self.now + delay, b["data"].encode("latin-1"))
            conn.push(self.now + delay, b"")
            return
        if kind == "empty":
            conn.push(self.now + delay, b"")
            return
        if kind == "page":
            code, body = PAGES[b["page"]]
            return self.reply(conn, b, code, body, {"Content-Type": "text/html"}, headers)
        if text is None:
            return self.reply(conn, {"kind": "ok"}, 404, PAGES["404"][1], {"Content-Type": "text/html"}, headers)
        body = text.encode("utf-8")
        ctype = b.get("ctype", "text/xml")
        if not body.isascii():
            ctype += "; charset=utf-8"
        self.reply(conn, b, 200, body, {"Content-Type": ctype}, headers)

    def reply(self, conn, b, code, body, extra, request):
        accepted = request.get("accept-encoding", "")
        enc = b.get("encoding")
        if b["kind"] == "badgzip":
            enc = "gzip"
        if enc and (enc in accepted):
            if enc == "gzip":
                body = gzip.compress(body, mtime=0)
            else:
                body = zlib.compress(body)
            extra = dict(extra, **{"Content-Encoding": enc})
            if b["kind"] == "badgzip" and len(body) > 12:
                i = 10 + b["at"] % (len(body) - 10)
                body = body[:i] + bytes([body[i] ^ (1 << b["at"] % 8)]) + body[i + 1:]
        framing = b.get("framing", "length")
        head = "HTTP/1.1 %d X\r\nServer: sim\r\n" % code
        for k, v in extra.items():
            head += "%s: %s\r\n" % (k, v)
        if framing == "length":
            head += "Content-Length: %d\r\n" % len(body)
        elif framing == "chunked" or b["kind"] == "badchunk":
            head += "Transfer-Encoding: chunked\r\n"
            size = b.get("chunk") or 1000
            out = b""
            for i in range(0, len(body), size):
                part = body[i:i + size]
                out += b"%x%s\r\n%s\r\n" % (len(part), b";x=1" if i == 0 and b.get("ext") else b"", part)
            if b["kind"] == "badchunk":
                out = out[:len(out) // 2] + b"\r\nZZ\r\n" + out[len(out) // 2:]
            body = out + b"0\r\n\r\n"
        close = framing == "close"
        if close:
            head += "Connection: close\r\n"
        data = head.encode("latin-1") + b"\r\n" + body
        kind = b["kind"]
        cut = None
        if kind in ("reset", "stall", "fin"):
            n = b["at"]
            # counted from the front, or (negative) from the end
            cut = max(0, min(len(data) - 1, n if n >= 0 else len(data) + n))
            data = data[:cut]
        at = self.now + 0.003 + b.get("delay", 0.0)
        frag = b.get("fragment")
        pos = 0
        n = 0
        while pos < len(data):
            size = frag if frag and n < 400 else len(data)
            conn.push(at, data[pos:pos + size])
            pos += size
            n += 1
            at += b.get("gap", 0.0)
        if kind == "reset":
            conn.push(at, Reset)
        elif kind == "fin" or (close and kind != "stall"):
            conn.push(at, b"")


def benign(rng, timeout):
    """something a healthy network does"""
    b = {"kind": "ok", "framing": rng.choice(["length", "chunked", "close"]),
         "fragment": rng.choice([None, None, 1, 2, 7, 100, 1400]),
         "chunk": rng.choice([1, 17, 1000, 8192, 10 ** 6]), "ext": rng.random() < 0.1,
         "encoding": rng.choice([None, None, "gzip", "deflate"]),
         "ctype": rng.choice(["text/xml", "text/plain", "application/octet-stream", "text/html", "application/xml"]),
         "delay": round(rng.choice([0.0, 0.0, 0.1, 0.4]) * timeout, 4), "gap": rng.choice([0.0, 0.0, 0.0001])}
    if b["chunk"] < 100 and rng.random() < 0.7:
        b["chunk"] = 1000
    if rng.random() < 0.25:
        b.update(kind="redirect", to=rng.choice(["absolute", "relative", "host"]), code=rng.choice([301, 302, 303, 307, 308]))
        b["delay"] = round(b["delay"] / 4, 4)
    return b


FAULTS = ["dns", "refuse", "unreach", "connstall", "slowconn", "sendreset", "reset", "stall", "fin", "garbage", "empty",
          "page", "badchunk", "badgzip", "loop", "slow"]


def fault(rng, timeout):
    kind = rng.choice(FAULTS + ["fin", "fin", "reset", "stall"])
    b = benign(rng, timeout)
    b["kind"] = kind
    if kind in ("reset", "stall", "fin"):
        b["at"] = rng.choice([0, 1, 9, 30, 100, rng.randint(0, 4000), rng.randint(0, 30000), -1, -2, -5, -12, -20,
                              -rng.randint(1, 3000)])
    elif kind == "garbage":
        b["data"] = rng.choice(["\x00\x01\x02", "HTTP/1.1", "HTTP/1.1 abc\r\n\r\n", "<mjloggm ver=\"2.3\"/>", "\r\n\r\n"])
    elif kind == "page":
        b["page"] = rng.choice(sorted(PAGES))
    elif kind == "badgzip":
        b["at"] = rng.randint(0, 5000)
    elif kind == "slowconn":
        b = {"kind": kind, "delay": round(timeout * rng.choice([0.5, 0.99, 1.01, 5]), 4)}
    elif kind == "slow":
        b["kind"] = "ok"
        b["slow"] = True
        b["delay"] = round(timeout * rng.choice([0.95, 0.999, 1.001, 3]), 4)
        b["gap"] = round(timeout * rng.choice([0.0, 0.3, 0.9, 1.1]), 4)
        b["fragment"] = rng.choice([None, 1000, 200])
    elif kind in ("dns", "refuse", "unreach", "connstall", "sendreset", "empty", "loop"):
        b = {"kind": kind}
    return b

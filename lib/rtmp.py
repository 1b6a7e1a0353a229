"""Minimal RTMP client (plain handshake, AMF0) with full control over chunking.

Everything is single threaded: a Conn only reads from its socket inside
pump()/wait().  The wire parser is an independent implementation of the RTMP
chunk stream format.
"""
import os
import select
import socket
import struct
import time

AUDIO, VIDEO, META, CMD, AGG = 8, 9, 18, 20, 22


class Closed(Exception):
    pass


class Timeout(Exception):
    pass


class ProtocolError(Exception):
    pass


# ------------------------------------------------------------------- AMF0
def amf(*vals):
    out = b""
    for v in vals:
        if v is None:
            out += b"\x05"
        elif isinstance(v, bool):
            out += b"\x01" + (b"\x01" if v else b"\x00")
        elif isinstance(v, (int, float)):
            out += b"\x00" + struct.pack(">d", v)
        elif isinstance(v, str):
            b = v.encode("latin1")
            if len(b) < 65536:
                out += b"\x02" + struct.pack(">H", len(b)) + b
            else:
                out += b"\x0c" + struct.pack(">I", len(b)) + b
        elif isinstance(v, dict):
            out += b"\x03"
            for k, x in v.items():
                kb = k.encode("latin1")
                out += struct.pack(">H", len(kb)) + kb + amf(x)
            out += b"\x00\x00\x09"
        elif isinstance(v, Ecma):
            out += b"\x08" + struct.pack(">I", len(v.d))
            for k, x in v.d.items():
                kb = k.encode("latin1")
                out += struct.pack(">H", len(kb)) + kb + amf(x)
            out += b"\x00\x00\x09"
        elif isinstance(v, list):
            out += b"\x0a" + struct.pack(">I", len(v)) + b"".join(amf(x) for x in v)
        elif isinstance(v, bytes):
            out += v
        else:
            raise TypeError(v)
    return out


class Ecma:
    def __init__(self, **d):
        self.d = d


def amf_read(b, i=0):
    t = b[i]
    i += 1
    if t == 0:
        return struct.unpack(">d", b[i:i + 8])[0], i + 8
    if t == 1:
        return bool(b[i]), i + 1
    if t == 2:
        n = struct.unpack(">H", b[i:i + 2])[0]
        return b[i + 2:i + 2 + n].decode("latin1"), i + 2 + n
    if t in (3, 8):
        if t == 8:
            i += 4
        d = {}
        while True:
            n = struct.unpack(">H", b[i:i + 2])[0]
            i += 2
            k = b[i:i + n].decode("latin1")
            i += n
            if n == 0 and b[i] == 9:
                return d, i + 1
            d[k], i = amf_read(b, i)
    if t in (5, 6):
        return None, i
    if t == 10:
        n = struct.unpack(">I", b[i:i + 4])[0]
        i += 4
        r = []
        for _ in range(n):
            v, i = amf_read(b, i)
            r.append(v)
        return r, i
    if t == 11:
        return struct.unpack(">d", b[i:i + 8])[0], i + 10
    if t == 12:
        n = struct.unpack(">I", b[i:i + 4])[0]
        return b[i + 4:i + 4 + n].decode("latin1"), i + 4 + n
    raise ProtocolError(f"amf type {t} at {i - 1} of {b[:80]!r} ({len(b)})")


def amf_all(b):
    r, i = [], 0
    while i < len(b):
        v, i = amf_read(b, i)
        r.append(v)
    return r


class Msg:
    __slots__ = ("type", "ts", "sid", "csid", "data", "cuts")

    def __init__(self, type, ts, sid, csid, data):
        self.type, self.ts, self.sid, self.csid, self.data = type, ts, sid, csid, data

    def __repr__(self):
        if self.type == CMD:
            try:
                return f"<cmd {amf_all(self.data)}>"
            except Exception:
                pass
        return f"<msg t={self.type} ts={self.ts} sid={self.sid} cs={self.csid} len={len(self.data)} {self.data[:12].hex()}>"


class ChunkParser:
    """Decodes an RTMP chunk stream (strict: raises ProtocolError)."""

    def __init__(self, fix=True):
        self.fix = fix           # play_time_fix: extended field in type 3 chunks
        self.buf = bytearray()
        self.chunk = 128
        self.cs = {}
        self.seen_chunk_sizes = []

    def feed(self, data):
        self.buf += data
        out = []
        while True:
            m = self._one()
            if m is False:
                return out
            if m is not None:
                if m.type == 1:
                    self.chunk = struct.unpack(">I", m.data)[0]
                    self.seen_chunk_sizes.append(self.chunk)
                out.append(m)

    def _one(self):
        b = self.buf
        n = len(b)
        if n < 1:
            return False
        fmt, csid, i = b[0] >> 6, b[0] & 63, 1
        if csid == 0:
            if n < 2:
                return False
            csid, i = 64 + b[1], 2
        elif csid == 1:
            if n < 3:
                return False
            csid, i = 64 + b[1] + 256 * b[2], 3
        need = (11, 7, 3, 0)[fmt]
        if n < i + need:
            return False
        st = self.cs.get(csid)
        if st is None:
            if fmt != 0:
                raise ProtocolError(f"fmt{fmt} on fresh csid {csid}")
            st = self.cs[csid] = dict(ts=0, delta=0, len=0, type=0, sid=0, ext=False, body=None)
        new = st["body"] is None
        if not new and fmt != 3:
            raise ProtocolError(f"fmt{fmt} in the middle of a message on csid {csid}")
        h = bytes(b[i:i + need])
        j = i + need
        tsf = None
        if fmt <= 2:
            tsf = int.from_bytes(h[0:3], "big")
            ext = tsf == 0xFFFFFF
        else:
            ext = st["ext"] and self.fix
        length, typ, sid = st["len"], st["type"], st["sid"]
        if fmt <= 1:
            length, typ = int.from_bytes(h[3:6], "big"), h[6]
        if fmt == 0:
            sid = int.from_bytes(h[7:11], "little")
        if ext:
            if n < j + 4:
                return False
            e = int.from_bytes(b[j:j + 4], "big")
            j += 4
            if fmt <= 2:
                tsf = e
        body = b"" if new else st["body"]
        take = min(self.chunk, length - len(body))
        if n < j + take:
            return False
        # commit
        st["len"], st["type"], st["sid"] = length, typ, sid
        if fmt <= 2:
            st["ext"] = ext
        if new:
            st["cuts"] = []
            body = bytearray()
        st["cuts"].append((fmt, ext, take))
        if fmt == 0:
            st["ts"], st["delta"] = tsf, 0
        elif fmt in (1, 2):
            st["delta"] = tsf
            st["ts"] = (st["ts"] + tsf) & 0xFFFFFFFF
        elif new:
            st["ts"] = (st["ts"] + st["delta"]) & 0xFFFFFFFF
        body += b[j:j + take]
        del b[:j + take]
        if len(body) == length:
            st["body"] = None
            m = Msg(typ, st["ts"], sid, csid, bytes(body))
            m.cuts = st["cuts"]
            return m
        st["body"] = body
        return None


class Conn:
    def __init__(self, addr, timeout=10.0, rcvbuf=None, sndbuf=None, handshake=True, fix=True):
        if addr is None:        # connected already
            self.sock = self.pre
        elif isinstance(addr, str):
            self.sock = socket.socket(socket.AF_UNIX)
        else:
            self.sock = socket.socket(socket.AF_INET6 if ":" in addr[0] else socket.AF_INET)
        if rcvbuf:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
            # segments smaller than the window, or the kernel stalls
            self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_MAXSEG, max(500, rcvbuf // 8))
        if sndbuf:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, sndbuf)
        self.sock.settimeout(timeout)
        self.sent = 0            # bytes after the handshake
        if addr is not None:
            self.sock.connect(addr)
        if self.sock.family != socket.AF_UNIX:
            self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.timeout = timeout
        self.parser = ChunkParser(fix)
        self.out_chunk = 128
        self.txn = 0
        self.inbox = []          # all messages, in order, not yet taken
        self.closed = False
        self.bytes_in = 0
        self.auto_pong = True
        self.pingseq = 1000
        self.sid = 1
        self.log = []
        if handshake:
            self.handshake()

    # ------------------------------------------------------------ transport
    def handshake(self):
        c1 = struct.pack(">II", 0, 0) + os.urandom(1528)
        self.sock.sendall(b"\x03" + c1)
        s = self._readn(1 + 1536 + 1536)
        if s[0] != 3:
            raise ProtocolError("handshake version")
        self.sock.sendall(s[1:1537])

    def _readn(self, n):
        b = b""
        while len(b) < n:
            try:
                x = self.sock.recv(n - len(b))
            except socket.timeout:
                raise Timeout("handshake")
            except OSError:
                x = b""
            if not x:
                self.closed = True
                raise Closed()
            b += x
        return b

    def send_raw(self, data):
        try:
            self.sock.sendall(data)
            self.sent += len(data)
        except (BrokenPipeError, ConnectionResetError):
            # keep what the peer sent before it closed readable
            self.broken = True

    def read_some(self, timeout, most=65536):
        """Reads once; returns False if nothing arrived within timeout."""
        if self.closed:
            return False
        r, _, _ = select.select([self.sock], [], [], timeout)
        if not r:
            return False
        try:
            x = self.sock.recv(most)
        except (ConnectionResetError, BrokenPipeError):
            x = b""
        if not x:
            self.closed = True
            return False
        self.bytes_in += len(x)
        for m in self.parser.feed(x):
            if m.type == 4 and self.auto_pong and m.data[:2] == b"\x00\x06":
                self.send(4, b"\x00\x07" + m.data[2:6], csid=2)
            self.inbox.append(m)
            self.allm = getattr(self, "allm", []) + [m]
        return True

    def drain(self):
        """Reads whatever is already in the socket buffer."""
        while self.read_some(0):
            pass

    def wait(self, pred, timeout=None):
        """Waits for a message satisfying pred; returns (messages before, msg)."""
        end = time.time() + (timeout or self.timeout)
        i = 0
        while True:
            while i < len(self.inbox):
                if pred(self.inbox[i]):
                    before, m = self.inbox[:i], self.inbox[i]
                    del self.inbox[:i + 1]
                    return before, m
                i += 1
            if self.closed:
                raise Closed()
            left = end - time.time()
            if left <= 0:
                raise Timeout()
            self.read_some(left)

    def wait_closed(self, timeout=None):
        end = time.time() + (timeout or self.timeout)
        while not self.closed:
            left = end - time.time()
            if left <= 0:
                return False
            self.read_some(left)
        return True

    def take(self):
        r, self.inbox = self.inbox, []
        return r

    # -------------------------------------------------------------- sending
    @staticmethod
    def basic(fmt, csid):
        if csid < 64:
            return bytes([fmt << 6 | csid])
        if csid < 320:
            return bytes([fmt << 6, csid - 64])
        return bytes([fmt << 6 | 1, (csid - 64) & 255, (csid - 64) >> 8])

    def encode(self, type, data, ts=0, sid=None, csid=None, chunk=None):
        sid = self.sid if sid is None else sid
        csid = csid or {AUDIO: 4, VIDEO: 6, META: 5, CMD: 3}.get(type, 2)
        chunk = chunk or self.out_chunk
        ext = struct.pack(">I", ts) if ts >= 0xFFFFFF else b""
        h = self.basic(0, csid) + min(ts, 0xFFFFFF).to_bytes(3, "big") + len(data).to_bytes(3, "big") + bytes([type]) + sid.to_bytes(4, "little") + ext
        out = h + data[:chunk]
        i = chunk
        while i < len(data):
            out += self.basic(3, csid) + ext + data[i:i + chunk]
            i += chunk
        return out

    def send(self, type, data, ts=0, sid=None, csid=None):
        self.send_raw(self.encode(type, data, ts, sid, csid))

    def set_chunk(self, n):
        self.send(1, struct.pack(">I", n), sid=0, csid=2)
        self.out_chunk = n

    def cmd(self, name, *args, sid=0, csid=3):
        self.txn += 1
        self.send(CMD, amf(name, self.txn, *args), sid=sid, csid=csid)
        return self.txn

    def ping_send(self):
        self.pingseq += 1
        self.send(4, b"\x00\x06" + struct.pack(">I", self.pingseq), sid=0, csid=2)
        return b"\x00\x07" + struct.pack(">I", self.pingseq)

    def sync(self, timeout=None):
        """Barrier: everything sent before was processed, and everything the
        server queued for us before is in the returned list."""
        want = self.ping_send()
        before, _ = self.wait(lambda m: m.type == 4 and m.data == want, timeout)
        return before

    # ------------------------------------------------------------- commands
    def result(self, txn, timeout=None):
        def p(m):
            if m.type != CMD:
                return False
            v = amf_all(m.data)
            return v[0] in ("_result", "_error") and v[1] == txn
        before, m = self.wait(p, timeout)
        self.log += before
        return amf_all(m.data)

    def connect(self, app, tcurl=None, host="localhost", **kw):
        o = {"app": app, "flashVer": "pv", "tcUrl": tcurl or f"rtmp://{host}/{app.split('?')[0]}"}
        o.update(kw)
        self.txn = 0
        t = self.cmd("connect", o)
        return self.result(t)

    def create_stream(self):
        t = self.cmd("createStream", None)
        r = self.result(t)
        self.sid = int(r[3])
        return self.sid

    def publish(self, name, typ="live"):
        self.cmd("publish", None, name, typ, sid=self.sid)

    def play(self, name, *extra):
        self.cmd("play", None, name, *(extra or (-2000,)), sid=self.sid)

    def delete_stream(self):
        self.cmd("deleteStream", None, self.sid)

    def close(self):
        try:
            self.sock.close()
        except OSError:
            pass
        self.closed = True


def statuses(msgs):
    out = []
    for m in msgs:
        if m.type == CMD:
            v = amf_all(m.data)
            if v[0] == "onStatus":
                out.append(v[-1].get("code"))
    return out


def av(msgs):
    return [(m.type, m.ts, bytes(m.data)) for m in msgs if m.type in (AUDIO, VIDEO, META)]

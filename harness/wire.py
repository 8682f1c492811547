"""The wire protocol of the tag server, written from its documentation, and a
process wrapper.  Nothing here judges: it encodes requests, decodes answers."""
import glob, os, select, signal, socket, struct, subprocess, time
from common import *

CODES = {"BOOL": 0x10, "BYTE": 3, "SINT": 0x13, "CHAR": 0x23, "WORD": 4, "INT": 0x14, "UINT": 0x24,
         "DWORD": 5, "DINT": 0x15, "UDINT": 0x25, "REAL": 0x35, "LWORD": 6, "LINT": 0x16,
         "ULINT": 0x26, "TIME": 0x36, "LREAL": 0x46}
NAMES = {v: k for k, v in CODES.items()}
SIZES = {"BOOL": 0, "BYTE": 1, "SINT": 1, "CHAR": 1, "WORD": 2, "INT": 2, "UINT": 2, "DWORD": 4,
         "DINT": 4, "UDINT": 4, "REAL": 4, "LWORD": 8, "LINT": 8, "ULINT": 8, "TIME": 8, "LREAL": 8}
BASES = list(CODES)
SIGNED = {"SINT", "CHAR", "INT", "DINT", "LINT", "TIME"}
FLOATS = {"REAL", "LREAL"}
CUSTOM, QUEUE = 0x80000000, 0x40000000
EV = {"READ": 1, "WRITE": 2, "CHANGE": 3, "SET": 4, "RESET": 5, "EQUAL": 6, "GREATER": 7, "LESS": 8,
      "DEADBAND": 9, "DELETED": 10}
EVN = {v: k for k, v in EV.items()}
AOP = {"INC": 1, "DEC": 2, "NOT": 3, "OR": 4, "AND": 5, "NOR": 6, "NAND": 7, "XOR": 8, "XNOR": 9}
(MOD_REG, TAG_ADD, TAG_DEL, TAG_GET, TAG_LIST, TAG_READ, TAG_WRITE, TAG_MWRITE, EVNT_ADD, EVNT_DEL,
 EVNT_GET, EVNT_OPT, CDT_CREATE, CDT_GET, MAP_ADD, MAP_DEL, MAP_GET, GRP_ADD, GRP_DEL, GRP_READ,
 GRP_WRITE, GRP_MWRITE, ATOMIC, ADD_OVRD, DEL_OVRD, GET_OVRD, SET_OVRD) = range(1, 28)
RESPONSE, ERROR, EVENT = 0x01000000, 0x02000000, 0x80000000
CLIP = 1000000000


def T(b, n=-1, q=False):
    return {"b": b, "n": n, "q": q}


def tcode(t):
    c = (CUSTOM | t["n"]) if t["b"] == "CDT" else CODES.get(t["b"], t["n"])
    return c | (QUEUE if t["q"] else 0)


def tdecode(c):
    q = bool(c & QUEUE)
    c &= ~QUEUE
    if c & CUSTOM:
        return T("CDT", min(c & 0x3FFFFFFF, CLIP), q)
    return T(NAMES[c], -1, q) if c in NAMES else T("?", min(c, CLIP), q)


def u32(x):
    return struct.pack("<I", x & 0xFFFFFFFF)


def enc_handle(h):
    return u32(h["idx"]) + u32(h["byte"]) + bytes([h["bit"] & 255]) + u32(h["count"]) + u32(h["size"]) + u32(tcode(h["t"]))


def dec_handle(b):
    i, by, bit, c, s, t = struct.unpack("<IIBIII", b[:21])
    return {"idx": clip(i), "byte": clip(by), "bit": bit, "count": clip(c), "size": clip(s), "t": tdecode(t)}


def clip(x):
    if x >= 0x80000000:
        x -= 0x100000000
    return max(-CLIP, min(CLIP, x))


def request(op, a):
    """(command, payload) of an operation of the specification"""
    b = bytes
    if op == "add":
        at = a["attr"]
        bits = (4 if at["ret"] else 0) | (0x20 if at["own"] else 0) | (1 if at["ro"] else 0)
        return TAG_ADD, u32(tcode(a["t"])) + u32(a["count"]) + u32(bits) + bytes(a["chars"]) + b"\0"
    if op == "del":
        return TAG_DEL, u32(a["idx"])
    if op == "getn":
        return TAG_GET, b"\x01" + a["name"].encode("latin-1") + b"\0"
    if op == "geti":
        return TAG_GET, b"\x02" + u32(a["idx"])
    if op == "read":
        return TAG_READ, u32(a["idx"]) + u32(a["off"]) + u32(a["size"])
    if op == "write":
        return TAG_WRITE, u32(a["idx"]) + u32(a["off"]) + b(a["data"])
    if op == "mwrite":
        return TAG_MWRITE, u32(a["idx"]) + u32(a["off"]) + b(a["data"]) + b(a["mask"])
    if op == "evadd":
        h = a["h"]
        return EVNT_ADD, (u32(h["idx"]) + u32(h["byte"]) + u32(h["count"]) + u32(tcode(h["t"])) +
                          u32(EV.get(a["et"], 99)) + u32(h["size"]) + b([h["bit"] & 255]) + b(a["val"]))
    if op == "evdel":
        return EVNT_DEL, u32(a["idx"]) + u32(a["id"])
    if op == "evopt":
        return EVNT_OPT, u32(a["idx"]) + u32(a["id"]) + u32(1 if a["send"] else 0)
    if op == "cdtnew":
        return CDT_CREATE, a["text"].encode("latin-1") + b"\0"
    if op == "cdtn":
        return CDT_GET, b"\x01" + a["name"].encode("latin-1") + b"\0"
    if op == "cdtt":
        return CDT_GET, b"\x02" + u32(tcode(a["t"]))
    if op == "mapadd":
        return MAP_ADD, enc_handle(a["src"]) + enc_handle(a["dst"])
    if op == "mapdel":
        return MAP_DEL, u32(a["idx"]) + u32(a["id"])
    if op == "mapget":
        return MAP_GET, u32(a["idx"]) + u32(a["id"])
    if op == "grpadd":
        return GRP_ADD, b([len(a["hs"]) & 255, 0]) + b"".join(enc_handle(h) for h in a["hs"])
    if op == "grpdel":
        return GRP_DEL, u32(a["id"])
    if op == "grpread":
        return GRP_READ, u32(a["id"])
    if op == "grpwrite":
        return GRP_WRITE, u32(a["id"]) + b(a["data"])
    if op == "atomic":
        h = a["h"]
        return ATOMIC, (u32(h["idx"]) + u32(h["byte"]) + u32(h["count"]) + u32(tcode(h["t"])) + b([h["bit"] & 255]) +
                        struct.pack("<H", AOP.get(a["aop"], 77)) + b"\0\0" + b(a["data"]))
    if op == "ovradd":
        return ADD_OVRD, u32(a["idx"]) + u32(a["off"]) + b"\0" * 4 + b(a["data"]) + b(a["mask"])
    if op == "ovrdel":
        return DEL_OVRD, u32(a["idx"]) + u32(a["off"]) + b(a["mask"])
    if op == "ovrget":
        return GET_OVRD, u32(a["idx"]) + u32(a["off"]) + u32(a["size"])
    if op == "ovrset":
        return SET_OVRD, u32(a["idx"]) + u32(1 if a["on"] else 0)
    if op in ("bad", "nop"):
        return a["cmd"], b(a["raw"])
    raise CheckError("no such operation " + op)


def dec_cdt(p):
    t = tdecode(struct.unpack("<I", p[:4])[0])
    s = p[4:].split(b"\0")[0].decode("latin-1")
    parts = s.split(":")
    ms = []
    for m in parts[1:]:
        x = m.split(",")
        ms.append({"name": x[0], "tname": x[1] if len(x) > 1 else "", "count": int(x[2]) if len(x) > 2 else -1})
    return {"t": t, "name": parts[0], "members": ms}


def answer(op, p):
    """(choice, value) decoded from the payload of a positive answer"""
    if op in ("add",):
        i = clip(struct.unpack("<I", p[:4])[0]) if len(p) >= 4 else -1
        return i, i
    if op in ("evadd", "mapadd", "grpadd"):
        i = clip(struct.unpack("<I", p[:4])[0]) if len(p) >= 4 else -1
        return i, i
    if op == "cdtnew":
        t = tdecode(struct.unpack("<I", p[:4])[0])
        return t, t
    if op == "del":
        return 0, (struct.unpack("<I", p[:4])[0] if len(p) >= 4 else -1)
    if op in ("getn", "geti"):
        i, t, c, at = struct.unpack("<IIIH", p[:14])
        nm = p[14:].split(b"\0")[0].decode("latin-1")
        return 0, {"idx": clip(i), "t": tdecode(t), "count": clip(c), "name": nm, "ro": bool(at & 1), "own": bool(at & 0x20),
                   "ret": bool(at & 4), "ovr": bool(at & 0x4000), "oset": bool(at & 8)}
    if op in ("cdtn", "cdtt"):
        return 0, dec_cdt(p)
    if op == "mapget":
        return 0, {"src": dec_handle(p[0:21]), "dst": dec_handle(p[21:42])}
    if op in ("read", "grpread", "ovrget"):
        return 0, list(p)
    return 0, []


class Died(Exception):
    """The server is gone or does not answer."""


class Conn:
    """One connection.  Requests are answered in order; events come in between."""

    def __init__(self, srv, tcp=False):
        self.srv = srv
        self.tcp = tcp
        self.busy = False       # part of a request was sent
        if tcp:
            self.s = socket.create_connection(("127.0.0.1", srv.port), timeout=srv.timeout)
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        else:
            self.s = socket.socket(socket.AF_UNIX)
            self.s.settimeout(srv.timeout)
            for k in range(50):
                try:
                    self.s.connect(srv.sock)
                    break
                except (BlockingIOError, ConnectionRefusedError):
                    if not srv.alive():
                        raise Died("connect")
                    time.sleep(0.02)
        self.buf = b""
        self.events = []
        self.closed = False

    def raw(self, data):
        try:
            self.s.sendall(data)
        except (BrokenPipeError, ConnectionResetError):
            self.closed = True
        except socket.timeout:
            raise Died("send timed out")

    @staticmethod
    def frame(cmd, payload):
        return struct.pack(">II", len(payload) + 8, cmd) + payload

    def send(self, cmd, payload):
        self.raw(self.frame(cmd, payload))

    def _parse(self):
        if len(self.buf) < 8:
            return None
        size, cmd = struct.unpack(">II", self.buf[:8])
        if size > 4088:
            raise Died("answer with a size of %d" % size)
        if len(self.buf) < 8 + size:
            return None
        p = self.buf[8:8 + size]
        self.buf = self.buf[8 + size:]
        return cmd, p

    def _event(self, cmd, p):
        i, d = struct.unpack(">II", p[:8])
        self.events.append({"idx": clip(i), "id": clip(d), "et": EVN.get(cmd & 0xFFFF, "?%d" % (cmd & 0xFFFF)), "data": list(p[8:])})

    def drain(self):
        """take in what has already arrived"""
        while not self.closed:
            r, _, _ = select.select([self.s], [], [], 0)
            if not r:
                break
            try:
                d = self.s.recv(65536)
            except (ConnectionResetError, BrokenPipeError):
                d = b""
            if not d:
                self.closed = True
                break
            self.buf += d
        while True:
            m = self._parse()
            if m is None:
                break
            if m[0] & EVENT:
                self._event(*m)
            else:
                raise Died("an answer nobody asked for: %x" % m[0])

    def recv(self, timeout=None):
        """the next answer: (cmd, payload); None when the connection is closed"""
        end = time.monotonic() + (timeout or self.srv.timeout)
        while True:
            m = self._parse()
            if m is not None:
                if m[0] & EVENT:
                    self._event(*m)
                    continue
                return m
            if self.closed:
                return None
            left = end - time.monotonic()
            if left <= 0:
                raise Died("no answer")
            r, _, _ = select.select([self.s], [], [], left)
            if r:
                try:
                    d = self.s.recv(65536)
                except (ConnectionResetError, BrokenPipeError):
                    d = b""
                if not d:
                    self.closed = True
                else:
                    self.buf += d

    def call(self, cmd, payload):
        """(ok, error, payload)"""
        self.send(cmd, payload)
        m = self.recv()
        if m is None:
            raise Died("connection closed by the server")
        return self.judge(cmd, m)

    @staticmethod
    def judge(cmd, m):
        if m[0] & 0xFFFF != cmd & 0xFFFF:
            raise Died("answer to command %x for request %x" % (m[0], cmd))
        if m[0] & ERROR:
            return False, struct.unpack("<i", m[1][:4])[0], b""
        if not m[0] & RESPONSE:
            raise Died("answer without response flag %x" % m[0])
        return True, 0, m[1]

    def close(self):
        self.closed = True
        self.s.close()


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Server:
    def __init__(self, exe, cwd=None, config="", exclude=None, env=None, timeout=20, wrapper=()):
        self.exe, self.timeout = exe, timeout
        self.dir = cwd or scratch("daxsrv")
        self.sock = os.path.join(self.dir, "s")
        self.conf = os.path.join(self.dir, "tagserver.conf")
        with open(self.conf, "w") as f:
            f.write(config)
        self.exclude, self.env, self.wrapper = exclude, env or {}, list(wrapper)
        self.p = None
        self.retry = None
        self.start()

    def start(self):
        for attempt in range(5):
            self.port = free_port()
            for f in glob.glob(os.path.join(self.dir, "san.*")):
                os.unlink(f)
            if os.path.exists(self.sock):
                os.unlink(self.sock)
            env = dict(os.environ)
            env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:"
                                   "max_malloc_fill_size=4096:malloc_fill_byte=189:max_free_fill_size=4096:free_fill_byte=205:"
                                   "log_path=" + os.path.join(self.dir, "san"))
            env.update(self.env)
            args = self.wrapper + [self.exe, "-C", self.conf, "-S", self.sock, "-I", "127.0.0.1", "-P", str(self.port)]
            if self.exclude:
                args += ["-X", self.exclude]
            self.log = open(os.path.join(self.dir, "log"), "ab")
            self.p = subprocess.Popen(args, cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log,
                                      preexec_fn=with_parent)
            end = time.monotonic() + 30
            while time.monotonic() < end:
                if self.p.poll() is not None:
                    break
                if os.path.exists(self.sock):
                    try:
                        s = socket.socket(socket.AF_UNIX)
                        s.connect(self.sock)
                        s.settimeout(self.timeout)
                        s.sendall(struct.pack(">II", 13, TAG_GET) + b"\x02" + u32(0))
                        ok = bool(s.recv(4096))
                        s.close()
                        if ok:
                            return
                    except OSError:
                        pass
                time.sleep(0.005)
            rep = self.report()
            if self.retry and self.p.poll() is not None:
                self.kill()
                self.retry()
                continue
            self.kill()
            if rep:
                raise Died("server did not start: " + rep)
        raise Died("server did not start")

    def alive(self):
        return self.p is not None and self.p.poll() is None

    def ended(self):
        """exit status, waiting a moment for it"""
        try:
            return self.p.wait(2) if self.p else None
        except subprocess.TimeoutExpired:
            return None

    def report(self):
        """what went wrong inside the server process, if anything"""
        out = ""
        for f in glob.glob(os.path.join(self.dir, "san.*")):
            with open(f, errors="replace") as fh:
                t = fh.read()
            lines = [l for l in t.splitlines() if "ERROR" in l or l.strip().startswith("#")][:6]
            out += " | ".join(lines)
        rc = self.p.poll() if self.p else None
        if rc is not None:
            out = "exit status %s %s" % (rc, out)
        return out

    def kill(self, sig=signal.SIGKILL):
        if self.p is not None:
            if self.p.poll() is None:
                self.p.send_signal(sig)
                try:
                    self.p.wait(15)
                except subprocess.TimeoutExpired:
                    self.p.kill()
                    self.p.wait()
            self.p = None
            self.log.close()

    def end(self):
        self.kill()
        shutil.rmtree(self.dir, ignore_errors=True)

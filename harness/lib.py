"""Clients that use the real client library: each is a process of its own that
runs libdrv.  LibWorld records what they do as steps of the specification."""
import os, re, select, subprocess
from world import *

NOTAG = {"idx": -1, "t": T("?", -1), "count": -1, "name": "", "ro": False, "own": False, "ret": False, "ovr": False, "oset": False}
NOH = H(-1, 0, 0, 0, 0, T("?", -1))
NOADDR = {"name": "", "sub": -1, "path": [], "bit": -1, "count": 0, "bad": True}


def hx(b):
    b = bytes(b)
    return b.hex() if b else "-"


def unhx(s):
    return [] if s == "-" else list(bytes.fromhex(s))


def hstr(h):
    return "%d:%d:%d:%d:%d:%d" % (h["idx"], h["byte"], h["bit"], h["count"], h["size"], tcode(h["t"]))


def hval(s):
    i, by, bit, c, z, t = [int(x) for x in s.split(":")]
    return H(clip(i), clip(by), bit, clip(c), clip(z), tdecode(t))


def address(name, sub=-1, path=(), bit=-1, count=0, bad=False, text=None):
    a = {"name": name, "sub": min(sub, CLIP), "path": [{"m": m, "i": min(i, CLIP)} for m, i in path], "bit": min(bit, CLIP), "count": count, "bad": bad}
    if text is None:
        text = name + ("[%d]" % sub if sub >= 0 else "") + "".join("." + m + ("[%d]" % i if i >= 0 else "") for m, i in path) + \
            (".%d" % bit if bit >= 0 else "")
    a["text"] = text
    return a


def parse_address(text):
    """take an address apart (for comparing what dax_fqn says)"""
    parts = text.split(".")
    bit = -1
    out = []
    if len(parts) > 1 and parts[-1].isdigit():
        bit = int(parts.pop())
    for p in parts:
        m = re.match(r"^([A-Za-z_][A-Za-z0-9_]*)(?:\[(\d+)\])?$", p)
        if not m:
            return dict(NOADDR, name=text)
        out.append((m.group(1), int(m.group(2)) if m.group(2) else -1))
    return {"name": out[0][0], "sub": out[0][1], "path": [{"m": m, "i": i} for m, i in out[1:]], "bit": bit, "count": 0, "bad": False}


class LibConn:
    """one connection of a driver process"""
    tcp = False

    def __init__(self, drv, srv, tcp=False, opts=()):
        self.srv = srv
        self.busy = self.closed = False
        self.events = []
        self.buf = b""
        self.errf = open(os.path.join(srv.dir, "drv.err"), "ab")
        env = dict(os.environ)
        self.san = os.path.join(srv.dir, "drvsan")
        env["ASAN_OPTIONS"] = "detect_leaks=0:detect_odr_violation=0:exitcode=97:log_path=" + self.san
        env["TSAN_OPTIONS"] = "exitcode=66:report_signal_unsafe=0:log_path=" + self.san
        a = ["-S", "NET", "-I", "127.0.0.1", "-P", str(srv.port)] if tcp else ["--server", "LOCAL", "-U", srv.sock]
        self.p = subprocess.Popen([drv] + a + ["--msgtimeout", "10000"] + list(opts), cwd=srv.dir, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.errf, preexec_fn=with_parent)
        self.groups = {}

    def why(self, what):
        time.sleep(.1)
        rep = ""
        for f in glob.glob(self.san + "*"):
            with open(f, errors="replace") as fh:
                rep += " | ".join([l for l in fh.read().splitlines() if "ERROR" in l or "WARNING" in l or l.strip().startswith("#")][:6])
        return "%s: the library client ended with %s %s" % (what, self.p.poll(), rep)

    def line(self, timeout=30):
        end = time.monotonic() + timeout
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                raise Died("a call of the library did not return")
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                d = os.read(self.p.stdout.fileno(), 1 << 16)
                if not d:
                    self.closed = True
                    raise Died(self.why("end of output"))
                self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode("latin-1")

    def put(self, text):
        try:
            self.p.stdin.write(text.encode() + b"\n")
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self.closed = True
            raise Died(self.why(text[:80]))

    conn = "x"

    def cmd(self, text, conn=None):
        """(return code, words)"""
        self.put((conn or self.conn) + " " + text)
        w = self.line().split(" ")
        return int(w[0]), [x for x in w[1:] if x]

    def myname(self):
        rc, w = self.cmd("read 10 0 33")
        return bytes(unhx(w[0])).split(b"\0")[0] if rc == 0 else None

    def call(self, cmd, payload):
        """only used as a fence"""
        self.cmd("read 0 0 4")
        return True, 0, b""

    def drain(self):
        if self.closed:
            return
        rc, w = self.cmd("poll 1")
        self.events += events(w)

    def close(self):
        if self.p.poll() is None:
            try:
                self.p.stdin.close()
                self.p.wait(3)
            except (subprocess.TimeoutExpired, OSError):
                self.p.kill()
                self.p.wait()
        self.closed = True
        self.errf.close()
        self.p.stdout.close()


def events(w):
    out = []
    for x in w:
        if x[0] == "!":
            out.append({"idx": -1, "id": -1, "et": "undispatchable " + x[1:], "data": []})
            continue
        i, d, et, rc, data = x.split(",")
        rc = int(rc)
        out.append({"idx": clip(int(i)), "id": int(d), "et": EVN.get(int(et), "?") if rc in (0, -20) or rc > 0 else "data %d" % rc,
                    "data": unhx(data) if rc > 0 else []})
    return out


class LibWorld(World):
    def __init__(self, exe, label="", seed=0, drv=None, **kw):
        super().__init__(exe, label, seed, **kw)
        self.drv, self.lib = drv, True
        self.connect("Z")           # an observer on the wire

    def islib(self, c):
        return isinstance(self.cl.get(c), LibConn)

    def join(self, c, name=None, tcp=False, opts=()):
        if c == "Z" or c.startswith("w"):
            return super().join(c, name, tcp)
        if self.broken:
            return
        name = name or c
        try:
            k = LibConn(self.drv, self.srv, tcp or self.tcp, opts)
            rc, _ = k.cmd("connect " + hx(name.encode()))
            if rc:
                k.close()
                raise Died("dax_connect() = %d" % rc)
            self.cl[c] = k
            self.joined(c, name)
        except Died as x:
            self.fail(c, "register", {}, str(x))

    def joined(self, c, name):
        try:
            k = self.cl[c]
            t1 = int(time.time() * 1000) + 2500
            z = self.cl["Z"]
            nm = k.myname()
            o = {"has": False, "idx": -1, "name": "", "chars": [], "data": [], "timeok": True}
            if nm is not None:
                ok3, e3, p3 = z.call(TAG_GET, b"\x01" + nm + b"\0")
                o.update(has=True, name=nm.decode("latin-1"), chars=list(nm), timeok=False)
                if ok3:
                    i = struct.unpack("<I", p3[:4])[0]
                    ok4, e4, p4 = z.call(TAG_READ, u32(i) + u32(0) + u32(78))
                    st = struct.unpack("<q", p4[:8])[0] if ok4 else 0
                    o.update(idx=clip(i), data=list(p4), timeok=t1 - 60000 <= st <= t1)
            self.rec(c, "connect", {}, 0, True, 0, [], [])
            self.rec(c, "register", {"name": name, "chars": chars(name), "excluded": False}, o, True, 0, [], self.collect())
        except Died as x:
            self.fail(c, "register", {}, str(x))

    def leave(self, c):
        if self.broken:
            return
        if not self.islib(c):
            return super().leave(c)
        try:
            k = self.cl.pop(c)
            rc, _ = k.cmd("disc")
            if rc:
                raise Died("dax_disconnect() = %d" % rc)
            k.cmd("free")
            k.close()
            self.fence(n=3)
            self.rec(c, "ldisconnect", {}, 0, True, 0, [], self.collect())
        except Died as x:
            self.fail(c, "disconnect", {}, str(x))

    def rejoin(self, c, name=None):
        """disconnect and connect again with the same dax_state"""

    def do(self, c, op, a, fence=True):
        if not self.islib(c):
            return super().do(c, op, a, fence)
        if self.broken or self.down:
            return False, None
        k = self.cl[c]
        try:
            r = self.libcall(k, op, a)
            if r is None:
                return False, None          # not expressible
            op, a, ok, e, o, v = r
            self.rec(c, op, a, o, ok, e, v, self.collect())
            if not self.srv.alive():
                raise Died("server ended")
            return ok, v
        except Died as x:
            self.fail(c, op, a, str(x))
            return False, None

    def libcall(self, k, op, a):
        """(op, a, ok, e, o, v) or None"""
        def simple(text, op2=None):
            rc, w = k.cmd(text)
            return (op2 or op, a, rc == 0, rc, 0, [])
        if op == "add":
            if not -0x80000000 <= a["count"] <= 0x7FFFFFFF or 0 in a["chars"]:
                return None
            at = a["attr"]
            bits = (4 if at["ret"] else 0) | (0x20 if at["own"] else 0) | (1 if at["ro"] else 0)
            rc, w = k.cmd("add %s %d %d %d" % (hx(a["chars"]), tcode(a["t"]), a["count"], bits))
            h = hval(w[0])
            return "ladd", a, rc == 0, rc, (h["idx"] if rc == 0 else -1), (h if rc == 0 else [])
        if op == "del":
            return simple("del %d" % a["idx"], "ldel")
        if op in ("getn", "geti"):
            rc, w = k.cmd("byname " + hx(a["name"].encode("latin-1")) if op == "getn" else "byindex %d" % a["idx"])
            v = []
            if rc == 0:
                at = int(w[3])
                v = {"idx": clip(int(w[0])), "t": tdecode(int(w[1])), "count": clip(int(w[2])), "name": bytes(unhx(w[4])).decode("latin-1"),
                     "ro": bool(at & 1), "own": bool(at & 0x20), "ret": bool(at & 4), "ovr": bool(at & 0x4000), "oset": bool(at & 8)}
            return "l" + op, a, rc == 0, rc, (v or NOTAG), v
        if op == "lhandle":
            rc, w = k.cmd("handle %s %d" % (hx(a["text"].encode("latin-1")), a["count"]))
            h = hval(w[0])
            if rc and tuple(h[x] for x in ("idx", "byte", "bit", "count", "size")) != (0, 0, 0, 0, 0):
                raise Died("a refused handle is not cleared")
            return op, a, rc == 0, rc, (h if rc == 0 else NOH), (h if rc == 0 else [])
        if op == "lfqn":
            rc, w = k.cmd("fqn " + hstr(a["h"]))
            v = parse_address(bytes(unhx(w[0])).decode("latin-1")) if rc == 0 else []
            return op, a, rc == 0, rc, (v or NOADDR), v
        if op == "read":
            if a["size"] < 0 or a["off"] < 0 or a["size"] > 100000:
                return None
            rc, w = k.cmd("read %d %d %d" % (a["idx"], a["off"], a["size"]))
            return "lread", a, rc == 0, rc, 0, (unhx(w[0]) if rc == 0 else [])
        if op == "write":
            if a["off"] < 0:
                return None
            return simple("write %d %d %s" % (a["idx"], a["off"], hx(a["data"])), "lwrite")
        if op == "mwrite":
            if a["off"] < 0:
                return None
            return simple("mask %d %d %s %s" % (a["idx"], a["off"], hx(a["data"]), hx(a["mask"])), "lmwrite")
        if op == "tread":
            rc, w = k.cmd("tread " + hstr(a["h"]))
            return op, a, rc == 0, rc, 0, (unhx(w[0]) if rc == 0 else [])
        if op == "twrite":
            return simple("twrite %s %s" % (hstr(a["h"]), hx(a["data"])))
        if op == "tmask":
            return simple("tmask %s %s %s" % (hstr(a["h"]), hx(a["data"]), hx(a["mask"])))
        if op == "lovradd":
            return simple("ovradd %s %s" % (hstr(a["h"]), hx(a["data"])))
        if op == "lovrdel":
            return simple("ovrdel " + hstr(a["h"]))
        if op == "ovrset":
            return simple("%s %d:0:0:1:1:3" % ("ovrset" if a["on"] else "ovrclr", a["idx"]))
        if op == "ovrget":
            if a["size"] <= 0 or a["off"] < 0 or a["size"] > 2044:
                return None
            rc, w = k.cmd("ovrget %d:%d:0:%d:%d:3" % (a["idx"], a["off"], a["size"], a["size"]))
            return op, a, rc == 0, rc, 0, (unhx(w[0]) + unhx(w[1]) if rc == 0 else [])
        if op == "atomic":
            if len(a["data"]) != a["h"]["size"]:
                return None
            return simple("atomic %s %d %s" % (hstr(a["h"]), AOP.get(a["aop"], 77), hx(a["data"])), "latomic")
        if op == "evadd":
            z = SIZES.get(a["h"]["t"]["b"], 0)
            if a["val"] and len(a["val"]) < z:
                return None
            rc, w = k.cmd("evadd %s %d %s" % (hstr(a["h"]), EV.get(a["et"], 99), hx(a["val"])))
            i = int(w[1]) if rc == 0 else -1
            return op, a, rc == 0, rc, i, (i if rc == 0 else [])
        if op == "evdel":
            rc, w = k.cmd("evdel %d %d" % (a["idx"], a["id"]))
            return "levdel", a, rc == 0, rc, 0, (int(w[0]) if rc == 0 else [])
        if op == "evopt":
            return simple("evopt %d %d %d" % (a["idx"], a["id"], 1 if a["send"] else 0))
        if op == "cdtnew":
            if a["bad"]:
                return None
            s = "cdtnew " + hx(a["chars"])
            for m in a["members"]:
                t = self.typecode(k, m["tlow"])
                s += " %s %d %d" % (hx(m["chars"]), t, m["count"])
            rc, w = k.cmd(s)
            t = tdecode(int(w[0]))
            return op, a, rc == 0, (-99 if rc == -20 else rc), (t if rc == 0 else T("?", -1)), (t if rc == 0 else [])
        if op == "mapadd":
            rc, w = k.cmd("mapadd %s %s" % (hstr(a["src"]), hstr(a["dst"])))
            i = int(w[1]) if rc == 0 else -1
            return op, a, rc == 0, rc, i, (i if rc == 0 else [])
        if op == "mapdel":
            return simple("mapdel %d %d" % (a["idx"], a["id"]))
        if op == "mapget":
            rc, w = k.cmd("mapget %d %d" % (a["idx"], a["id"]))
            return op, a, rc == 0, rc, 0, ({"src": hval(w[0]), "dst": hval(w[1])} if rc == 0 else [])
        if op == "grpadd":
            rc, w = k.cmd("grpadd %d %s" % (len(a["hs"]), " ".join(hstr(h) for h in a["hs"])))
            i = int(w[0]) if rc == 0 else -1
            if rc == 0:
                k.groups[i] = int(w[1])
                if k.groups[i] != sum(h["size"] for h in a["hs"]):
                    raise Died("dax_group_get_size() = %d" % k.groups[i])
            return op, a, rc == 0, rc, i, (i if rc == 0 else [])
        if op in ("grpread", "grpwrite", "grpdel"):
            if a["id"] not in k.groups or (op == "grpwrite" and len(a["data"]) != k.groups[a["id"]]):
                return None
            rc, w = k.cmd("%s %d%s" % (op, a["id"], " " + hx(a["data"]) if op == "grpwrite" else ""))
            if op == "grpdel" and rc == 0:
                k.groups.pop(a["id"])
            return op, a, rc == 0, rc, 0, (unhx(w[0]) if op == "grpread" and rc == 0 else [])
        if op == "liter":
            rc, w = k.cmd("cdtiter %d" % tcode(a["t"]))
            v = []
            for x in w:
                n, t, c, by, bi = x.split(",")
                v.append({"name": bytes.fromhex(n).decode("latin-1"), "t": tdecode(int(t)), "count": int(c), "byte": int(by), "bit": int(bi)})
            rc2, _ = k.cmd("cdtcount %d" % tcode(a["t"]))
            if rc == 0 and rc2 != len(v):
                raise Died("dax_cdt_member_count() = %d" % rc2)
            return op, a, rc == 0, rc, 0, v
        if op == "literall":
            rc, w = k.cmd("cdtiter 0")
            v = []
            for x in w:
                n, t, c, by, bi = x.split(",")
                v.append({"name": bytes.fromhex(n).decode("latin-1"), "t": tdecode(int(t))})
            return op, a, rc == 0, rc, 0, v
        if op == "ltypesize":
            rc, w = k.cmd("typesize %d" % tcode(a["t"]))
            return op, a, rc >= 0, rc, 0, (rc if rc >= 0 else [])
        if op == "ltypename":
            rc, w = k.cmd("t2s %d" % tcode(a["t"]))
            return op, a, rc == 0, rc, 0, (bytes(unhx(w[0])).decode("latin-1") if rc == 0 else [])
        if op == "ltypenumber":
            rc, w = k.cmd("s2t " + hx(a["name"].encode("latin-1")))
            c = int(w[0])
            return op, a, c != 0, 0, 0, (tdecode(c) if c else [])
        if op == "v2s":
            rc, w = k.cmd("v2s %d %d %d %s" % (tcode(a["t"]), a["i"], a["size"], hx(a["buf"])))
            return op, a, rc == 0, rc, 0, unhx(w[0])
        if op == "s2v":
            rc, w = k.cmd("s2v %d %d %s %s %s" % (tcode(a["t"]), a["i"], hx(a["text"]), hx(a["buf"]), hx(a["mask"])))
            return op, a, True, 0, 0, {"rc": rc, "buf": unhx(w[0]), "mask": unhx(w[1])}
        if op == "back":            # to text and back, into a block that held something else
            t, i = tcode(a["t"]), a["i"]
            rc, w = k.cmd("v2s %d %d 64 %s" % (t, i, hx(a["buf"])))
            rc2, w2 = k.cmd("s2v %d %d %s %s -" % (t, i, w[0], hx([x ^ 255 for x in a["buf"]])))
            b = unhx(w2[0])
            z = SIZES.get(a["t"]["b"], 0)
            return op, a, rc == 0 and rc2 == 0, rc or rc2, 0, ([b[i // 8] >> i % 8 & 1] if a["t"]["b"] == "BOOL" else b[i * z:i * z + z])
        if op == "ev2s":
            rc, w = k.cmd("ev2s %d" % a["n"])
            return op, a, True, 0, 0, (bytes(unhx(w[0])).decode("latin-1") if rc == 0 else "")
        if op == "s2ev":
            rc, w = k.cmd("s2ev " + hx(a["name"].encode("latin-1")))
            return op, a, True, 0, 0, rc
        return None

    def typecode(self, k, low):
        if low.upper() in CODES:
            return CODES[low.upper()]
        rc, w = k.cmd("s2t " + hx(low.encode("latin-1")))
        return int(w[0]) or 0x7777

    # -- shorthands --------------------------------------------------------
    def add(self, c, *a, **k):
        v = super().add(c, *a, **k)
        return v["idx"] if isinstance(v, dict) else v

    def handle(self, c, name, sub=-1, path=(), bit=-1, count=0, bad=False, text=None):
        ok, v = self.do(c, "lhandle", address(name, sub, path, bit, count, bad, text))
        return v if ok else None

    def fqn(self, c, h):
        return self.do(c, "lfqn", {"h": h})

    def tread(self, c, h):
        return self.do(c, "tread", {"h": h})

    def twrite(self, c, h, data):
        return self.do(c, "twrite", {"h": h, "data": list(data)})[0]

    def tmask(self, c, h, data, mask):
        return self.do(c, "tmask", {"h": h, "data": list(data), "mask": list(mask)})[0]

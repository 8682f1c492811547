"""Runs operations of the specification on a real tag server and records what
happened as a trace: a list of steps {c, op, a, o, ok, e, v, n}."""
import json, random
from wire import *


def chars(s):
    return [ord(x) for x in s]


def H(idx, byte, bit, count, size, t):
    return {"idx": idx, "byte": byte, "bit": bit, "count": count, "size": size, "t": t}


NOATTR = {"ret": False, "own": False, "ro": False}
NOOBS = {"add": -1, "evadd": -1, "mapadd": -1, "grpadd": -1, "cdtnew": T("?", -1)}


class World:
    def __init__(self, exe, label="", seed=0, server=None, **kw):
        self.srv = server or Server(exe, **kw)
        self.own_server = server is None
        self.cl = {}
        self.steps = []
        self.label, self.seed = label, seed
        self.rnd = random.Random(seed)
        self.broken = None
        self.tcp = self.ended = self.lib = False
        self.crashing = self.down = False      # the server is meant to end
        self.pending = []

    # -- recording ---------------------------------------------------------
    def collect(self):
        out = []
        for n, c in self.cl.items():
            if c.tcp and not c.busy and not c.closed:
                c.call(TAG_GET, b"\x02" + u32(0))     # TCP may hold notifications back for a while
            c.drain()
            if c.events:
                out.append({"c": n, "l": c.events})
                c.events = []
        return out

    def rec(self, c, op, a, o, ok, e, v, n):
        self.steps.append({"c": c, "op": op, "a": a, "o": o, "ok": ok, "e": e, "v": v, "n": n})

    def fail(self, c, op, a, why):
        """the server died or did not answer: no step of the specification"""
        if not self.srv.alive():
            time.sleep(0.1)
        rep = self.srv.report()
        self.broken = why + ((" [" + rep + "]") if rep else "")
        self.rec(c, "noanswer", {"why": self.broken, "op": op, "a": a}, 0, False, 0, [], [])

    def fence(self, c=None, n=1):
        """the server has finished everything that was asked before"""
        k = self.cl[c] if c in self.cl and not self.cl[c].closed else None
        if k is None:
            live = [x for x in self.cl.values() if not x.closed]
            if not live:
                return
            k = live[0]
        for _ in range(n):
            k.call(TAG_GET, b"\x02" + u32(0))

    def do(self, c, op, a, fence=True):
        """perform one operation; returns (ok, value)"""
        if self.broken or self.down:
            return False, None
        try:
            cmd, p = request(op, a)
            if len(p) > 4088:
                return False, None         # can't be sent
            ok, e, body = self.cl[c].call(cmd, p)
            if ok:
                try:
                    o, v = answer(op, body)
                except (struct.error, ValueError, IndexError) as x:
                    raise Died("undecodable answer %r" % body[:60])
            else:
                o, v = NOOBS.get(op, 0), []
            if fence:
                self.fence(c)
            self.rec(c, op, a, o, ok, e, v, self.collect())
            if not self.srv.alive():
                raise Died("server ended")
            return ok, v
        except Died as x:
            if self.crashing and self.srv.ended() == -9:
                self.down = True
                self.pending = [{"c": c, "op": op, "a": a}]
                return False, None
            self.fail(c, op, a, str(x))
            return False, None

    def restart(self, between=None, sig=signal.SIGKILL, pending=None):
        """end the server, if it has not ended yet, and start it again in the same
        directory; look at everything it has then"""
        if self.broken:
            return
        pend = self.pending if pending is None else pending
        for c in self.cl.values():
            try:
                c.close()
            except OSError:
                pass
        self.cl = {}
        self.srv.kill(sig)
        if between:
            between()
        try:
            self.srv.start()
            k = Conn(self.srv)
            o = self.look(k)
            k.close()
        except Died as x:
            self.fail("-", "restart", {}, str(x))
            return
        self.down, self.pending = False, []
        self.rec("-", "restart", {"pending": pend}, o, True, 0, [], [])
        return o

    def look(self, k):
        def ask(op, a):
            cmd, p = request(op, a)
            ok, e, b = k.call(cmd, p)
            return (ok, answer(op, b)[1] if ok else None)
        types, n = [], 2
        byname = {}
        while True:
            ok, v = ask("cdtt", {"t": T("CDT", n)})
            if not ok:
                break
            ms = [{"name": m["name"], "low": m["name"].lower(), "count": m["count"],
                   "t": T(m["tname"]) if m["tname"] in CODES else T("CDT", byname.get(m["tname"].lower(), -1))} for m in v["members"]]
            types.append({"n": n, "name": v["name"], "low": v["name"].lower(), "members": ms})
            byname[v["name"].lower()] = n
            n += 1
        self.types = {}
        for t in types:
            pos = 0
            for m in t["members"]:
                if m["t"]["b"] == "BOOL":
                    pos += m["count"]
                else:
                    z = self.types.get(m["t"]["n"], 0) if m["t"]["b"] == "CDT" else SIZES[m["t"]["b"]]
                    pos = (pos + 7) // 8 * 8 + 8 * z * m["count"]
            self.types[t["n"]] = (pos + 7) // 8
        ok, d = ask("read", {"idx": 1, "off": 0, "size": 4})
        last = int.from_bytes(bytes(d), "little") if ok else 10
        tags, extra = [], 0
        for i in range(11, min(last, 5000) + 2):
            ok, v = ask("geti", {"idx": i})
            if not ok:
                continue
            nb = self.bytes_of(v["t"], v["count"])
            data, off = [], 0
            while nb is not None and off < nb:
                ok, d = ask("read", {"idx": i, "off": off, "size": min(nb - off, 4000)})
                if not ok:
                    break
                data += d
                off += len(d)
            ok, u = ask("getn", {"name": v["name"]})
            if not ok or u != v or v["idx"] != i:
                extra += 1
            tags.append({"idx": i, "name": v["name"], "chars": chars(v["name"]), "t": v["t"], "count": v["count"],
                         "data": data, "ret": v["ret"], "ro": v["ro"], "own": v["own"]})
        return {"types": types, "tags": tags, "extra": extra}

    # -- connections -------------------------------------------------------
    def connect(self, c, tcp=False):
        if self.broken or self.down:
            return
        try:
            self.cl[c] = Conn(self.srv, tcp or self.tcp)
            self.fence(c)
            self.rec(c, "connect", {}, 0, True, 0, [], self.collect())
        except (Died, OSError) as x:
            self.fail(c, "connect", {}, str(x))

    def register(self, c, name, excluded=False, flags=1):
        if self.broken or self.down:
            return False
        a = {"name": name, "chars": chars(name), "excluded": excluded}
        k = self.cl[c]
        try:
            t0 = int(time.time() * 1000) - 1500
            ok, e, p = k.call(MOD_REG, struct.pack(">II", 1000, flags) + name.encode("latin-1") + b"\0")
            t1 = int(time.time() * 1000) + 1500
            o = {"has": False, "idx": -1, "name": "", "chars": [], "data": [], "timeok": True}
            if ok:
                ok2, e2, p2 = k.call(TAG_READ, u32(10) + u32(0) + u32(33))
                if ok2:
                    nm = p2.split(b"\0")[0]
                    ok3, e3, p3 = k.call(TAG_GET, b"\x01" + nm + b"\0")
                    if ok3:
                        i = struct.unpack("<I", p3[:4])[0]
                        ok4, e4, p4 = k.call(TAG_READ, u32(i) + u32(0) + u32(78))
                        st = struct.unpack("<q", p4[:8])[0] if ok4 else 0
                        o = {"has": True, "idx": clip(i), "name": nm.decode("latin-1"), "chars": list(nm),
                             "data": list(p4), "timeok": t0 <= st <= t1}
                    else:
                        o["name"], o["has"], o["timeok"] = nm.decode("latin-1"), True, False
            self.fence(c)
            self.rec(c, "register", a, o, ok, e, [], self.collect())
            self.modtag = o["idx"]
            return ok
        except Died as x:
            self.fail(c, "register", a, str(x))
            return False

    def join(self, c, name=None, tcp=False):
        self.connect(c, tcp)
        self.register(c, name or c)

    def leave(self, c):
        """close the connection"""
        if self.broken or self.down:
            return
        try:
            self.cl[c].drain()
            self.cl.pop(c).close()
            self.fence(n=3)
            self.rec(c, "disconnect", {}, 0, True, 0, [], self.collect())
        except Died as x:
            self.fail(c, "disconnect", {}, str(x))

    # -- shorthands --------------------------------------------------------
    def add(self, c, name, t, count=1, ret=False, own=False, ro=False):
        if isinstance(t, str):
            t = T(t)
        ok, v = self.do(c, "add", {"name": name, "chars": chars(name), "t": t, "count": count,
                                   "attr": {"ret": ret, "own": own, "ro": ro}})
        return v if ok else None

    def read(self, c, idx, off, size):
        ok, v = self.do(c, "read", {"idx": idx, "off": off, "size": size})
        return v if ok else None

    def write(self, c, idx, off, data):
        return self.do(c, "write", {"idx": idx, "off": off, "data": list(data)})[0]

    def mwrite(self, c, idx, off, data, mask):
        return self.do(c, "mwrite", {"idx": idx, "off": off, "data": list(data), "mask": list(mask)})[0]

    def geti(self, c, idx):
        return self.do(c, "geti", {"idx": idx})

    def getn(self, c, name):
        return self.do(c, "getn", {"name": name})

    def delete(self, c, idx):
        return self.do(c, "del", {"idx": idx})[0]

    def evadd(self, c, h, et, val=(), send=False):
        ok, v = self.do(c, "evadd", {"h": h, "et": et, "val": list(val)})
        if ok and send:
            self.do(c, "evopt", {"idx": h["idx"], "id": v, "send": True})
        return v if ok else None

    def evdel(self, c, idx, i):
        return self.do(c, "evdel", {"idx": idx, "id": i})[0]

    def cdt(self, c, name, members, bad=False, text=None):
        """members: (name, type name, count)"""
        if text is None:
            text = name + "".join(":%s,%s,%d" % m for m in members)
        ok, v = self.do(c, "cdtnew", {"name": name, "low": name.lower(), "chars": chars(name), "bad": bad, "text": text,
                                      "members": [{"name": m[0], "low": m[0].lower(), "chars": chars(m[0]),
                                                   "tlow": m[1].lower(), "count": min(m[2], CLIP)} for m in members]})
        return v if ok else None

    def mapadd(self, c, src, dst):
        ok, v = self.do(c, "mapadd", {"src": src, "dst": dst})
        return v if ok else None

    def grpadd(self, c, hs):
        ok, v = self.do(c, "grpadd", {"hs": hs})
        return v if ok else None

    def grpread(self, c, i):
        ok, v = self.do(c, "grpread", {"id": i})
        return v if ok else None

    def grpwrite(self, c, i, data):
        return self.do(c, "grpwrite", {"id": i, "data": list(data)})[0]

    def atomic(self, c, h, aop, data):
        return self.do(c, "atomic", {"h": h, "aop": aop, "data": list(data)})[0]

    def ovradd(self, c, idx, off, data, mask):
        return self.do(c, "ovradd", {"idx": idx, "off": off, "data": list(data), "mask": list(mask)})[0]

    def ovrdel(self, c, idx, off, mask):
        return self.do(c, "ovrdel", {"idx": idx, "off": off, "mask": list(mask)})[0]

    def ovrset(self, c, idx, on):
        return self.do(c, "ovrset", {"idx": idx, "on": on})[0]

    def ovrget(self, c, idx, off, size):
        return self.do(c, "ovrget", {"idx": idx, "off": off, "size": size})

    def status(self, c):
        """read all the status tags"""
        for i, n in ((0, 4), (1, 4), (2, 47), (3, 47), (4, 4), (5, 8), (6, 33), (7, 4), (8, 4)):
            self.read(c, i, 0, n)

    def dump(self, c, sizes=None, deep=True):
        """look at everything: every index, and the data of every live tag"""
        if self.broken:
            return
        self.status(c)
        d = self.read(c, 1, 0, 4)
        if d is None:
            return
        last = int.from_bytes(bytes(d), "little")
        for i in range(0, min(last, 5000) + 2):
            ok, v = self.geti(c, i)
            if self.broken:
                return
            if ok and deep:
                n = self.bytes_of(v["t"], v["count"])
                if n is None or v["t"]["q"] or i in (9, 10):
                    continue
                off = 0
                while off < n:
                    k = min(n - off, 4000)
                    self.read(c, i, off, k)
                    off += k

    types = None

    def bytes_of(self, t, count):
        if t["b"] == "BOOL":
            return (count - 1) // 8 + 1 if t["q"] else count // 8 + 1
        if t["b"] == "CDT":
            z = (self.types or {}).get(t["n"]) or {0: 78, 1: 47}.get(t["n"])
            return None if z is None else z * count
        if t["b"] == "?":
            return None
        return SIZES[t["b"]] * count

    def end(self):
        for c in self.cl.values():
            try:
                c.close()
            except OSError:
                pass
        self.cl = {}
        if self.own_server:
            rep = self.srv.report() if not self.srv.alive() else ""
            self.srv.end()

    def trace(self):
        return {"id": self.label, "steps": self.steps}

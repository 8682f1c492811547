"""Clients that are Lua scripts: each is an interpreter of its own that has
loaded the dax package of /repo.  LuaWorld records what they do as steps of the
specification."""
import struct
from lib import *

# values of a script: None, True, 5, 2.5, b"text", [(key, value), ...] with keys that are names or numbers
NOVAL = {"k": "nil", "b": [], "m": []}


def source(v):
    """as an expression of Lua"""
    if v is None:
        return "nil"
    if v is True or v is False:
        return "true" if v else "false"
    if isinstance(v, int):
        return "math.mininteger" if v == -1 << 63 else "(%d)" % v
    if isinstance(v, float):
        return "(%s)" % v.hex()
    if isinstance(v, (bytes, bytearray)):
        return '"' + "".join("\\%03d" % x for x in v) + '"'
    return "{" + ",".join("[%s]=%s" % (source(k.encode() if isinstance(k, str) else k), source(x)) for k, x in v) + "}"


def spec(v):
    """as the specification has it"""
    if v is None:
        return NOVAL
    if v is True or v is False:
        return {"k": "bool", "b": [int(v)], "m": []}
    if isinstance(v, int):
        return {"k": "int", "b": list(struct.pack("<q", v)), "m": []}
    if isinstance(v, float):
        return {"k": "num", "b": list(struct.pack("<d", v)), "m": []}
    if isinstance(v, (bytes, bytearray)):
        return {"k": "str", "b": list(v), "m": []}
    return {"k": "tab", "b": [], "m": [{"n": k if isinstance(k, str) else "", "i": -1 if isinstance(k, str) else clip(k), "v": spec(x)} for k, x in v]}


class Handle(dict):
    pass


def parse(s, p=0):
    """what the driver printed; (value, where it ends)"""
    def upto(stops):
        q = p + 1
        while q < len(s) and s[q] not in stops:
            q += 1
        return s[p + 1:q], q
    c = s[p]
    if c == "n":
        return None, p + 1
    if c in "tf":
        return c == "t", p + 1
    if c == "{":
        out = []
        p += 1
        while s[p] != "}":
            k, p = parse(s, p)
            v, p = parse(s, p + 1)
            p += 1
            out.append((k.decode("latin-1") if isinstance(k, bytes) else k, v))
        return out, p + 1
    x, q = upto("=;}")
    if c == "i":
        return int(x), q
    if c == "d":
        return struct.unpack("<d", bytes.fromhex(x))[0], q
    if c == "s":
        return bytes.fromhex(x), q
    if c == "h":
        return Handle(hval(x)), q
    raise Died("a script got a value of another kind: " + s[p:p + 30])


class LuaConn(LibConn):
    """one interpreter"""
    def __init__(self, drv, srv, tcp=False, opts=()):
        super().__init__(drv, srv, tcp, opts)
        self.cmd("H, EV, E, M, D = {}, {}, {}, {}, {}")
        self.keys = {}

    def cmd(self, text, conn=None):
        """(did it end without an error?, values)"""
        self.put(text)
        w = self.line().split(" ")
        return w[0] == "1", [parse(x)[0] for x in w[1:] if x]

    def myname(self):
        ok, v = self.cmd('return dax.tag_read("_my_tagname")')
        return v[0] if ok and len(v) == 1 and isinstance(v[0], bytes) else None

    def call(self, cmd, payload):
        """only used as a fence"""
        ok, v = self.cmd('return dax.tag_read("_tagcount")')
        if not ok:
            raise Died("reading _tagcount: %s" % v)
        return True, 0, b""

    def drain(self):
        if self.closed:
            return
        ok, v = self.cmd("EV = {} pcall(dax.tag_read, \"_tagcount\") repeat local ok, n = pcall(dax.event_poll) if not ok then EV[#EV + 1] = tostring(n) end until n == 0 return EV")
        if not ok:
            raise Died("dax.event_poll: %s" % v)
        for k, x in sorted(v[0]):
            if isinstance(x, bytes) and x.endswith(b"oops"):
                continue            # what a callback raised
            if x not in self.keys:
                self.events.append({"idx": -1, "id": -1, "et": "undispatchable %r" % x, "data": []})
            else:
                self.events.append(dict(self.keys[x], data=[]))


class LuaWorld(LibWorld):
    def join(self, c, name=None, tcp=False, opts=()):
        if c != "L" and not c.startswith("L"):
            return World.join(self, c, name, tcp)
        if self.broken or self.down:
            return
        name = name or c
        try:
            k = self.cl.get(c)
            if k is None:
                k = LuaConn(self.drv, self.srv, tcp or self.tcp, opts)
            ok, v = k.cmd("dax.init(%s)" % source(name.encode()))
            if not ok:
                k.close()
                raise Died("dax.init: %s" % v)
            self.cl[c] = k
            self.joined(c, name)
        except Died as x:
            self.fail(c, "register", {}, str(x))

    def leave(self, c):
        """the interpreter goes on without a connection"""
        if self.broken or not self.islib(c):
            return World.leave(self, c)
        try:
            k = self.cl.pop(c)
            ok, v = k.cmd("dax.free()")
            if not ok:
                raise Died("dax.free: %s" % v)
            self.idle = k
            k.keys = {}
            self.fence(n=3)
            self.rec(c, "ldisconnect", {}, 0, True, 0, [], self.collect())
        except Died as x:
            self.fail(c, "disconnect", {}, str(x))

    def back(self, c, name=None):
        """the same interpreter connects again"""
        if not self.broken:
            self.cl[c] = self.idle
            self.join(c, name)

    def end(self):
        k = getattr(self, "idle", None)
        if k is not None and not k.closed:
            k.close()
        super().end()

    # -- what scripts do ---------------------------------------------------
    def ref(self, a):
        """a tag: by its name or by a handle the script has"""
        return "H[%d]" % a["key"] if a["key"] >= 0 else source(a["addr"]["text"].encode("latin-1"))

    def libcall(self, k, op, a):
        try:
            return self.luacall(k, op, a)
        except (TypeError, ValueError, KeyError, IndexError, AttributeError) as x:
            raise Died("a script got something unexpected: %r" % x)

    def luacall(self, k, op, a):
        def out(ok, v, o=0, op2=None, a2=None):
            return op2 or op, a2 or a, ok, 0 if ok else (-20 if v and isinstance(v[0], bytes) and b"-20" in v[0] else -1), o, v if ok else []
        def simple(text, op2=None):
            ok, v = k.cmd(text)
            if ok and v:
                raise Died("%s returned %r" % (text, v))
            return out(ok, v, op2=op2)
        if op == "add":
            if not -0x80000000 <= a["count"] <= 0x7FFFFFFF or 0 in a["chars"] or a["t"]["b"] == "?":
                return None
            at = a["attr"]
            bits = (4 if at["ret"] else 0) | (0x20 if at["own"] else 0) | (1 if at["ro"] else 0)
            ty = '"%s"' % a["t"]["b"] if a["t"]["b"] != "CDT" and not a["t"]["q"] and self.rnd.random() < .5 else str(tcode(a["t"]))
            rest = ", %d, %d" % (a["count"], bits) if bits or a["count"] != 1 or self.rnd.random() < .5 else ""
            ok, v = k.cmd("return dax.tag_add(%s, %s%s)" % (source(bytes(a["chars"])), ty, rest))
            h = dict(v[0]) if ok else NOH
            return "ladd", a, ok, 0, h["idx"], (h if ok else [])
        if op == "del":
            return simple("dax.tag_del(%s)" % (source(a["name"].encode("latin-1")) if a.get("name") and self.rnd.random() < .5 else a["idx"]), "ldel")
        if op == "uget":
            ok, v = k.cmd("return dax.tag_get(%s)" % (a["idx"] if a["idx"] >= 0 else source(a["name"].encode("latin-1"))))
            x = {"name": v[0].decode("latin-1"), "type": v[1].decode("latin-1"), "count": v[2]} if ok else {"name": "", "type": "", "count": -1}
            return op, a, ok, 0, x, (x if ok else [])
        if op == "lhandle":
            cnt = "" if a["count"] == 1 and self.rnd.random() < .5 else ", %d" % a["count"]
            ok, v = k.cmd("H[%d] = dax.tag_handle(%s%s) return H[%d]" % (a["key"], source(a["text"].encode("latin-1")), cnt, a["key"]))
            h = dict(v[0]) if ok else NOH
            return op, a, ok, 0, h, (h if ok else [])
        if op == "uread":
            f = self.rnd.choice(["tag_read", "read"])
            cnt = ", %d" % a["addr"]["count"] if a["key"] < 0 and (a["addr"]["count"] or self.rnd.random() < .3) else ""
            ok, v = k.cmd("return dax.%s(%s%s)" % (f, self.ref(a), cnt))
            if ok and len(v) != 1:
                raise Died("tag_read returned %d values" % len(v))
            return op, a, ok, 0 if ok else (-20 if b"returned -20" in v[0] else -1), 0, (spec(v[0]) if ok else NOVAL)
        if op == "uwrite":
            return simple("dax.%s(%s, %s)" % (self.rnd.choice(["tag_write", "write"]), self.ref(a), a["src"]))
        if op == "uatomic":
            return simple("dax.atomic_op(%s, %s, %s)" % (self.ref(a), a["src"], "ATOMIC_OP_" + a["aop"] if a["aop"] in AOP else "77"))
        if op == "uovradd":
            return simple("dax.override_add(%s, %s)" % (self.ref(a), a["src"]))
        if op == "uovrdel":
            return simple("dax.override_del(%s)" % self.ref(a))
        if op == "uovrset":
            return simple("dax.override_%s(%s)" % ("set" if a["on"] else "clr", self.ref(a)))
        if op == "uevadd":
            key = len(k.keys) + 1
            f = "function(x) EV[#EV + 1] = x end"
            if a["mood"] == "angry":
                f = 'function(x) EV[#EV + 1] = x error("oops", 0) end'
            et = a["et"] if self.rnd.random() < .7 else a["et"].lower()
            call = 'dax.event_add(%s, %d, "%s", %s, %s, "key%d")' % (self.ref(a), a["addr"]["count"], et, a["src"], f, key)
            if a["mood"] == "routine":      # in a coroutine nobody keeps
                call = "(function() local c = coroutine.create(function() return %s end) local ok, x = coroutine.resume(c) if not ok then error(x, 0) end " \
                       "c = nil return x end)()" % call
            ok, v = k.cmd("local e = %s collectgarbage() E[%d] = e return e" % (call, key))
            i = -1
            if ok:
                e = dict(v[0])
                i = e[2]
                k.keys[b"key%d" % key] = {"idx": e[1], "id": i, "et": a["et"]}
            else:
                k.keys[b"-%d" % key] = None
            a["at"] = key
            return op, a, ok, 0, i, (i if ok else [])
        if op == "evdel":
            return simple("dax.event_del(%s)" % ("E[%d]" % a["at"] if a.get("at") else "{%d, %d}" % (a["idx"], a["id"])))
        if op == "cdtnew":
            if a["bad"]:
                return None
            ms = ", ".join("{%s, %s, %d}" % (source(bytes(m["chars"])), source(self.tname(m["tlow"])), m["count"]) for m in a["members"])
            ok, v = k.cmd("return dax.cdt_create(%s, {%s})" % (source(bytes(a["chars"])), ms))
            t = tdecode(v[0] & 0xFFFFFFFF) if ok else T("?", -1)
            return op, a, ok, 0 if ok else -99, t, (t if ok else [])
        if op == "umapadd":
            ok, v = k.cmd("local m = dax.map_add(%s, %s) M[#M + 1] = m return m, #M" % (self.ref(a["src"]), self.ref(a["dst"])))
            i = dict(v[0])[2] if ok else -1
            a["at"] = v[1] if ok else 0
            return op, a, ok, 0, i, (i if ok else [])
        if op == "mapdel":
            return simple("dax.map_del(%s)" % ("M[%d]" % a["at"] if a.get("at") else "{%d, %d}" % (a["idx"], a["id"])))
        if op == "mapget":
            ok, v = k.cmd("return dax.map_get(%s)" % ("M[%d]" % a["at"] if a.get("at") else "{%d, %d}" % (a["idx"], a["id"])))
            good = ok and v[0] is not None
            if ok and (len(v) != 2 or (v[0] is None) != (v[1] is None)):
                raise Died("map_get returned %r" % v)
            return op, a, good, 0, 0, ({"src": dict(v[0]), "dst": dict(v[1])} if good else [])
        if op == "ubad":
            ok, v = k.cmd(a["text"])
            return op, a, ok, 0 if ok else -1, 0, []
        if op == "nop":
            return simple(a["text"])
        return None

    def tname(self, low):
        """a type in the way a script may write it"""
        return low.upper().encode() if low.upper() in CODES else low.encode()

    # -- shorthands --------------------------------------------------------
    NOREF = {"key": -1, "h": NOH, "addr": NOADDR}

    def named(self, name, sub=-1, path=(), bit=-1, count=0, bad=False, text=None):
        return {"key": -1, "h": NOH, "addr": address(name, sub, path, bit, count, bad, text)}

    def held(self, key, h):
        return {"key": key, "h": h, "addr": NOADDR}

    def uhandle(self, c, key, addr):
        """a handle that the script keeps"""
        ok, v = self.do(c, "lhandle", dict(addr, key=key))
        return self.held(key, v) if ok else None

    def uread(self, c, ref):
        return self.do(c, "uread", dict(ref))

    def val(self, ref, v, **k):
        return dict(ref, val=spec(v), src=source(v), **k)

    def uwrite(self, c, ref, v):
        return self.do(c, "uwrite", self.val(ref, v))[0]

    def uatomic(self, c, ref, v, aop):
        return self.do(c, "uatomic", self.val(ref, v, aop=aop))[0]

    def uovradd(self, c, ref, v):
        return self.do(c, "uovradd", self.val(ref, v))[0]

    def uevadd(self, c, ref, et, v=0, mood=""):
        a = self.val(ref, v, et=et, mood=mood)
        ok, i = self.do(c, "uevadd", a)
        return (i, a["at"]) if ok else None

    def bad(self, c, text):
        return self.do(c, "ubad", {"text": text})[0]

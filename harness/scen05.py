"""Scenarios that go through the client library (C05, C17)."""
from gen import *
from lib import *

MALFORMED = ["", "[0]", "%s[", "%s]", "%s[]", "%s[a]", "%s[1", "%s[0]x", "%s[-1]", "%s[0][0]", "%s.", ".%s", "%s..m0", "%s.1x", "%s [0]",
             "%s[ 0]", "%s[0 ]", "%s[0].", "%s[99999999999999999999]", "%s[4294967296]", "%s.m0[", "%s.m0[]", "%s.m0.", "%s.m0[0]]", "%s.m0[x]",
             "%s.0.0", "%s.0.m0", "%s[0", "%s.[0]", "%s.-1", "%s.0x1", "%s[1.5]", "%s[+1]", " %s", "%s ", "%s.m0 ", "%s[[0]]", "%s(0)", "%s.m0[0"]


class LibGen(Gen):
    """random addresses and accesses through them"""

    def __init__(self, w, clients=("A", "B"), **k):
        super().__init__(w, clients, **k)
        self.handles = []
        self.made = {}          # what the tag of a handle was when it was made
        self.big = False

    # what there is, for choosing addresses: (type, count) at a place
    def members(self, n):
        if n == 0:
            return [("starttime", "TIME", 1), ("id", "DINT", 1), ("running", "BOOL", 1), ("faulted", "BOOL", 1), ("status", "CHAR", 64),
                    ("stop", "BOOL", 1), ("run", "BOOL", 1), ("reload", "BOOL", 1), ("kill", "BOOL", 1)]
        if n == 1:
            return [("index", "DINT", 1), ("type", "UDINT", 1), ("count", "UDINT", 1), ("attributes", "UINT", 1), ("name", "CHAR", 33)]
        return self.types[n]["members"]

    def tnum(self, name):
        for n, x in self.types.items():
            if x["name"] == name:
                return n
        return None

    def sub(self, count, must=False):
        r = self.r.random()
        if count == 1:
            if must:
                return 0 if r < .5 else -1
            return -1 if r < .75 else 0 if r < .95 else 1
        if r < .04:
            return self.r.choice([count, count + 1, 1000000, 2147483647])
        if r < (.3 if not must else 0.02):
            return -1
        return self.r.choice([0, count - 1, self.r.randrange(count)])

    def addr(self, i):
        """a random address in tag i: mostly good"""
        x = self.tags[i]
        b, n, count = x["t"]["b"], x["t"]["n"], x["count"]
        r = self.r
        path, bit = [], -1
        if x["q"]:
            return dict(name=x["name"], sub=-1, path=[], bit=-1, count=0)
        dig = b == "CDT" and r.random() < .85
        sub = self.sub(count, dig)
        s, c = sub, count
        while dig:
            if r.random() < .04:
                path.append((r.choice(["nosuch", "M0", "m", "m00", "x" * 40, "ab", "r", "_", "Val_", "x" * 29, "RUN"]), -1))
                return dict(name=x["name"], sub=sub, path=path, bit=-1, count=0)
            m = r.choice(self.members(n))
            mt = self.tnum(m[1])
            dig = mt is not None and r.random() < .8
            s = self.sub(m[2], dig)
            if dig and m[2] > 1 and s < 0:
                s = r.randrange(m[2])         # an array in the middle needs a subscript
            path.append((m[0], s))
            b, n, c = ("CDT", mt, m[2]) if mt is not None else (m[1], -1, m[2])
        if b not in ("BOOL", "CDT") and r.random() < .35:
            z = SIZES[b] * 8
            bit = r.choice([0, 1, 7, z - 1, r.randrange(z), r.randrange(z)]) if r.random() < .93 else r.choice([z, z + 1, 100])
            if c > 1 and s < 0 and r.random() < .9:
                if path:
                    path[-1] = (path[-1][0], r.randrange(c))
                else:
                    sub = r.randrange(c)
            c = z - min(bit, z - 1)
        elif b in ("BOOL", "CDT") and r.random() < .04:
            bit = 0
        elif s >= 0:
            c = max(1, c - s)
        k = r.random()
        cnt = 0 if k < .5 else 1 if k < .6 else r.randint(1, c) if k < .92 else r.choice([c, c + 1, c + 2, -1, 2147483647])
        return dict(name=x["name"], sub=sub, path=path, bit=bit, count=cnt)

    def op_handle(self):
        i = self.tag(lambda x: not x["fl"])
        if i is None:
            return
        a = self.addr(i)
        h = self.w.handle(self.client(), **a)
        if h is not None:
            self.handles.append(h)
            self.made[hstr(h)] = self.tags.get(h["idx"])
            self.handles = self.handles[-30:]

    def op_malformed(self):
        i = self.tag()
        if i is not None:
            nm = self.tags[i]["name"]
            t = self.r.choice(MALFORMED)
            self.w.handle(self.client(), name=nm, bad=True, text=t % nm if "%" in t else t, count=self.r.choice([0, 1]))

    def op_nosuch(self):
        n = self.r.choice(self.names or ["zz"])
        n = self.r.choice([n + "x", n[:-1] or "q", n.swapcase(), "nosuch", "x" * 33, "x" * 100])
        if any(t["name"] == n for t in self.tags.values()):
            return
        self.w.handle(self.client(), name=n)

    def fits(self, h):
        """is it safe to use this handle (large ones must be in range, as several messages may be needed)"""
        if h["size"] <= 2000:
            return True
        x = self.tags.get(h["idx"])
        return x is not None and not x["q"] and h["byte"] + h["size"] <= x["n"]

    def hnd(self):
        if not self.handles:
            return None
        return self.r.choice(self.handles[-8:] if self.r.random() < .6 else self.handles)

    def hdata(self, h):
        return self.data(h["size"])

    def watch(self, idx):
        """the whole tag, as somebody else sees it"""
        x = self.tags.get(idx)
        if x is None or x["q"]:
            return
        off = 0
        while off < x["n"]:
            self.w.read("Z", idx, off, min(4000, x["n"] - off))
            off += 4000

    def op_tread(self):
        h = self.hnd()
        if h:
            self.w.tread(self.client(), h)

    def op_twrite(self):
        h = self.hnd()
        if h and self.fits(h):
            self.w.twrite(self.client(), h, self.hdata(h))
            self.watch(h["idx"])

    def op_tmask(self):
        h = self.hnd()
        if h and self.fits(h) and not h["t"]["q"]:
            self.w.tmask(self.client(), h, self.hdata(h), self.hdata(h))
            self.watch(h["idx"])

    def op_fqn(self):
        h = self.hnd()
        if h and not h["t"]["q"] and h["idx"] in self.tags and self.made.get(hstr(h)) is self.tags[h["idx"]] and h["byte"] + h["size"] <= self.tags[h["idx"]]["n"]:
            self.w.fqn(self.client(), h)

    def op_lovradd(self):
        h = self.hnd()
        if h and h["size"] <= 2030 and not h["t"]["q"]:
            if self.w.do(self.client(), "lovradd", {"h": h, "data": self.hdata(h)})[0]:
                self.ovr.add(h["idx"])

    def op_lovrdel(self):
        h = self.hnd()
        if h and h["size"] <= 4000 and not h["t"]["q"]:
            self.w.do(self.client(), "lovrdel", {"h": h})

    def op_types(self):
        c = self.client()
        n = self.r.choice(list(self.types) + [0, 1]) if self.r.random() < .9 else self.r.choice([900, 70])
        k = self.r.randrange(6)
        t = T("CDT", n) if self.r.random() < .7 or k < 2 else T(self.r.choice(BASES)) if self.r.random() < .85 else T("?", self.r.choice([1, 0x11, 0x47, 0x55]))
        if k < 2:
            self.w.do(c, "liter", {"t": t})
        elif k == 2:
            self.w.do(c, "ltypesize", {"t": t})
        elif k == 3:
            self.w.do(c, "ltypename", {"t": t})
        elif k == 4:
            nm = self.r.choice([x["name"] for x in self.types.values()] + BASES + ["_module", "_tag_desc", "NoSuch", "y" * 33])
            nm = self.r.choice([nm, nm.lower(), nm.upper()])
            self.w.do(c, "ltypenumber", {"name": nm, "low": nm.lower()})
        else:
            self.w.do(c, "literall", {})

    def op_evadd(self):
        if len(self.evs) < 2:
            super().op_evadd()

    def gone(self, i):
        super().gone(i)
        self.evs = [e for e in self.evs if e[1] != i]


ADDR = {"handle": 8, "tread": 4, "twrite": 5, "tmask": 3, "fqn": 3, "malformed": 1.5, "nosuch": .7, "types": 1.5}


def clients(w, *names):
    for n in names:
        w.join(n)


def lib(fn):
    fn.lib = True
    return fn


@lib
def c05_random(w):
    """random types, random tags, random addresses"""
    clients(w, "A", "B")
    g = LibGen(w, ("A", "B"))
    for _ in range(g.r.randint(2, 6)):
        g.op_cdt()
    for _ in range(5):
        g.op_add()
    for n in list(g.types)[-3:]:
        i = w.add("A", "s%d" % n, T("CDT", n), g.r.choice([1, 2, 3, 5]))
        if i is not None:
            g.note(i, "s%d" % n, T("CDT", n), g.r.choice([1]))
            g.tags[i]["count"] = w.steps[-1]["v"]["count"]
            g.tags[i]["n"] = w.bytes_of(T("CDT", n), g.tags[i]["count"])
            w.write("Z", i, 0, g.data(min(g.tags[i]["n"], 4000)))
    g.run(dict(ADDR, add=.3, cdt=.2), 330)
    w.dump("Z")


@lib
def c05_all(w):
    """every address of a few small structures"""
    clients(w, "A")
    g = LibGen(w, ("A",))
    r = g.r
    bt = [b for b in BASES if SIZES[b] <= 2]
    inner = [("p", "BOOL", r.randint(1, 9)), ("q", r.choice(bt), r.randint(1, 2)), ("r", "BOOL", r.randint(1, 3))]
    r.shuffle(inner)
    outer = [("a", "BOOL", r.randint(1, 3)), ("b", "In", r.randint(1, 2)), ("c", r.choice(bt), r.choice([1, 2, 9])), ("d", "BOOL", 1)]
    r.shuffle(outer)
    w.cdt("A", "In", inner)
    t = w.cdt("A", "Out", outer)
    if t is None:
        return
    ni = t["n"] - 1
    tys = {"In": (ni, inner), "Out": (t["n"], outer)}

    def size(name):
        pos = 0
        for m, tn, c in tys[name][1]:
            if tn == "BOOL":
                pos += c
            else:
                pos = (pos + 7) // 8 * 8 + 8 * c * (size(tn) if tn in tys else SIZES[tn])
        return (pos + 7) // 8
    g.types = {ni: {"name": "In", "size": size("In"), "members": inner, "fl": False},
               t["n"]: {"name": "Out", "size": size("Out"), "members": outer, "fl": False}}
    w.types = {ni: size("In"), t["n"]: size("Out")}
    tags = [("one", T("CDT", t["n"]), 1), ("two", T("CDT", t["n"]), 2), ("bits", T("BOOL"), r.choice([7, 8, 9, 17])), ("w", T(r.choice(bt)), 1), ("ws", T("INT"), 3)]
    for nm, tt, c in tags:
        i = w.add("A", nm, tt, c)
        g.note(i, nm, tt, c)
        w.write("Z", i, 0, g.data(g.tags[i]["n"]))

    def walk(tn, count, top):
        """(subscript, path, bit, room)"""
        for s in [-1] + list(range(count + 1)):
            z = {"BOOL": 0}.get(tn, 0 if tn in tys else SIZES[tn] * 8)
            room = count - max(s, 0)
            yield s, [], -1, room
            for b in ([0, z // 2, z - 1, z] if z else [0]):
                yield s, [], b, z - b
            if tn in tys:
                if count > 1 and s < 0 and not top:
                    continue
                for m, mt, mc in tys[tn][1] + [("zz", "INT", 1)]:
                    for s2, p2, b2, room2 in walk(mt, mc, False):
                        yield s, [(m, s2)] + p2, b2, room2
            else:
                yield s, [("p", -1)], -1, 1
    todo = []
    for nm, tt, c in tags:
        tn = tt["b"] if tt["b"] != "CDT" else ("Out" if tt["n"] == t["n"] else "In")
        for s, p, b, room in walk(tn, c, True):
            for cnt in {0, 1, max(1, room), room + 1}:
                todo.append((nm, s, p, b, cnt))
    step = max(1, len(todo) // 900)
    for k in range(w.seed % step if step > 1 else 0, len(todo), step):
        nm, s, p, b, cnt = todo[k]
        if any(i < 0 and m in ("b",) and outer[[x[0] for x in outer].index("b")][2] > 1 for m, i in p[:-1]):
            continue
        h = w.handle("A", nm, s, p, b, cnt)
        if h is None or r.random() < .6:
            continue
        w.fqn("A", h)
        k2 = r.random()
        if k2 < .4:
            w.tread("A", h)
        elif k2 < .75:
            w.twrite("A", h, g.data(h["size"]))
            w.read("Z", h["idx"], 0, g.tags[h["idx"]]["n"])
        else:
            w.tmask("A", h, g.data(h["size"]), g.data(h["size"]))
            w.read("Z", h["idx"], 0, g.tags[h["idx"]]["n"])
    w.dump("Z")


@lib
def c05_bits(w):
    """runs of bits at every position"""
    clients(w, "A")
    g = LibGen(w, ("A",))
    n = g.r.choice([1, 7, 8, 9, 15, 16, 17, 24, 33])
    i = w.add("A", "b", "BOOL", n)
    t = w.cdt("A", "S", [("x", "BOOL", 3), ("y", "BOOL", 14), ("z", "BYTE", 2), ("u", "BOOL", 5)])
    w.types = {t["n"]: 6}
    j = w.add("A", "s", t, 1)
    d = w.add("A", "d", g.r.choice(["DINT", "LWORD", "UINT", "BYTE"]), 2)
    full = n // 8 + 1
    for s in range(n):
        for c in range(1, n - s + 1):
            if n > 9 and g.r.random() < .7:
                continue
            h = w.handle("A", "b", s, count=c)
            if h is None:
                continue
            w.twrite("A", h, g.data(h["size"]))
            w.read("Z", i, 0, full)
            w.tread("A", h)
            if g.r.random() < .5:
                w.tmask("A", h, g.data(h["size"]), g.data(h["size"]))
                w.read("Z", i, 0, full)
    for s in range(14):
        for c in range(1, 15 - s):
            if g.r.random() < .6:
                continue
            h = w.handle("A", "s", path=[("y", s)], count=c)
            if h is None:
                continue
            w.twrite("A", h, g.data(h["size"]))
            w.read("Z", j, 0, 6)
            w.tread("A", h)
            w.fqn("A", h)
    z = SIZES[w.steps[4]["a"]["t"]["b"]] if False else None
    for b in range(64):
        h = w.handle("A", "d", g.r.choice([0, 1]), bit=b, count=g.r.choice([0, 1, 2, 5]))
        if h is None:
            continue
        w.twrite("A", h, g.data(h["size"]))
        w.tread("A", h)
        w.fqn("A", h)
    w.dump("Z")


# ---------------------------------------------------------------------------
# C17

LIBALL = dict(ADDR, add=3, queue=.6, readd=2, badadd=1, get=5, read=3, write=3, mwrite=2, badidx=1, cdt=1, badcdt=1, evadd=1.5, evdel=.8, evopt=.5,
              map=1, mapdel=.5, grp=.8, grpread=1, grpwrite=1, grpdel=.5, atomic=2, lovradd=1, lovrdel=.7, ovrset=1, ovrget=.7, churn=.2)
LIBALL["del"] = 1.5


@lib
def c17_mix(w):
    """several library clients and one on the wire do everything"""
    clients(w, "A", "B", "w1")
    g = LibGen(w, ("A", "B", "A", "B", "w1"))
    g.clients_lib = ("A", "B")
    for _ in range(2):
        g.op_cdt()
    for _ in range(4):
        g.op_add()
    lb = ("A", "B")
    ops = dict(LIBALL)
    ops.pop("churn")
    names, ws = list(ops), list(ops.values())
    onlylib = set(ADDR) | {"lovradd", "lovrdel"}
    while len(w.steps) < 420 and not w.broken:
        o = g.r.choices(names, ws)[0]
        g.clients = list(lb) if o in onlylib else ["A", "B", "A", "B", "w1"]
        getattr(g, "op_" + o)()
    w.dump("Z")


@lib
def c17_stale(w):
    """one client keeps using names and indexes while others change what they mean"""
    clients(w, "A", "B")
    g = LibGen(w, ("A", "B"))
    r = g.r
    names = ["n%d" % k for k in range(4)]
    idx = {}
    seen = []
    for _ in range(130):
        if w.broken:
            break
        n = r.choice(names)
        c = r.choice("AB")
        k = r.random()
        if k < .22:
            i = w.add(c, n, r.choice(["INT", "DINT", "BYTE", "BOOL"]), r.choice([1, 3, 10, 30]))
            if i is not None:
                idx[n] = i
                seen.append(i)
                g.tags = {}
                o = "B" if c == "A" else "A"
                x = r.random()
                if x < .5:              # the other one may know of an older tag of that name
                    w.geti(o, i)
                if x < .3:
                    w.getn(o, n)
                elif x < .7:
                    w.handle(o, n, sub=r.choice([-1, 0, 2, 9]), count=r.choice([0, 1, 3, 10]))
        elif k < .37 and n in idx:
            w.delete(c, idx.pop(n))
        elif k < .62:
            h = w.handle(c, n, sub=r.choice([-1, -1, 0, 2, 9]), count=r.choice([0, 1, 3, 10, 30]))
            if h and r.random() < .6:
                w.tread(c, h)
        elif k < .78:
            w.getn(c, n)
        elif k < .86 and seen:
            w.geti(c, r.choice(seen))
        elif k < .95 and seen:
            i = r.choice(seen)
            x = r.random()
            if x < .4:
                w.read(c, i, 0, 1)
            elif x < .7:
                w.write(c, i, 0, [g.byte()])
            elif x < .85:
                w.mwrite(c, i, 0, [g.byte()], [g.byte()])
            else:
                w.atomic(c, H(i, 0, 0, 1, 1, T("BYTE")), "OR", [g.byte()])
        elif seen:
            w.delete(c, r.choice(seen[-3:]))
            idx = {a: b for a, b in idx.items()}
    w.dump("Z")


@lib
def c17_big(w):
    """transfers that need one or several messages"""
    clients(w, "A", "B")
    g = LibGen(w, ("A", "B"))
    r = g.r
    b = ["BYTE", "BOOL", "INT", "CDT", "BOOL", "DINT", "LINT", "BOOL", "CDT"][w.seed % 9]
    z = SIZES.get(b, 0)
    if b == "CDT":
        cnt = r.choice([1, 7, 33, 340])
        t = w.cdt("A", "S", [("a", "INT", cnt), ("f", "BOOL", 3), ("b", "BYTE", r.choice([1, 50]))])
        z = 2 * cnt + 1 + w.steps[-1]["a"]["members"][2]["count"]
        w.types = {t["n"]: z}
    elif b == "BOOL":
        t, z = T(b), 1
    else:
        t = T(b)
    n = r.choice([4079, 4080, 4081, 4087, 4088, 4089, 4090, 8160, 8161, 8176, 8177, 12240, 12264, 2040, 2041, 4096])
    if b == "BOOL":
        n = r.choice([n, 2050, 4100, 5000, 6000])
        if n > 8200:
            n = 6000
    count = (n + z - 1) // z
    if b == "BOOL":
        count = n * 8 - r.randrange(8)
    i = w.add("A", "big", t, count)
    j = w.add("A", "next", "BYTE", 8)
    full = w.bytes_of(t, count)
    g.tags[i] = {"name": "big", "t": t, "count": count, "n": full, "q": False, "fl": False}
    for _ in range(7):
        c = r.choice("AB")
        if r.random() < .5:
            h = w.handle(c, "big")
        else:
            s = r.choice([0, 1, 3, 5, r.randrange(count)])
            h = w.handle(c, "big", s, count=r.choice([count - s, max(1, count - s - 1), r.randint(1, count - s)]))
        if h is None:
            continue
        k = r.random()
        if k < .5:
            w.twrite(c, h, g.data(h["size"]))
        elif k < .75:
            w.tmask(c, h, g.data(h["size"]), g.data(h["size"]))
        else:
            w.tread(c, h)
        if r.random() < .5:
            w.tread(r.choice("AB"), h)
        g.watch(i)
    for off, sz in ((0, 4088), (0, 4089), (0, 4080), (full - 1, 1), (full - 1, 2), (0, 5000)):
        w.read("A", i, off, sz)
    for off, sz in ((0, 4080), (0, 4081), (0, 4088), (0, 4096), (0, 5000), (full - 2, 2), (full - 2, 3)):
        w.write("B", i, off, g.data(sz))
    for off, sz in ((0, 2040), (0, 2041), (0, 2048), (full - 2, 2), (full - 2, 3)):
        w.mwrite("A", i, off, g.data(sz), g.data(sz))
    w.read("A", j, 0, 8)
    if full >= 2045:
        for d in (-1, 0, 1):
            sz = 4084 + d - 2000 - 43
            hs = [H(i, 0, 0, 2000, 2000, T("BYTE")), H(i, 1, 0, sz, sz, T("BYTE")), H(i, 0, 0, 43, 43, T("BYTE"))]
            k = w.grpadd("A", hs)
            if k is not None:
                w.grpread("A", k)
                w.do("A", "grpwrite", {"id": k, "data": g.data(4084 + d)})
        w.read("A", i, 0, 2045)
    x = w.add("B", "wide", "BOOL", r.choice([65535, 65536, 70000, 140001]))
    w.geti("A", x)
    w.getn("B", "wide")
    w.dump("Z")


@lib
def c17_huge(w):
    """single elements larger than a message"""
    clients(w, "A")
    g = LibGen(w, ("A",))
    z = g.r.choice([4080, 4081, 4088, 4089, 2040, 2041, 5000, 2039])
    t = w.cdt("A", "Huge", [("a", "BYTE", z)])
    w.types = {t["n"]: z}
    cnt = g.r.choice([1, 2, 3])
    i = w.add("A", "h", t, cnt)
    w.write("Z", i, 0, g.data(min(z, 4000)))
    h = w.handle("A", "h")
    for x in (h, w.handle("A", "h", 0), w.handle("A", "h", cnt - 1, [("a", z - 1)]), w.handle("A", "h", 0, [("a", -1)])):
        if x:
            w.tread("A", x)
            w.twrite("A", x, g.data(x["size"]))
            w.tmask("A", x, g.data(x["size"]), g.data(x["size"]))
            w.do("A", "lovradd", {"h": x, "data": g.data(x["size"])})
            w.do("A", "lovrdel", {"h": x})
            w.do("A", "atomic", {"h": x, "aop": "OR", "data": g.data(x["size"])})
    w.dump("Z")


@lib
def c17_cache(w):
    """more tags than the library remembers"""
    opts = ("--cachesize", str(w.rnd.choice([1, 2, 3, 8])))
    w.join("A", opts=opts)
    w.join("B", opts=opts)
    g = LibGen(w, ("A", "B"))
    r = g.r
    idx = [w.add(r.choice("AB"), "c%d" % k, r.choice(["INT", "DINT", "BYTE"]), r.choice([1, 4])) for k in range(12)]
    for _ in range(160):
        if w.broken:
            break
        k = r.randrange(12)
        x = r.random()
        c = r.choice("AB")
        if x < .35:
            w.getn(c, "c%d" % k)
        elif x < .6:
            w.geti(c, idx[k])
        elif x < .75:
            h = w.handle(c, "c%d" % k)
            if h:
                w.tread(c, h)
        elif x < .82:
            w.delete(c, idx[k])
        elif x < .9:
            i = w.add(c, "c%d" % k, r.choice(["INT", "DINT", "BYTE"]), r.choice([1, 4, 6]))
            idx[k] = i if i is not None else idx[k]
        else:
            w.write(c, idx[k], 0, [g.byte()])
    w.dump("Z")


@lib
def c17_churn(w):
    """library clients come and go; their things go with them"""
    clients(w, "A", "B")
    g = LibGen(w, ("A", "B"))
    r = g.r
    for k in range(6):
        for c in "AB":
            for _ in range(3):
                g.op_add(c=c, own=r.random() < .4, ro=r.random() < .3)
        for _ in range(6):
            g.op_handle()
            g.op_twrite()
            g.op_write()
            g.op_evadd()
            g.op_grp()
            g.op_grpwrite()
        c = r.choice("AB")
        w.leave(c)
        g.grp.pop(c, None)
        g.evs = [e for e in g.evs if e[0] != c]
        w.dump("Z", deep=False)
        w.join(c, r.choice([c, "module_with_a_long_name_number_%d" % k]))
        live = {s["a"]["idx"] for s in w.steps[-60:] if s["op"] == "geti" and s["ok"]}
        for i in list(g.tags):
            if i not in live:
                g.gone(i)
    w.dump("Z")


@lib
def c17_events(w):
    """clients with many subscriptions, made and ended in any order"""
    clients(w, "A", "B")
    r = w.rnd
    g = LibGen(w, ("A", "B"))
    tags, subs = [], []
    for c in "AB":
        w.cl[c].cmd("nest %d" % r.randrange(2))
    for k in range(5):
        b = r.choice(["BOOL", "BYTE", "INT", "UDINT", "LINT", "ULINT", "LREAL", "REAL"])
        n = r.choice([1, 2, 5, 60])
        if b in ("BYTE", "INT") and r.random() < .7:
            n = r.choice([256, 300, 700, 1020, 1024, 1030, 1500]) // SIZES[b]
        i = w.add("A", "t%d" % k, b, n)
        tags.append((i, b, n))
    if r.random() < .3:
        i, b, n = tags[0]
        for _ in range(r.choice([255, 260])):
            e = w.evadd("B", H(i, 0, 0, 1, SIZES[b] or 1, T(b)), "WRITE")
            w.do("B", "evdel", {"idx": i, "id": e})
    for _ in range(90):
        if w.broken:
            return
        x = r.random()
        c = r.choice("AAAB")
        i, b, n = r.choice(tags)
        if x < (.4 if len(subs) < 10 else .1):
            if sum(1 for s in subs if s[:2] == (c, i)) >= 4:
                continue
            s = r.choice([0, r.randrange(n)])
            m = r.choice([1, n - s, n - s])
            et = r.choice(["WRITE", "WRITE", "CHANGE", "DELETED", "SET" if b == "BOOL" else "GREATER", "LESS" if b != "BOOL" else "RESET"] + (["EQUAL"] if b not in FLOATS and b != "BOOL" else []))
            if et in ("GREATER", "LESS", "EQUAL"):
                m = 1
            if b == "BOOL":
                h = H(i, s // 8, s % 8, m, (s % 8 + m - 1) // 8 + 1, T(b))
            else:
                h = H(i, s * SIZES[b], 0, m, m * SIZES[b], T(b))
            e = w.evadd(c, h, et, g.elems(b, 1) if et in ("GREATER", "LESS", "EQUAL") else [], send=r.random() < .7)
            if e is not None:
                subs.append((c, i, e))
        elif x < .55 and subs:
            c, i, e = subs.pop(r.randrange(len(subs)))
            w.do(c, "evdel", {"idx": i, "id": e})
        elif x < .6 and subs:
            c, i, e = r.choice(subs)
            w.do(c, "evopt", {"idx": i, "id": e, "send": r.random() < .5})
        elif x < .63:
            w.delete(c, i)
            subs = [s for s in subs if s[1] != i]
            tags.remove((i, b, n))
            i = w.add(c, "u%d" % len(w.steps), b, n)
            tags.append((i, b, n))
        else:
            s = r.choice([0, 0, r.randrange(n)])
            if b == "BOOL":
                w.write(c, i, s // 8, [r.randrange(256)])
            elif r.random() < .5:
                w.write(c, i, s * SIZES[b], g.elems(b, 1))
            else:
                w.write(c, i, 0, g.elems(b, n))
    w.dump("Z")


@lib
def c17_tcp(w):
    """the same over TCP"""
    w.tcp = True
    c17_mix(w)


@lib
def c05_types(w):
    """many types, of which the library learns a few, in any order"""
    clients(w, "A", "B")
    r = w.rnd
    n = r.choice([3, 12, 24, 40, 70, 130])
    ts = {}
    w.types = {}
    for k in range(n):
        ms = [("a", "BOOL", r.choice([1, 3, 8])), ("b", r.choice(["INT", "BYTE", "UDINT"]), r.choice([1, 2]))]
        if ts and r.random() < .4:
            ms.append(("in", "Ty%d" % r.choice(sorted(ts)[-12:]), 1))
        r.shuffle(ms)
        t = w.cdt(r.choice("ZZZB"), "Ty%d" % k, ms)
        if t is None:
            return
        pos = 0
        for m in ms:
            if m[1] == "BOOL":
                pos += m[2]
            else:
                pos = (pos + 7) // 8 * 8 + 8 * m[2] * (SIZES[m[1]] if m[1] in SIZES else ts[int(m[1][2:])][1])
        if (pos + 7) // 8 > 300:
            return
        ts[k] = (t["n"], (pos + 7) // 8, ms)
        w.types[t["n"]] = (pos + 7) // 8
    some = r.sample(sorted(ts), min(len(ts), 8)) + [n - 1]
    r.shuffle(some)
    for k in some[:4]:
        w.add("Z", "v%d" % k, T("CDT", ts[k][0]), r.choice([1, 3]))
    for _ in range(60):
        c = r.choice("AAB")
        k = r.choice(some)
        x = r.random()
        if x < .4:
            k = r.choice(some[:4])
            m = r.choice(ts[k][2])
            h = w.handle(c, "v%d" % k, 0, [(m[0], -1)])
            if h:
                w.twrite(c, h, [r.randrange(256) for _ in range(h["size"])])
        elif x < .5:
            w.do(c, "liter", {"t": T("CDT", ts[k][0])})
        elif x < .65:
            w.do(c, "ltypesize", {"t": T("CDT", ts[k][0])})
        elif x < .75:
            w.do(c, "ltypename", {"t": T("CDT", ts[k][0])})
        elif x < .97:
            nm = r.choice(["Ty%d", "TY%d", "ty%d"]) % k
            w.do(c, "ltypenumber", {"name": nm, "low": nm.lower()})
        else:
            w.do(c, "literall", {})
    w.dump("Z")


C05 = [(c05_types, 10, 60), (c05_random, 12, 160), (c05_all, 8, 60), (c05_bits, 6, 40)]
C17 = [(c17_mix, 14, 200), (c17_stale, 14, 200), (c17_big, 18, 108), (c17_huge, 4, 24), (c17_cache, 6, 80), (c17_churn, 4, 40), (c17_events, 12, 160), (c17_tcp, 3, 30)]

"""Overlapping calls (C18)."""
from gen import *
from conc import *


def conc(fn):
    fn.conc = fn.lib = True
    return fn


def jit(w, c):
    """let the threads of a client meet in many ways"""
    r = w.rnd
    rate, us = r.choice([(0, 0), (0, 0), (50, 200), (200, 100), (300, 30), (20, 2000)])
    w.process(w.cl[c]).put("jitter %d %d %d" % (r.randrange(1 << 30), rate, us))


class Calls:
    """random calls on a few small tags"""

    def __init__(self, w):
        self.w, self.r = w, w.rnd
        self.tags = {}
        self.n = 0

    def tag(self, name, t, count=1, c="A"):
        i = self.w.add(c, name, t, count)
        if i is not None:
            self.tags[i] = (name, t, count)
        return i

    def h(self, i, t=None, byte=0, bit=0, count=None):
        name, ty, n = self.tags[i]
        count = count or n
        size = BoolBytes(bit, count) if ty == "BOOL" else SIZES[ty] * count
        return H(i, byte, bit, count, size, T(ty))

    def part(self, i):
        """a handle of a part of the tag"""
        name, ty, n = self.tags[i]
        k = self.r.randrange(n)
        c = self.r.randint(1, n - k)
        if ty == "BOOL":
            return H(i, k // 8, k % 8, c, (k % 8 + c - 1) // 8 + 1, T(ty))
        return H(i, k * SIZES[ty], 0, c, c * SIZES[ty], T(ty))

    def bytes(self, n):
        return [self.r.choice([0, 1, 255, self.r.randrange(256)]) for _ in range(n)]

    def call(self, kinds):
        r = self.r
        k = r.choice(kinds)
        i = r.choice(list(self.tags))
        name, ty, n = self.tags[i]
        h = self.part(i)
        if k == "inc":
            if ty in ("BOOL", "REAL", "LREAL"):
                k = "read"
            else:
                return "atomic", {"h": h, "aop": r.choice(["INC", "DEC"]), "data": ([1] + [0] * (SIZES[ty] - 1)) * h["count"]}
        if k == "atomic":
            if ty in ("BOOL", "REAL", "LREAL"):
                k = "read"
            else:
                return "atomic", {"h": h, "aop": r.choice(["OR", "AND", "XOR", "NOT"]), "data": self.bytes(h["size"])}
        if k == "read":
            return "read", {"idx": i, "off": h["byte"], "size": h["size"]}
        if k == "write":
            return "write", {"idx": i, "off": h["byte"], "data": self.bytes(h["size"])}
        if k == "mask":
            return "mwrite", {"idx": i, "off": h["byte"], "data": self.bytes(h["size"]), "mask": self.bytes(h["size"])}
        if k == "tread":
            return "tread", {"h": h}
        if k == "twrite":
            return "twrite", {"h": h, "data": self.bytes(h["size"])}
        if k == "tmask":
            return "tmask", {"h": h, "data": self.bytes(h["size"]), "mask": self.bytes(h["size"])}
        if k == "get":
            return r.choice([("getn", {"name": name}), ("geti", {"idx": i})])
        if k == "handle":
            return "lhandle", address(name, r.choice([-1, 0, n - 1, n]))
        if k == "bad":
            return r.choice([("geti", {"idx": 5000}), ("getn", {"name": "nosuch%d" % r.randrange(9)}), ("read", {"idx": i, "off": 900, "size": 4}),
                             ("write", {"idx": 900, "off": 0, "data": [1]}), ("atomic", {"h": h, "aop": "BAD", "data": self.bytes(h["size"])})])
        if k == "add":
            self.n += 1
            return "add", {"name": "x%d" % self.n, "chars": chars("x%d" % self.n), "t": T("INT"), "count": r.randint(1, 3), "attr": dict(NOATTR)}
        if k == "same":         # the same name from several sides
            nm = "y%d" % r.randrange(3)
            return "add", {"name": nm, "chars": chars(nm), "t": T(r.choice(["INT", "DINT"])), "count": r.randint(1, 3), "attr": dict(NOATTR)}
        raise ValueError(k)

    def threads(self, who, kinds, n):
        """a plan: a list of calls for everyone named"""
        return [(c, [self.call([k for k in kinds if c[0] != "w" or k not in ("tread", "twrite", "tmask", "handle")]) for _ in range(n)]) for c in who]

    def look(self, c):
        for i, (name, ty, n) in self.tags.items():
            self.w.read(c, i, 0, self.w.bytes_of(T(ty), n))


def BoolBytes(bit, count):
    return (bit + count - 1) // 8 + 1


def start(w, libs, wires=(), subs=()):
    for c in libs:
        w.join(c)
    for c, m in subs:
        w.subjoin(c, m)
    for c in wires:
        w.join(c)
    k = Calls(w)
    r = w.rnd
    for j in range(r.randint(1, 3)):
        k.tag("t%d" % j, r.choice(["INT", "DINT", "BYTE", "UINT", "BOOL", "LINT"]), r.choice([1, 1, 2, 3]), libs[0] if libs else wires[0])
    return k


SIMPLE = ["inc", "inc", "read", "write", "tread", "twrite", "mask", "tmask", "atomic"]
ALL = SIMPLE + ["get", "handle", "bad", "add", "same"]


@conc
def c18_threads(w):
    """threads that share one connection"""
    k = start(w, ["A"])
    if not k.tags:
        return
    for _ in range(7):
        jit(w, "A")
        n = w.rnd.choice([2, 3, 4])
        w.batch(k.threads(["A"] * n, SIMPLE if w.rnd.random() < .6 else ALL, {2: 8, 3: 5, 4: 4}[n]))
        k.look("Z")


@conc
def c18_clients(w):
    """clients of their own, some with several threads, some on the wire"""
    k = start(w, ["A", "B"], ["w1", "w2"])
    if not k.tags:
        return
    for _ in range(6):
        jit(w, "A")
        jit(w, "B")
        who = w.rnd.choice([["A", "B"], ["A", "A", "B"], ["A", "B", "w1"], ["A", "A", "B", "B"], ["w1", "w2"], ["A", "w1", "w2"], ["A", "A", "A", "w1"]])
        w.batch(k.threads(who, SIMPLE if w.rnd.random() < .6 else ALL, {2: 8, 3: 5, 4: 4}[len(who)]))
        k.look("Z")


@conc
def c18_process(w):
    """two connections of one process"""
    k = start(w, ["A"], [], [("B", "A"), ("C", "A")])
    if not k.tags:
        return
    for _ in range(6):
        jit(w, "A")
        who = w.rnd.choice([["A", "B"], ["A", "A", "B"], ["A", "B", "C"], ["A", "A", "B", "C"]])
        w.batch(k.threads(who, ALL, {2: 8, 3: 5, 4: 4}[len(who)]))
        k.look("Z")


@conc
def c18_many(w):
    """more callers, fewer calls each"""
    k = start(w, ["A", "B", "C"], ["w1"])
    if not k.tags:
        return
    for _ in range(5):
        for c in "ABC":
            jit(w, c)
        w.batch(k.threads(["A", "A", "A", "B", "B", "C", "w1"], ["inc", "inc", "inc", "write"] if w.rnd.random() < .5 else SIMPLE, 2))
        k.look("Z")


@conc
def c18_count(w):
    """increments are never lost, however many there are"""
    w.join("A")
    w.join("B")
    w.join("w1")
    k = Calls(w)
    i = k.tag("n", "UDINT")
    if i is None:
        return
    inc = ("atomic", {"h": k.h(i), "aop": "INC", "data": [1, 0, 0, 0]})
    rd = ("read", {"idx": i, "off": 0, "size": 4})
    for _ in range(3):
        jit(w, "A")
        jit(w, "B")
        n = w.rnd.choice([6, 10, 14])
        who = w.rnd.choice([["A", "A", "B"], ["A", "B", "w1"], ["A", "A", "A"]])
        w.batch([(c, [inc if w.rnd.random() < .8 else rd for _ in range(n)]) for c in who])
        w.read("Z", i, 0, 4)


@conc
def c18_groups(w):
    """groups, mappings and overrides while others write"""
    k = start(w, ["A", "B"], ["w1"])
    i = k.tag("g", "UINT", 3)
    j = k.tag("h", "UINT", 3)
    if i is None or j is None:
        return
    r = w.rnd
    hs = [H(i, 0, 0, 1, 2, T("UINT")), H(j, 2, 0, 1, 2, T("UINT")), H(i, 4, 0, 1, 2, T("UINT"))]
    ga = w.grpadd("A", hs)
    gb = w.grpadd("B", hs[::-1])
    if r.random() < .5:
        w.mapadd("B", H(i, 0, 0, 2, 4, T("UINT")), H(j, 2, 0, 2, 4, T("UINT")))
    for _ in range(5):
        jit(w, "A")
        jit(w, "B")
        plan = []
        for c in r.choice([["A", "B"], ["A", "A", "B"], ["A", "B", "w1"]]):
            it = []
            for _ in range(5):
                g = {"A": ga, "B": gb}.get(c)
                x = r.random()
                if g is not None and x < .3:
                    it.append(("grpwrite", {"id": g, "data": k.bytes(6)}))
                elif g is not None and x < .6:
                    it.append(("grpread", {"id": g}))
                elif x < .7:
                    it.append(("ovrset", {"idx": i, "on": r.random() < .5}))
                elif x < .8 and c != "w1":
                    it.append(("lovradd", {"h": hs[0], "data": k.bytes(2)}))
                else:
                    it.append(k.call(["inc", "read", "write", "mask"]))
            plan.append((c, it))
        w.batch(plan)
        k.look("Z")


@conc
def c18_events(w):
    """notifications while others write: none is lost, none comes twice, and they come in order"""
    w.join("A")
    w.join("B")
    w.join("w1")
    if w.rnd.random() < .5:
        w.subjoin("C", "A")
    k = Calls(w)
    r = w.rnd
    i = k.tag("n", "UINT")
    j = k.tag("m", "UINT")
    if i is None or j is None:
        return
    subs = [c for c in ("A", "B", "w1", "C") if c in w.cl and (c == "A" or r.random() < .7)]
    for c in subs:
        w.evadd(c, k.h(i), r.choice(["WRITE", "CHANGE"]), send=True)
        if r.random() < .4:
            w.evadd(c, k.h(j), "CHANGE", send=r.random() < .5)
    for _ in range(5):
        jit(w, "A")
        jit(w, "B")
        plan = []
        left = 7            # the library keeps 8 for those who don't take them
        for c in r.choice([["A", "B"], ["A", "B", "w1"], ["A", "A", "B"], ["w1", "B"]]):
            it = []
            for _ in range(4):
                if left and r.random() < .6:
                    left -= 1
                    it.append(("write", {"idx": r.choice([i, i, j]), "off": 0, "data": [r.randrange(256), 0]}))
                else:
                    it.append(k.call(["read", "bad", "get"]))
            plan.append((c, it))
        for c in subs:
            if c[0] != "w":
                for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
                    plan.append((c, [r.choice([("poll", 0), ("wait", r.choice([1, 20, 60])), ("sleep", 300)]) for _ in range(r.randint(1, 4))]))
        w.batch(plan)
        k.look("Z")


@conc
def c18_overflow(w):
    """more notifications than the library keeps: the newest stay"""
    w.join("A")
    w.join("B")
    k = Calls(w)
    r = w.rnd
    i = k.tag("n", "UINT", 2)
    if i is None:
        return
    w.evadd("A", H(i, 0, 0, 2, 4, T("UINT")), "WRITE", send=True)
    for _ in range(6):
        jit(w, "A")
        n = r.choice([3, 7, 8, 9, 10, 16, 17, 25])
        seq = [("write", {"idx": i, "off": r.choice([0, 2]), "data": [r.randrange(256), 0]}) for _ in range(n)]
        if r.random() < .5:
            w.batch([("B", seq)])
        else:
            w.batch([("B", seq[:n // 2]), ("A", seq[n // 2:])])
    w.read("Z", i, 0, 4)


@conc
def c18_late(w):
    """answers that come after the caller gave up are nobody else's"""
    w.join("A", opts=("--msgtimeout", "150"))
    w.join("B")
    k = Calls(w)
    r = w.rnd
    i = k.tag("n", "UINT", 2, c="B")
    j = k.tag("m", "DINT", 2, c="B")
    if i is None or j is None:
        return
    for _ in range(3):
        for x in range(r.randint(0, 2)):
            w.do("A", *k.call(["read", "write", "get"]))
        w.stopped("A", [k.call(["read", "write", "read", "bad", "atomic"]) for _ in range(r.randint(1, 3))])
        for x in range(r.randint(2, 5)):
            w.do("A", *k.call(["read", "write", "get", "tread", "bad", "add"]))
        k.look("Z")


@conc
def c18_large(w):
    """a tag that takes several messages: each of its elements is still read and written as one"""
    w.join("A")
    w.join("w1")
    r = w.rnd
    ms = [("p", "BYTE", r.choice([3, 5, 7, 10, 11, 23, 100, 301]))]
    t = w.cdt("w1", "Big", ms)
    if t is None:
        return
    z = ms[0][2]
    w.types = {t["n"]: z}
    n = r.choice([4100, 5000, 8300]) // z + 1
    i = w.add("w1", "big", t, n)
    if i is None:
        return
    W = sorted({min(n - 1, b // z) for b in r.sample([4088, 4080, 8176, 0, 4088 - z, 4096], 3)})
    same = lambda: [r.randrange(256)] * z
    h = H(i, 0, 0, n, n * z, t)

    def expand(st):
        """what is said about the elements that are looked at, each on its own"""
        out, pos = [], 0
        for e in W:
            if st["op"] == "tread":
                out.append(dict(st, op="lread", a={"idx": i, "off": e * z, "size": z}, v=st["v"][e * z:e * z + z] if st["ok"] else []))
                continue
            d = st["a"]["data"]
            while e * z > pos:
                to = min(e * z, pos + 4000)
                out.append(dict(st, op="lwrite", a={"idx": i, "off": pos, "data": d[pos:to]}, v=[]))
                pos = to
            out.append(dict(st, op="lwrite", a={"idx": i, "off": e * z, "data": d[e * z:e * z + z]}, v=[]))
            pos = e * z + z
        while st["op"] == "twrite" and pos < n * z:
            out.append(dict(st, op="lwrite", a={"idx": i, "off": pos, "data": st["a"]["data"][pos:pos + 4000]}, v=[]))
            pos += 4000
        return out
    for _ in range(4):
        jit(w, "A")
        if r.random() < .6:
            plan = [("A", [("tread", {"h": h})] * 3), ("w1", [("write", {"idx": i, "off": r.choice(W) * z, "data": same()}) for _ in range(7)])]
        else:
            plan = [("A", [("twrite", {"h": h, "data": same() * n}) for _ in range(2)]), ("w1", [("read", {"idx": i, "off": r.choice(W) * z, "size": z}) for _ in range(7)])]
        w.batch(plan)
        if w.broken:
            return
        b = w.blocks[-1]
        b["th"] = [sum([expand(x) if x["op"] in ("tread", "twrite") else [x] for x in th], []) for th in b["th"]]
        for e in W:
            w.read("Z", i, e * z, z)
    w.dump("Z")


@conc
def c18_tcp(w):
    w.tcp = True
    r = w.rnd.random()
    (c18_clients if r < .4 else c18_events if r < .7 else c18_groups)(w)


C18 = [(c18_threads, 24, 300), (c18_clients, 24, 300), (c18_process, 12, 150), (c18_many, 6, 80), (c18_count, 8, 100), (c18_groups, 16, 200),
       (c18_events, 30, 400), (c18_overflow, 12, 100), (c18_late, 8, 60), (c18_large, 12, 120), (c18_tcp, 10, 100)]

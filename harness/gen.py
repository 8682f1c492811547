"""Random but plausible use of the tag server.  The generator keeps a rough
picture of what exists so that most requests make sense; it never judges."""
import struct
from world import *

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
INTS = [b for b in BASES if b not in FLOATS and b != "BOOL"]
EDGE = [0, 1, 2, 127, 128, 129, 254, 255]


class Gen:
    def __init__(self, w, clients=("A", "B"), prefix=""):
        self.w, self.r = w, w.rnd
        self.tags = {}        # idx -> dict(name,t,count,n,q,fl)
        self.dead = []
        self.types = {}       # n -> dict(name,size,members,fl)
        self.evs, self.maps = [], []
        self.grp = {}
        self.clients = list(clients)
        self.names, self.tnames = [], []
        self.ovr = set()
        self.k = 0
        self.prefix = prefix
        self.fancy = True
        self.w.types = {}

    # -- values ------------------------------------------------------------
    def byte(self):
        return self.r.choice(EDGE) if self.r.random() < .6 else self.r.randrange(256)

    def fval(self, b):
        v = self.r.randint(-40, 40) * .25 if self.r.random() < .7 else self.r.randint(-20000, 20000) * .25
        return list(struct.pack("<f" if b == "REAL" else "<d", v))

    def ival(self, b):
        z = SIZES[b]
        c = self.r.random()
        if c < .35:
            v = self.r.randint(-3, 3)
        elif c < .6:
            v = self.r.choice([1 << (8 * z - 1), (1 << (8 * z - 1)) - 1, (1 << 8 * z) - 1, 0, (1 << (8 * z - 1)) + 1, 1 << (4 * z)])
        elif c < .8:
            v = self.r.randint(-100, 100)
        else:
            v = self.r.getrandbits(8 * z)
        return list((v % (1 << 8 * z)).to_bytes(z, "little"))

    def elems(self, b, n):
        if b in FLOATS:
            return sum((self.fval(b) for _ in range(n)), [])
        return sum((self.ival(b) for _ in range(n)), [])

    def data(self, n):
        return [self.byte() for _ in range(n)]

    def client(self):
        return self.r.choice(self.clients)

    def newname(self):
        self.k += 1
        c = self.r.random()
        n = self.prefix + "t%d" % self.k
        if c < .3:
            n = "".join(self.r.choice(LETTERS[:-1]) for _ in range(self.r.randint(1, 4))) + n
        if c < .1:
            n = (n + "x" * 40)[:self.r.choice([31, 32])]
        if self.names and c > .9:      # a name that extends or starts another one
            o = self.r.choice(self.names)
            n = (o + "_%d" % self.k)[:32] if self.r.random() < .5 else o[:max(1, len(o) - 1)]
            if n[0] == "_":
                n = "y" + n
        self.names.append(n)
        return n

    # -- choosing ----------------------------------------------------------
    def tag(self, f=lambda x: True):
        c = [i for i, x in self.tags.items() if f(x)]
        return self.r.choice(c) if c else None

    def anyidx(self):
        c = self.r.random()
        if self.dead and c < .5:
            return self.r.choice(self.dead)
        return self.r.choice([-1, 5000, 100000, 0x7FFFFFF, max(self.tags, default=11) + 1, self.r.randint(0, 10)])

    def part(self, n):
        """an offset and size within n bytes"""
        c = self.r.random()
        if c < .3:
            return 0, n
        off = self.r.randrange(n)
        sz = self.r.randint(1, n - off)
        if c < .6:
            sz = min(sz, 8)
        return off, sz

    def wpart(self, i):
        """a range of tag i and data for it (whole nice numbers for floating point)"""
        x = self.tags[i]
        if x["fl"]:
            z = SIZES[x["t"]["b"]]
            k = self.r.randrange(x["count"])
            m = self.r.randint(1, min(x["count"] - k, 500))
            return k * z, self.elems(x["t"]["b"], m)
        off, sz = self.part(x["n"])
        sz = min(sz, 4080)
        if x["t"]["b"] not in ("BOOL", "CDT") and self.r.random() < .6:
            z = SIZES[x["t"]["b"]]
            k = self.r.randrange(x["count"])
            m = self.r.randint(1, min(x["count"] - k, 4))
            return k * z, self.elems(x["t"]["b"], m)
        return off, self.data(sz)

    def handle(self, i, b=None):
        """a handle to some part of tag i"""
        x = self.tags[i]
        t = x["t"]
        if x["q"]:
            return H(i, 0, 0, x["count"], x["n"], T(t["b"], t["n"]))
        if b == "BOOL" or t["b"] == "BOOL":
            bits = x["count"] if t["b"] == "BOOL" else 8 * x["n"]
            s = self.r.randrange(bits)
            c = self.r.randint(1, bits - s)
            if self.r.random() < .6:
                c = min(c, self.r.choice([1, 1, 2, 3, 8, 9]))
            return H(i, s // 8, s % 8, c, (s % 8 + c - 1) // 8 + 1, T("BOOL"))
        if t["b"] == "CDT":
            z = x["n"] // x["count"]
        else:
            z = SIZES[t["b"]]
        k = self.r.randrange(x["count"])
        c = self.r.randint(1, x["count"] - k)
        if self.r.random() < .5:
            c = 1
        return H(i, k * z, 0, c, c * z, T(t["b"], t["n"]))

    # -- operations --------------------------------------------------------
    def op_add(self, base=None, count=None, q=False, name=None, ret=False, own=False, ro=False, c=None):
        c = c or self.client()
        t = T(base) if base else None
        if t is None:
            if self.types and self.r.random() < .25:
                t = T("CDT", self.r.choice(list(self.types)))
            else:
                t = T(self.r.choice(BASES))
        if q:
            t = dict(t, q=True)
        if count is None:
            count = self.r.choice([1, 1, 2, 3, 5, 8, 9, 16, 17])
        name = name or self.newname()
        i = self.w.add(c, name, t, count, ret, own, ro)
        if i is not None:
            self.note(i, name, t, count)
        return i

    def note(self, i, name, t, count):
        if i in self.tags:
            count = max(count, self.tags[i]["count"])
        z = self.types[t["n"]]["size"] if t["b"] == "CDT" and t["n"] in self.types else None
        n = self.w.bytes_of(t, count)
        self.tags[i] = {"name": name, "t": t, "count": count, "n": n, "q": t["q"],
                        "fl": t["b"] in FLOATS or (t["b"] == "CDT" and self.types[t["n"]]["fl"])}

    def op_queue(self):
        return self.op_add(q=True, count=self.r.choice([1, 1, 2, 8, 9]))

    def op_readd(self):
        i = self.tag()
        if i is None:
            return
        x = self.tags[i]
        t, c = x["t"], self.r.choice([x["count"], x["count"] + self.r.choice([1, 7, 8, 100]), max(1, x["count"] - 1)])
        if self.r.random() < .25:
            t = T(self.r.choice(BASES), -1, self.r.random() < .2)
        c = min(c, 3000)
        j = self.w.add(self.client(), x["name"], t, c)
        if j is not None:
            self.note(j, x["name"], t, c)

    def op_badadd(self):
        c = self.r.randrange(7)
        t, n, nm = T("DINT"), 1, self.newname()
        if c == 0:
            nm = self.r.choice(["1abc", "", "a b", "a.b", "a[0]", "_x", "a-b", "x" * 33, "x" * 40, "a\x80", "_tagcount", "a:b", "_"])
        elif c == 1:
            n = 0
        elif c == 2:
            t = T("?", self.r.choice([0, 1, 7, 0x11, 0x47, 0xFF, 0x1000, 0x55]))
        elif c == 3:
            t = T("CDT", self.r.choice([500, 16, 64, 1000000]))
        elif c == 4:
            t, n = T("LINT"), 0x7FFFFFFF
        elif c == 5:
            n = -1
        else:
            x = self.tag()
            if x is None:
                return
            nm = self.tags[x]["name"]
            t = T(self.r.choice([b for b in BASES if b != self.tags[x]["t"]["b"]]))
            # the same bits of size matter too
        self.w.do(self.client(), "add", {"name": nm, "chars": chars(nm), "t": t, "count": max(-CLIP, min(n, 0x7FFFFFFF)), "attr": dict(NOATTR)})

    def op_del(self):
        i = self.tag()
        if i is None or self.r.random() < .1:
            self.w.delete(self.client(), self.anyidx())
            return
        if self.w.delete(self.client(), i):
            self.gone(i)

    def gone(self, i):
        self.dead.append(i)
        self.tags.pop(i, None)
        self.ovr.discard(i)

    def op_get(self):
        c = self.r.random()
        if c < .5 and self.tags:
            i = self.tag()
            if c < .25:
                self.w.geti(self.client(), i)
            else:
                self.w.getn(self.client(), self.tags[i]["name"])
        elif c < .7:
            self.w.geti(self.client(), self.anyidx())
        else:
            n = self.r.choice(self.names or ["zz"])
            self.w.getn(self.client(), self.r.choice([n, n + "x", n[:-1], n.swapcase(), "nosuch", "_tagcount"]))

    def op_read(self):
        i = self.tag()
        if i is None:
            return
        x = self.tags[i]
        if x["q"]:
            self.w.read(self.client(), i, 0, x["n"])
            return
        if self.r.random() < .12:
            n = x["n"]
            off, sz = self.r.choice([(n, 1), (0, n + 1), (n - 1, 2), (-1, 1), (n, 0), (0, 0), (n + 1, 0), (CLIP, 1), (1, n), (4, 0x7FFFFFFF)])
            self.w.read(self.client(), i, max(-CLIP, off), min(sz, CLIP))
            return
        off, sz = self.part(x["n"])
        self.w.read(self.client(), i, off, min(sz, 4088))

    def op_badidx(self):
        i = self.anyidx()
        if 0 <= i <= 10:
            return
        c = self.client()
        k = self.r.randrange(5)
        if k == 0:
            self.w.read(c, i, 0, 1)
        elif k == 1:
            self.w.write(c, i, 0, [1])
        elif k == 2:
            self.w.mwrite(c, i, 0, [1], [1])
        elif k == 3:
            self.w.delete(c, i)
        else:
            self.w.geti(c, i)

    def op_write(self):
        i = self.tag()
        if i is None:
            return
        x = self.tags[i]
        if x["q"]:
            n = x["n"] if self.r.random() < .9 else max(0, x["n"] + self.r.choice([-1, 1]))
            d = self.elems(x["t"]["b"], x["count"]) if x["fl"] else self.data(n)
            self.w.write(self.client(), i, 0 if self.r.random() < .95 else 1, d)
            return
        if self.r.random() < .1:
            n = x["n"]
            off, sz = self.r.choice([(n, 1), (0, n + 1), (n - 1, 2), (-1, 1), (n, 0), (0, 0), (n + 1, 0), (CLIP, 1), (-4, 8)])
            if sz <= 4080:
                self.w.write(self.client(), i, off, self.data(sz))
            return
        off, d = self.wpart(i)
        self.w.write(self.client(), i, off, d)

    def op_mwrite(self):
        i = self.tag(lambda x: not x["fl"])
        if i is None:
            return
        x = self.tags[i]
        if self.r.random() < .08:
            n = x["n"]
            off, sz = self.r.choice([(n, 1), (0, n + 1), (n - 1, 2), (-1, 1), (0, 0)])
            if sz <= 2000:
                self.w.mwrite(self.client(), i, off, self.data(sz), self.data(sz))
            return
        off, sz = self.part(x["n"])
        sz = min(sz, 2040)
        self.w.mwrite(self.client(), i, off, self.data(sz), self.data(sz))

    def op_evadd(self):
        i = self.tag()
        if i is None:
            return
        x = self.tags[i]
        h = self.handle(i)
        b = h["t"]["b"]
        if x["q"]:
            et = self.r.choice(["WRITE", "WRITE", "WRITE", "CHANGE"])
        else:
            ok = ["WRITE", "CHANGE", "DELETED"]
            if b == "BOOL":
                ok += ["SET", "RESET"] * 2
            elif b != "CDT":
                ok += ["GREATER", "LESS", "DEADBAND"] * 2
                if b not in FLOATS:
                    ok += ["EQUAL"] * 2
            et = self.r.choice(ok) if self.r.random() < .92 else self.r.choice(list(EV)[1:] + ["NONSENSE"])
        val = []
        if et in ("EQUAL", "GREATER", "LESS"):
            val = self.elems(b, 1) if b not in ("BOOL", "CDT") else [0] * 8
        elif et == "DEADBAND":
            if b in FLOATS:
                val = list(struct.pack("<f" if b == "REAL" else "<d", self.r.randint(0, 20) * .25))
            elif b not in ("BOOL", "CDT"):
                val = self.ival(b) if self.r.random() < .3 else list(self.r.randint(0, 12).to_bytes(SIZES[b], "little"))
        if self.r.random() < .06 and not x["q"]:
            h = dict(h)
            f = self.r.choice(["byte", "count", "size", "idx"])
            h[f] = {"byte": x["n"], "count": 0, "size": h["size"] + 1, "idx": 4000}[f]
        c = self.client()
        k = self.w.evadd(c, h, et, val, send=self.r.random() < .5)
        if k is not None:
            self.evs.append((c, i, k))

    def op_evdel(self):
        if not self.evs:
            return
        k = self.r.randrange(len(self.evs))
        c, i, d = self.evs[k]
        if self.r.random() < .15:
            self.w.evdel(self.client(), i, self.r.choice([d + 100, 0, -1]))
        elif self.r.random() < .1:
            self.w.evdel(self.client(), i, d)        # possibly somebody else's
        else:
            self.w.evdel(c, i, d)
            if self.r.random() < .8:
                self.evs.pop(k)

    def op_evopt(self):
        if self.evs:
            c, i, d = self.r.choice(self.evs)
            self.w.do(c, "evopt", {"idx": i, "id": d, "send": self.r.random() < .6})

    def op_cdt(self):
        self.k += 1
        name = self.prefix + "T%d" % self.k
        ms, fl, pos = [], False, 0
        mname = self.r.choice(["m%d", "m%d", "x" * 29 + "%d", "%s", "Val_%d"])
        if mname == "%s":       # names that begin with each other
            mname, words = None, self.r.choice([["a", "ab", "abc", "b", "abcd"], ["run", "ru", "running", "r", "Runs"], ["_x", "_", "x_1", "x", "x_11"]])
            self.r.shuffle(words)
        for j in range(self.r.randint(1, 5)):
            if self.types and self.r.random() < .25:
                n = self.r.choice(list(self.types))
                x = self.types[n]
                if x["size"] > 200:
                    continue
                tn, z, f = x["name"], x["size"], x["fl"]
            else:
                tn = self.r.choice(["BOOL"] * 4 + BASES)
                z, f = SIZES[tn], tn in FLOATS
            if f:
                continue
            cnt = self.r.choice([1, 1, 2, 3, 7, 8, 9, 12])
            if self.r.random() < .1 and z <= 4:
                cnt = self.r.choice([31, 33, 64, 65, 100, 129])
            if tn == "BOOL":
                pos += cnt
            else:
                pos = (pos + 7) // 8 * 8 + 8 * z * cnt
            ms.append((mname % j if mname else words[j], tn, cnt))
        if not ms:
            return
        t = self.w.cdt(self.client(), name, ms)
        if t is not None:
            self.types[t["n"]] = {"name": name, "size": (pos + 7) // 8, "members": ms, "fl": False}
            self.w.types[t["n"]] = (pos + 7) // 8
            self.tnames.append(name)

    def op_badcdt(self):
        k = self.r.randrange(10)
        self.k += 1
        n = self.prefix + "B%d" % self.k
        old = self.r.choice(list(self.types.values())) if self.types else None
        c = self.client()
        if k == 0:
            self.w.cdt(c, n, [("a", "NOTYPE", 1)])
        elif k == 1:
            self.w.cdt(c, n, [("a", "INT", 1), ("A" if self.r.random() < .5 else "a", "BOOL", 1)])
        elif k == 2:
            self.w.cdt(c, n, [("a", "INT", 0)])
        elif k == 3:
            self.w.cdt(c, n, [])
        elif k == 4:
            self.w.cdt(c, "1x", [("a", "INT", 1)])
        elif k == 5:
            self.w.cdt(c, n, [("1a", "INT", 1)])
        elif k == 6 and old:
            self.w.cdt(c, old["name"], old["members"] + [("zz", "INT", 1)])
        elif k == 7 and old:
            o = old["members"]
            if self.r.random() < .4:        # or the same in another spelling
                o = [tuple(self.r.choice([z, z.lower(), z.upper()]) if isinstance(z, str) else z for z in m) for m in o]
            self.w.cdt(c, old["name"] if self.r.random() < .7 else old["name"].swapcase(), o)      # identical
        elif k == 8 and old:
            m = list(old["members"])
            m[-1] = (m[-1][0], m[-1][1], m[-1][2] + 1)
            self.w.cdt(c, old["name"], m)
        else:
            self.w.cdt(c, n, [("a", n, 1)])                   # contains itself

    def op_cdtget(self):
        c = self.client()
        if self.types and self.r.random() < .8:
            n = self.r.choice(list(self.types))
            if self.r.random() < .5:
                self.w.do(c, "cdtt", {"t": T("CDT", n)})
            else:
                nm = self.types[n]["name"]
                nm = self.r.choice([nm, nm.lower(), nm.upper()])
                self.w.do(c, "cdtn", {"name": nm, "low": nm.lower()})
        elif self.r.random() < .5:
            self.w.do(c, "cdtt", {"t": T("CDT", self.r.choice([0, 1, 300, 70000]))})
        else:
            nm = self.r.choice(["_module", "_tag_desc", "nosuch", ""])
            self.w.do(c, "cdtn", {"name": nm, "low": nm.lower()})

    def op_map(self):
        a, b = self.tag(lambda x: not x["q"] and not x["fl"]), self.tag(lambda x: not x["q"] and not x["fl"])
        if a is None:
            return
        if a == b and self.tags[a]["n"] > 2000 and self.w.lib:
            return      # a write that takes several messages is several writes
        c = self.r.random()
        if c < .5:
            s = self.handle(a, "BOOL")
            d = self.handle(b, "BOOL")
            n = min(s["count"], d["count"])
            for h in (s, d):
                h["count"], h["size"] = n, (h["bit"] + n - 1) // 8 + 1
        else:
            s, d = self.handle(a), self.handle(b)
        i = self.w.mapadd(self.client(), s, d)
        if i is not None:
            self.maps.append((a, i))
            if self.r.random() < .3:
                self.w.do(self.client(), "mapget", {"idx": a, "id": self.r.choice([i, i, i, i, i + 40, -1])})

    def op_mapdel(self):
        if self.maps:
            k = self.r.randrange(len(self.maps))
            i, d = self.maps[k]
            if self.r.random() < .2:
                d = self.r.choice([d + 50, -1, 0])
            elif self.r.random() < .8:
                self.maps.pop(k)
            self.w.do(self.client(), "mapdel", {"idx": i, "id": d})

    def op_grp(self):
        c = self.client()
        hs = []
        for _ in range(self.r.choice([1, 2, 3, 5])):
            i = self.tag(lambda x: not x["q"] and x["n"] < 800)
            if i is None:
                return
            hs.append(self.handle(i, None))
        if self.r.random() < .1:
            h = dict(hs[-1])
            h[self.r.choice(["idx", "byte"])] = 4000
            hs[-1] = h
        k = self.w.grpadd(c, hs)
        if k is not None:
            self.grp.setdefault(c, {})[k] = hs

    def op_grpread(self):
        c = self.client()
        g = self.grp.get(c)
        if g and self.r.random() < .9:
            self.w.grpread(c, self.r.choice(list(g)))
        else:
            self.w.grpread(c, self.r.choice([0, 1, 3, 17, -1, 100000]))

    def op_grpwrite(self):
        c = self.client()
        g = self.grp.get(c)
        if not g:
            return
        k = self.r.choice(list(g))
        d = []
        for h in g[k]:
            if h["t"]["b"] in FLOATS:
                d += self.elems(h["t"]["b"], h["count"])
            else:
                d += self.data(h["size"])
        if self.r.random() < .08:
            d = d[:-1]
        self.w.grpwrite(c, k, d)

    def op_grpdel(self):
        c = self.client()
        g = self.grp.get(c)
        if g and self.r.random() < .9:
            k = self.r.choice(list(g))
            if self.w.do(c, "grpdel", {"id": k})[0]:
                g.pop(k)
        else:
            self.w.do(c, "grpdel", {"id": self.r.choice([0, 1, 5, 40, -1])})

    def op_atomic(self):
        i = self.tag(lambda x: not x["q"] and x["t"]["b"] != "CDT")
        if i is None:
            return
        x = self.tags[i]
        b = x["t"]["b"]
        if b != "BOOL" and b not in FLOATS and self.r.random() < .15:
            h = self.handle(i, "BOOL")
        else:
            h = self.handle(i)
        b = h["t"]["b"]
        if b in FLOATS:
            op = self.r.choice(["INC", "DEC"])
        elif b == "BOOL":
            op = self.r.choice([o for o in AOP if o not in ("INC", "DEC")])
        else:
            op = self.r.choice(["INC", "INC", "DEC", "DEC"] + list(AOP))
        if self.r.random() < .05:
            op = self.r.choice(list(AOP) + ["NONSENSE"])
        if op in ("INC", "DEC") and self.r.random() < .9:
            z = SIZES[b] or 1
            h["byte"] += z * self.r.randrange(h["count"]) if b != "BOOL" else 0
            h["count"], h["size"] = 1, z
        if self.r.random() < .04:
            h["byte"] = x["n"]
        d = self.elems(b, h["count"]) if b != "BOOL" else self.data(h["size"])
        if b in FLOATS:
            d = list(struct.pack("<f" if b == "REAL" else "<d", self.r.randint(-20, 20) * .25)) * h["count"]
        self.w.atomic(self.client(), h, op, d)

    def op_ovradd(self):
        i = self.tag(lambda x: not x["q"] or self.r.random() < .05)
        if i is None:
            return
        n = self.tags[i]["n"]
        off, sz = self.part(n)
        sz = min(sz, 2000)
        if self.r.random() < .06:
            off, sz = self.r.choice([(n, 1), (0, n + 1), (n - 1, 2), (-1, 1)])
            if sz > 2000:
                return
        m = self.data(sz)
        if not any(m):
            m[0] = 255
        if self.w.ovradd(self.client(), i, off, self.data(sz), m):
            self.ovr.add(i)

    def op_ovrset(self):
        i = self.r.choice(sorted(self.ovr)) if self.ovr and self.r.random() < .8 else self.tag()
        if i is not None:
            self.w.ovrset(self.client(), i, self.r.random() < .7)

    def op_ovrdel(self):
        i = self.r.choice(sorted(self.ovr)) if self.ovr and self.r.random() < .9 else self.tag()
        if i is None or i not in self.tags:
            return
        n = self.tags[i]["n"]
        if self.r.random() < .3 and n <= 2000:
            self.w.ovrdel(self.client(), i, 0, [255] * n)
        else:
            off, sz = self.part(n)
            self.w.ovrdel(self.client(), i, off, self.data(min(sz, 2000)))

    def op_ovrget(self):
        i = self.r.choice(sorted(self.ovr)) if self.ovr and self.r.random() < .9 else self.tag()
        if i is None or i not in self.tags:
            return
        n = self.tags[i]["n"]
        off, sz = self.part(n) if self.r.random() < .9 else self.r.choice([(n, 1), (0, n + 1), (-1, 1)])
        self.w.ovrget(self.client(), i, off, min(sz, 2044))

    def op_status(self):
        self.w.read(self.client(), *self.r.choice([(0, 0, 4), (1, 0, 4), (2, 0, 47), (3, 0, 47), (4, 0, 4), (6, 0, 33), (7, 0, 4), (8, 0, 4)]))

    def op_syswrite(self):
        """attempts to change status tags"""
        i = self.r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10])
        z = [4, 4, 47, 47, 4, 8, 33, 4, 4, 8, 33][i]
        tt = [T("DINT"), T("DINT"), T("CDT", 1), T("CDT", 1), T("DINT"), T("TIME"), T("CHAR"), T("DINT"), T("DINT"), T("TIME"), T("CHAR")][i]
        cnt = 33 if i in (6, 10) else 1
        c = self.client()
        k = self.r.randrange(7)
        if k == 0:
            self.w.write(c, i, 0, self.data(z))
        elif k == 1:
            self.w.mwrite(c, i, self.r.randrange(z), [self.byte()], [255])
        elif k == 2:
            self.w.delete(c, i)
        elif k == 3:
            self.w.atomic(c, H(i, 0, 0, 1, 4, T("DINT")), "INC", [1, 0, 0, 0])
        elif k == 4:
            g = self.w.grpadd(c, [H(i, 0, 0, cnt, z, tt)])
            if g is not None:
                self.w.grpwrite(c, g, self.data(z))
                self.w.do(c, "grpdel", {"id": g})
        elif k == 5:
            s = self.tag(lambda x: not x["q"] and x["n"] >= z)
            if s is not None:
                self.w.mapadd(c, H(s, 0, 0, z, z, T("BYTE")), H(i, 0, 0, cnt, z, tt))
        else:
            self.w.write(c, i, 0, [])
        if i != 9:
            self.w.read(c, i, 0, z)

    def op_churn(self):
        """a client goes and comes back"""
        if len(self.clients) < 2:
            return
        c = self.clients[-1]
        self.w.leave(c)
        self.grp.pop(c, None)
        self.evs = [e for e in self.evs if e[0] != c]
        self.w.join(c, self.r.choice([c, c, "module", "m", c + "x" * self.r.choice([3, 12, 26, 27, 28, 29, 30, 31, 40])]))

    def run(self, weights, steps):
        ops, ws = list(weights), list(weights.values())
        while len(self.w.steps) < steps and not self.w.broken:
            getattr(self, "op_" + self.r.choices(ops, ws)[0])()

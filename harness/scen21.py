"""Scripts: the Lua package (C21)."""
import struct
from luaapi import *

INTS = ["BYTE", "SINT", "CHAR", "WORD", "INT", "UINT", "DWORD", "DINT", "UDINT", "LWORD", "LINT", "ULINT", "TIME"]
ONE = ["BYTE", "SINT", "CHAR"]
BASE = INTS + ["BOOL", "REAL", "LREAL"]


def lua(fn):
    fn.lua = True
    return fn


class Script:
    def __init__(self, w, rich=True, c="L"):
        self.w, self.r, self.c, self.rich = w, w.rnd, c, rich
        self.types, self.tags, self.held, self.evs, self.maps = {}, {}, [], [], []
        self.n = 0
        w.join("A")
        w.join(c)

    def name(self, p):
        self.n += 1
        return p + str(self.n)

    # -- types and tags ----------------------------------------------------
    def cdt(self, c=None):
        r = self.r
        ms, z = [], 0
        flags = r.random() < .3
        for k in range(r.randint(3 if flags else 1, 5)):
            if flags and r.random() < .7:
                ms.append(("flag%d" % k, "BOOL", r.choice([1, 1, 1, 2, 7])))
                continue
            known = [n for n in self.types if self.types[n]["size"] < 60]
            if known and r.random() < .4:
                odd = [n for n in known if self.types[n]["size"] % 2]
                t = r.choice(odd if odd and r.random() < .5 else known)
                ms.append(("m%d" % k, t, r.choice([1, 2, 3, 4])))
            else:
                ms.append((r.choice(["m%d", "member_%d"]) % k, r.choice(BASE + ["BOOL", "CHAR"]), r.choice([1, 1, 1, 2, 3, 5, 9])))
        nm = self.name("Ty")
        v = self.w.cdt(c or r.choice([self.c, self.c, "A"]), nm, ms)
        if v is None:
            return None
        bits = 0
        for m, t, n in ms:
            if t == "BOOL":
                bits += n
            else:
                bits = (bits + 7) // 8 * 8 + 8 * (SIZES[t] if t in SIZES else self.types[t]["size"]) * n
        self.types[nm] = {"t": v, "ms": ms, "size": (bits + 7) // 8}
        if self.w.types is None:
            self.w.types = {}
        self.w.types[v["n"]] = self.types[nm]["size"]
        return nm

    def size(self, ty, n=1):
        return (n + 7) // 8 if ty == "BOOL" else n * (SIZES[ty] if ty in SIZES else self.types[ty]["size"])

    def floats(self, ty):
        return ty in ("REAL", "LREAL") or ty in self.types and any(self.floats(t) for _, t, _ in self.types[ty]["ms"])

    def t(self, ty, q=False):
        t = T(ty) if ty in SIZES or ty == "BOOL" else self.types[ty]["t"]
        return dict(t, q=q)

    def tag(self, ty=None, n=None, q=False, who=None, **k):
        r = self.r
        if ty is None:
            ty = r.choice(BASE + list(self.types) * 3)
        if n is None:
            n = r.choice([1, 1, 2, 3, 7, 8, 9, 20] if r.random() < .85 else [100, 260, 300])
        if self.size(ty, n) > 900:
            n = 1
        nm = self.name(r.choice(["tag", "T", "a_long_name_of_a_tag_"]))
        v = self.w.add(who or r.choice([self.c, self.c, "A"]), nm, self.t(ty, q), n, **k)
        i = v["idx"] if isinstance(v, dict) else v
        if i is None:
            return None
        self.tags[nm] = {"idx": i, "ty": ty, "n": n, "q": q, "live": True}
        return nm

    # -- addresses ---------------------------------------------------------
    def part(self, nm, whole=.3):
        """(address, type, count) of something in a tag"""
        r = self.r
        x = self.tags[nm]
        ty, n = x["ty"], x["n"]
        if x["q"] or r.random() < whole:
            return self.w.named(nm), ty, n
        sub, path, bit, count = -1, [], -1, 0
        if n > 1 and r.random() < .8:
            sub = r.randrange(n)
        last = sub
        while ty in self.types and r.random() < .85 and (last >= 0 or n == 1):
            m, mt, mn = r.choice(self.types[ty]["ms"])
            ty, n = mt, mn
            last = r.randrange(n) if r.random() < .75 and (n > 1 or r.random() < .2) else -1
            path.append((m, last))
        if last >= 0:
            left = n - last
            n = 1
            if r.random() < .3:
                n = count = r.randint(1, left)
        elif r.random() < .2:
            n = count = r.randint(1, n)
        elif n == 1 and ty in INTS and ty != "TIME" and r.random() < .25:
            bit = r.randrange(8 * SIZES[ty])
            ty = "BOOL"
        if n == 1 and last >= 0 and count == 0 and ty in INTS and ty != "TIME" and r.random() < .25:
            bit = r.randrange(8 * SIZES[ty])
            ty = "BOOL"
        return self.w.named(nm, sub, path, bit, count), ty, n

    def ref(self, write=False):
        """(reference, type, count)"""
        r = self.r
        if self.held and r.random() < .3:
            return r.choice(self.held)
        nm = r.choice(list(self.tags))
        for _ in range(20):
            a, ty, n = self.part(nm)
            if a["addr"]["count"] == 0:
                return a, ty, n
            if r.random() < .5:
                return self.hold((a, ty, n)) or (self.w.named(nm), self.tags[nm]["ty"], self.tags[nm]["n"])
        return self.w.named(nm), self.tags[nm]["ty"], self.tags[nm]["n"]

    def hold(self, p=None):
        a, ty, n = p or self.part(self.r.choice(list(self.tags)))
        key = len(self.held) if len(self.held) < 12 else self.r.randrange(12)
        h = self.w.uhandle(self.c, key, dict(a["addr"], count=a["addr"]["count"] or (n if self.r.random() < .5 else 0)))
        if h is None:
            return None
        x = (h, ty, n)
        if key < len(self.held):
            self.held[key] = x
        else:
            self.held.append(x)
        return x

    # -- values ------------------------------------------------------------
    def number(self, ty):
        r = self.r
        if ty == "LREAL" or ty == "REAL":
            if not self.rich:
                return r.choice([0, 1, -1, 0.25, -2.5, 100, 31.75, r.randrange(-8000, 8000) / 4])
            if r.random() < .3:
                return r.choice([0, 1, -1, 255, r.randrange(-1 << 20, 1 << 20), 1 << 23])
            if ty == "REAL":
                return r.choice([0.0, .5, -1.25, float(r.randrange(1 << 24)), r.randrange(1, 1 << 24) * 2.0 ** r.randrange(-100, 100), -r.randrange(1, 999) / 1024])
            return r.choice([0.0, .1, -1 / 3, 1e300, 1e-300, r.random(), r.uniform(-1e6, 1e6), 123456789.987654321, float(1 << 60)])
        z = 8 * SIZES[ty]
        k = r.random()
        if not self.rich:
            return r.choice([0, 1, 2, 5, 100, 127, r.randrange(-128, 128), r.randrange(1 << (z - 1)), -r.randrange(1 << (z - 1)) if ty[0] not in 'UBWL' else r.randrange(1 << (z - 1))])
        if k < .35:
            return r.randrange(1 << z) if z < 64 else r.randrange(-1 << 63, 1 << 63)
        if k < .6:
            return r.choice([0, 1, -1, (1 << z - 1) - 1, -(1 << z - 1), min((1 << z) - 1, (1 << 63) - 1), -(1 << 63), (1 << 63) - 1, (1 << 53) + 1])
        if k < .75:
            return r.randrange(-1 << 40, 1 << 40)       # more than fits
        f = r.choice([0.0, 1.5, -2.75, 3.9999, -0.5, 255.5, 65537.25, 4294967295.0, 1e15, -1e18, 2.0 ** 40 + .5, float(r.randrange(1 << 53)), -128.0, 0.999, 9.0])
        if ty in ("LWORD", "ULINT") and r.random() < .3:
            f = r.choice([2.0 ** 63, 1.5 * 2.0 ** 63, 2.0 ** 64 - 2048])
        return f

    def value(self, ty, n, wrong=.0, part=.25):
        r = self.r
        if n > 1:
            if r.random() < wrong:
                return r.choice([None, 5, 2.5, True, b"text" if ty not in ONE else False, False, b"" if ty not in ONE else 0])
            if ty in ONE and r.random() < (.6 if ty == "CHAR" else .3):
                return bytes(r.choice([65, 97, 48, 32, r.randrange(1, 256), r.randrange(256)]) for _ in range(r.choice([0, 1, n - 1, n, n + 1, n + 30, r.randrange(n + 1)])))
            some = r.random() < part
            m = [(k, self.value(ty, 1, wrong / 2, part)) for k in range(1, n + 1) if not some or r.random() < .6]
            if r.random() < .1:
                m += r.choice([[(n + 1, 7)], [("other", 3)], [(-1, b"x")]]) + ([(0, True)] if r.random() < .5 else [])
            r.shuffle(m)
            return [x for x in m if x[1] is not None]
        if ty in self.types:
            if r.random() < wrong:
                return r.choice([5, 2.5, True, b"text", False])
            some = r.random() < part
            m = [(m, self.value(t, k, wrong / 2, part)) for m, t, k in self.types[ty]["ms"] if not some or r.random() < .6]
            if r.random() < .1:
                m += [("nomember", 5), (1, 2)]
            r.shuffle(m)
            return [x for x in m if x[1] is not None]
        if ty == "BOOL":
            return r.choice([True, False, True, False, 1, 2.5, b"yes"])
        return self.number(ty)

    def raw(self, nm, c="A"):
        """written by a client that is no script"""
        x = self.tags[nm]
        b = self.bytes(x["ty"], x["n"])
        if x["ty"] == "BOOL" and not x["q"]:
            b = b[:(x["n"] + 7) // 8]
        self.w.write(c, x["idx"], 0, b)

    def bytes(self, ty, n):
        r = self.r
        if ty == "BOOL":
            return [r.randrange(256) for _ in range((n + 7) // 8)]
        out = []
        for _ in range(n):
            if ty in ("REAL", "LREAL"):
                out += struct.pack("<f" if ty == "REAL" else "<d", self.number(ty))
            elif ty in self.types:
                cur, bits = [], 0
                for m, t, k in self.types[ty]["ms"]:
                    if t == "BOOL":
                        for _ in range(k):
                            if bits % 8 == 0:
                                cur.append(0)
                            cur[-1] |= r.randrange(2) << bits % 8
                            bits += 1
                    else:
                        bits = 8 * len(cur)
                        cur += self.bytes(t, k)
                        bits = 8 * len(cur)
                out += cur
            elif ty == "CHAR":
                out.append(r.choice([0, 65, 98, 200, r.randrange(256)]))
            else:
                out += [r.choice([0, 255, r.randrange(256)]) for _ in range(SIZES[ty])]
        return out

    # -- what the script does ----------------------------------------------
    def read(self):
        a, ty, n = self.ref()
        if a["key"] < 0 and self.r.random() < .15:      # with a count
            a, ty, n = self.part(self.r.choice(list(self.tags)), .5)
            if a["addr"]["bit"] < 0:
                a = dict(a, addr=dict(a["addr"], count=self.r.choice([0, 1, n, n + 1 if self.r.random() < .3 else n])))
        self.w.uread(self.c, a)

    def write(self, wrong=.12):
        a, ty, n = self.ref()
        self.w.uwrite(self.c, a, self.value(ty, n, wrong))
        if self.r.random() < .4:
            self.w.uread(self.c, a)

    def badref(self):
        r, w = self.r, self.w
        nm = r.choice(list(self.tags))
        x = self.tags[nm]
        if x["q"]:
            return
        a = r.choice([w.named("nosuch"), w.named(nm, x["n"]), w.named(nm, -1, [("nomember", -1)]), w.named(nm, 0, [], 64),
                      w.named(nm, bad=True, text=nm + "["), w.named("", bad=True, text=""), w.named(nm, bad=True, text=nm + ".")])
        k = r.randrange(4)
        if k == 0:
            w.uread(self.c, a)
        elif k == 1:
            w.uwrite(self.c, a, r.choice([1, [(1, 1)]]))
        elif k == 2:
            w.uhandle(self.c, 50, dict(a["addr"], count=1))
        else:
            w.do(self.c, "uovrdel", dict(a))

    def get(self):
        r = self.r
        nm = r.choice(list(self.tags) + ["nosuch", "_tagcount", "_lastmodule"])
        x = self.tags.get(nm)
        if x and r.random() < .5:
            self.w.do(self.c, "uget", {"idx": x["idx"], "name": ""})
        elif r.random() < .1:
            self.w.do(self.c, "uget", {"idx": r.choice([9999, 4000000]), "name": ""})
        else:
            self.w.do(self.c, "uget", {"idx": -1, "name": nm})

    def delete(self):
        if len(self.tags) < 4:
            return
        nm = self.r.choice(list(self.tags))
        x = self.tags.pop(nm)
        self.w.do(self.r.choice([self.c, self.c, "A"]), "del", {"idx": x["idx"], "name": nm})
        self.gone = getattr(self, "gone", []) + [nm]


@lua
def c21_values(w):
    """every kind of value, there and back"""
    r = w.rnd
    s = Script(w)
    for _ in range(r.randint(2, 5)):
        s.cdt()
    for ty in r.sample(BASE, 5):
        s.tag(ty)
    for _ in range(4):
        s.tag()
    for ty in list(s.types)[-3:]:
        s.tag(ty, r.choice([1, 1, 2]))
    for _ in range(70):
        x = r.random()
        if x < .45:
            s.write()
        elif x < .65:
            s.read()
        elif x < .8:
            s.raw(r.choice(list(s.tags)))
            s.read()
        elif x < .88:
            s.hold()
        elif x < .92:
            s.badref()
        elif x < .95:
            s.get()
        elif x < .97:
            s.delete()
        else:
            s.tag()
    w.dump("A")


@lua
def c21_types(w):
    """each type in turn, alone and in an array and in a compound"""
    r = w.rnd
    s = Script(w)
    ty = BASE[w.seed % len(BASE)]
    nm = s.name("One")
    v = w.cdt("L", nm, [("a", ty, 1), ("b", "BOOL", 3), ("c", ty, 4), ("d", "CHAR", 6)])
    if v is None:
        return
    z = SIZES[ty] if ty != "BOOL" else 0
    s.types[nm] = {"t": v, "ms": [("a", ty, 1), ("b", "BOOL", 3), ("c", ty, 4), ("d", "CHAR", 6)], "size": (z + 1 + 4 * z if z else 1) + 6}
    w.types = {v["n"]: s.types[nm]["size"]}
    for n, t in ((1, ty), (5, ty), (130 if ty in ("CHAR", "BOOL") else 16, ty), (1, nm), (3, nm)):
        s.tag(t, n)
    for _ in range(60):
        if r.random() < .25:
            s.raw(r.choice(list(s.tags)))
        if r.random() < .6:
            s.write(.05)
        else:
            s.read()
    w.dump("A")


@lua
def c21_queues(w):
    """queues of values"""
    r = w.rnd
    s = Script(w)
    s.cdt()
    for _ in range(5):
        s.tag(q=True)
    s.tag()
    for _ in range(45):
        nm = r.choice(list(s.tags))
        x = s.tags[nm]
        k = r.random()
        if k < .45:
            w.uwrite("L", w.named(nm), s.value(x["ty"], x["n"], .05, .1))
        elif k < .9:
            w.uread("L", w.named(nm))
        elif k < .95:
            s.raw(nm)
        else:
            h = w.uhandle("L", 3, address(nm))
            if h:
                w.uread("L", h)
    w.dump("A")


@lua
def c21_api(w):
    """subscriptions, mappings, overrides, atomic operations"""
    r = w.rnd
    s = Script(w, rich=False)
    if r.random() < .6:
        s.cdt()
    for _ in range(7):
        s.tag(n=r.choice([1, 1, 2, 4, 9]))
    for _ in range(80):
        x = r.random()
        a, ty, n = s.ref()
        if x < .2:
            s.write(.03)
        elif x < .3:
            s.raw(r.choice([k for k in s.tags])) if r.random() < .5 else s.read()
        elif x < .45 and len(s.evs) < 6:
            nm = r.choice(list(s.tags))
            a, ty, n = s.part(nm)
            e = w.uevadd("L", a, r.choice(["WRITE", "CHANGE", "SET", "RESET", "EQUAL", "GREATER", "LESS", "DEADBAND"]),
                         s.number(ty) if ty in SIZES and ty != "BOOL" else 0, r.choice(["", "", "angry", "routine"]))
            if e:
                s.evs.append((s.tags[nm]["idx"], e))
        elif x < .5 and s.evs:
            i, e = s.evs.pop(r.randrange(len(s.evs)))
            w.do("L", "evdel", {"idx": i, "id": e[0], "at": e[1]})
            if r.random() < .3:
                w.do("L", "evdel", {"idx": i, "id": e[0], "at": e[1]})      # twice
        elif x < .62:
            op = r.choice(["INC", "DEC", "NOT", "OR", "AND", "NOR", "NAND", "XOR", "BAD"])
            w.uatomic("L", a, s.value(ty, n, .05, .15), op)
        elif x < .7 and len(s.maps) < 5:
            b, tb, nb = s.ref()
            if ty != tb and s.floats(tb):
                continue        # numbers nobody specified
            m = {"src": a, "dst": b}
            ok, i = w.do("L", "umapadd", m)
            if ok:
                s.maps.append((a["h"]["idx"] if a["key"] >= 0 else s.tags[a["addr"]["name"]]["idx"], i, m["at"]))
        elif x < .74 and s.maps:
            i, d, at = r.choice(s.maps)
            if r.random() < .2:
                i, at = s.tags[r.choice(list(s.tags))]["idx"], 0
            w.do("L", r.choice(["mapget", "mapget", "mapdel"]), {"idx": i, "id": d, "at": at})
        elif x < .82:
            w.uovradd("L", a, s.value(ty, n, .05, .1))
        elif x < .88:
            w.do("L", "uovrset", dict(a, on=r.random() < .6))
        elif x < .92:
            w.do("L", "uovrdel", dict(a))
        elif x < .95:
            s.delete()
            s.evs = [e for e in s.evs if any(t["idx"] == e[0] for t in s.tags.values())]
        elif x < .97:
            s.badref()
        else:
            s.get()
    w.dump("A")


MISUSE = [
    "dax.tag_read()", "dax.tag_read(nil)", "dax.tag_read({})", "dax.tag_read(true)", "dax.tag_read(1, 2, 3)", "dax.tag_read(io.stdout)", "dax.tag_read('@', -1)",
    "dax.tag_write()", "dax.tag_write('@')", "dax.tag_write(nil, 1)", "dax.tag_write({}, 1)", "dax.tag_write(io.stdout, 1)", "dax.tag_write('@', 1, 2)",
    "dax.tag_add()", "dax.tag_add('x')", "dax.tag_add(nil, 'INT')", "dax.tag_add({}, 'INT')", "dax.tag_add('xx', nil)", "dax.tag_add('xx', {})", "dax.tag_add('xx', 'NOTYPE')",
    "dax.tag_add('xx', 'INT', 0)", "dax.tag_add('xx', 'INT', -1)", "dax.tag_add('1x', 'INT')", "dax.tag_add('xx', 'INT', 1, 0, 0)", "dax.tag_add('', 'INT')",
    "dax.tag_add('xx', 'INT', 'many')", "dax.tag_add('xx', true)", "dax.tag_add('xx', 'INT', {})",
    "dax.tag_get()", "dax.tag_get(nil)", "dax.tag_get({})", "dax.tag_get('nosuch')", "dax.tag_get(-1)", "dax.tag_get(99999)",
    "dax.tag_handle()", "dax.tag_handle(nil)", "dax.tag_handle({}, 1)", "dax.tag_handle('@', -5)", "dax.tag_handle('nosuch')", "dax.tag_handle('@', 100000)",
    "dax.tag_del()", "dax.tag_del(nil)", "dax.tag_del('nosuch')", "dax.tag_del({})", "dax.tag_del(99999)", "dax.tag_del(-1)", "dax.tag_del('@', 1)", "dax.tag_del('_tagcount')",
    "dax.cdt_create()", "dax.cdt_create(nil, {})", "dax.cdt_create('C')", "dax.cdt_create('C', nil)", "dax.cdt_create('C', 5)", "dax.cdt_create('C', {5})", "dax.cdt_create('C', {})",
    "dax.cdt_create('C', {{}})", "dax.cdt_create('C', {{'a'}})", "dax.cdt_create('C', {{'a', 'INT'}})", "dax.cdt_create('C', {{nil, 'INT', 1}})", "dax.cdt_create('C', {{'a', nil, 1}})",
    "dax.cdt_create('C', {{'a', 'NOTYPE', 1}})", "dax.cdt_create('C', {{'a', 'INT', 0}})", "dax.cdt_create('C', {{'a', 'INT', -3}})", "dax.cdt_create('C', {'abc'})", "dax.cdt_create({}, {{'a', 'INT', 1}})",
    "dax.cdt_create('C', {{'a', 'INT', 1}, 7})", "dax.cdt_create('C', {{{}, 'INT', 1}})", "dax.cdt_create('C', {{'a', 'INT', 1}, {'a', 'INT', 1}})", "dax.cdt_create('C', {{'1a', 'INT', 1}})",
    "dax.cdt_create('INT', {{'a', 'INT', 1}})", "dax.cdt_create('C', {{'a', 'INT', 1}, {true}})",
    "dax.event_add()", "dax.event_add(nil, 1, 'WRITE', 0, print, 0)", "dax.event_add('@', 1, nil, 0, print, 0)", "dax.event_add('@', 1, 'NOEVENT', 0, print, 0)",
    "dax.event_add('@', 1, {}, 0, print, 0)", "dax.event_add('@', 1, 'WRITE', 0, 'print', 0)", "dax.event_add('@', 1, 'WRITE', 0, {}, 0)", "dax.event_add('@', 1, 'WRITE', 0, true, 0)",
    "dax.event_add('@', 1, 'WRITE', 0, print)", "dax.event_add('nosuch', 1, 'WRITE', 0, print, 0)", "dax.event_add('@', 100000, 'WRITE', 0, print, 0)", "dax.event_add('@', 1, 'WRITE', 0, 7, 0)",
    "dax.event_del()", "dax.event_del(nil)", "dax.event_del(5)", "dax.event_del({99999, 1})", "dax.event_del({12, 99999})", "dax.event_del({})", "dax.event_del('x')",
    "dax.event_wait(1, 2)",
    "dax.atomic_op()", "dax.atomic_op('@')", "dax.atomic_op('@', 1)", "dax.atomic_op(nil, 1, 1)", "dax.atomic_op('nosuch', 1, 1)", "dax.atomic_op({}, 1, 1)", "dax.atomic_op('@', 1, 1, 1)",
    "dax.atomic_op(1)", "dax.atomic_op('@', 1, 4711)", "dax.atomic_op(io.stdout, 1, 1)",
    "dax.map_add()", "dax.map_add('@')", "dax.map_add('@', nil)", "dax.map_add('nosuch', '@')", "dax.map_add('@', 'nosuch')", "dax.map_add({}, {})", "dax.map_add(io.stdout, '@')",
    "dax.map_get()", "dax.map_get(5)", "dax.map_get(nil)", "dax.map_del()", "dax.map_del(5)", "dax.map_del({99999, 1})", "dax.map_del({12, 9999})",
    "dax.override_add()", "dax.override_add('@')", "dax.override_add(nil, 1)", "dax.override_add('nosuch', 1)", "dax.override_add({}, 1)", "dax.override_add('@', 1, 1)", "dax.override_add(io.stdout, 1)",
    "dax.override_set()", "dax.override_set(nil)", "dax.override_set('nosuch')", "dax.override_set('@', 1)", "dax.override_set('@')", "dax.override_set({})",
    "dax.override_clr()", "dax.override_clr('nosuch')", "dax.override_clr(nil)",
    "dax.override_del()", "dax.override_del('nosuch')", "dax.override_del(nil)", "dax.override_del('@')", "dax.override_del(true)",
    "dax.sleep()", "dax.log()", "dax.log('x', 'y')", "dax.log(1)", "dax.log(1, nil)", "dax.log(1, {})", "dax.init()", "dax.init({})", "dax.init(nil)",
    "local h = dax.tag_handle('@') return h.nosuch.x", "local h = dax.tag_handle('@') h.index = 5", "return #dax.tag_handle('@')", "return dax.tag_handle('@')[{}].x",
    "return dax.tag_handle('@')[nil].x",
]
HARMLESS = [
    "dax.log(LOG_USER1, 'plain')", "dax.log(LOG_USER1, '%s%s%s%s%s%s%n%d')", "dax.log(LOG_ERROR, '100%')", "dax.sleep(1)", "local x = tostring(dax.tag_handle('@')) assert(type(x) == 'string')",
    "assert(dax.tag_handle('@').nosuch == nil)", "assert(dax.event_poll() == 0)", "assert(dax.event_wait(5) == 0)", "collectgarbage()",
    "assert(dax.tag_handle('@')[5] == nil)", "assert(TAG_ATTR_RETAIN == 4 and TAG_ATTR_READONLY == 1 and TAG_ATTR_VIRTUAL == 2)",
]
# while there's no connection
ALONE = ["dax.tag_read('@')", "dax.tag_write('@', 1)", "dax.tag_add('yy', 'INT')", "dax.tag_get('@')", "dax.tag_handle('@')", "dax.tag_del('@')", "dax.cdt_create('D', {{'a', 'INT', 1}})",
         "dax.event_add('@', 1, 'WRITE', 0, print, 0)", "dax.event_del({12, 1})", "dax.event_poll()", "dax.event_wait(5)", "dax.atomic_op('@', 1, 1)", "dax.map_add('@', '@')",
         "dax.map_get({12, 1})", "dax.map_del({12, 1})", "dax.override_add('@', 1)", "dax.override_set('@')", "dax.override_clr('@')", "dax.override_del('@')", "dax.free()"]


@lua
def c21_misuse(w):
    """calls that make no sense raise errors, and everything goes on"""
    r = w.rnd
    s = Script(w, rich=False)
    nm = s.tag("DINT", 3, who="L")
    s.cdt()
    for _ in range(3):
        s.tag()
    if nm is None or nm not in s.tags:
        return
    w.uevadd("L", w.named(nm), "CHANGE")
    part = [m for k, m in enumerate(MISUSE) if k % 3 == w.seed % 3]
    r.shuffle(part)
    for m in part:
        w.bad("L", m.replace("@", nm))
        if r.random() < .15:
            w.do("L", "nop", {"text": r.choice(HARMLESS).replace("@", nm)})
        if r.random() < .15:
            s.write(0)
        if r.random() < .1:
            s.read()
    for m in HARMLESS:
        w.do("L", "nop", {"text": m.replace("@", nm)})
    w.uwrite("L", w.named(nm), [(1, 5), (2, 6)])
    w.uread("L", w.named(nm))
    w.dump("A")


@lua
def c21_again(w):
    """a script that ends its connection and makes another one"""
    r = w.rnd
    s = Script(w, rich=False)
    for _ in range(4):
        s.tag(r.choice(BASE), r.choice([1, 3]), own=r.random() < .5)
    nm = list(s.tags)[0] if s.tags else None
    if nm is None:
        return
    for k in range(3):
        for _ in range(6):
            if not s.tags:
                break
            if r.random() < .6:
                s.write(0)
            else:
                e = w.uevadd("L", w.named(r.choice(list(s.tags))), r.choice(["WRITE", "CHANGE"]))
        s.held = []
        w.leave("L")
        if w.broken:
            return
        for m in r.sample(ALONE, 8):
            ok, v = w.idle.cmd(m.replace("@", nm))
            if ok:
                w.fail("L", "ubad", {"text": m}, "no error without a connection")
                return
        w.write("A", 12, 0, [1])
        w.back("L", r.choice(["L", "again%d" % k]))
        for t in list(s.tags):
            ok, v = w.getn("A", t)
            if not ok:
                s.tags.pop(t)
        while len(s.tags) < 3 and not w.broken:
            s.tag(r.choice(BASE), 2)
    w.dump("A")


@lua
def c21_events(w):
    """many subscriptions, and many tags"""
    r = w.rnd
    s = Script(w, rich=False)
    for k in range(r.choice([0, 30, 40])):
        w.add("A", "fill%d" % k, r.choice(BASE), r.choice([1, 3]))
    for k in range(5):
        s.tag(BASE[(5 * w.seed + k) % len(BASE)], r.choice([1, 1, 2, 4]))
    limits = []
    for _ in range(75):
        x = r.random()
        if x < .4 and len(s.evs) < 24:
            nm = r.choice(list(s.tags))
            a, ty, n = s.part(nm)
            v = s.number(ty) if ty in SIZES and ty != "BOOL" else 0
            et = r.choice(["WRITE", "CHANGE", "SET", "RESET", "EQUAL", "GREATER", "LESS", "EQUAL", "GREATER", "LESS"])
            e = w.uevadd("L", a, et, v, r.choice(["", "", "angry", "routine"]))
            if e:
                s.evs.append((s.tags[nm]["idx"], e))
                if et in ("EQUAL", "GREATER", "LESS") and n == 1:
                    limits.append((nm, a, v))
        elif x < .55 and s.evs:
            i, e = s.evs.pop(r.randrange(len(s.evs)))
            w.do("L", "evdel", {"idx": i, "id": e[0], "at": e[1]})
        elif x < .6:
            s.get()
        elif x < .65:
            s.tag(r.choice(BASE), 2)
        elif x < .7:
            s.delete()
            s.evs = [e for e in s.evs if any(t["idx"] == e[0] for t in s.tags.values())]
        elif x < .8 and limits:
            nm, a, v = r.choice(limits)
            if nm in s.tags:
                for d in (-1, 0, 1):
                    w.uwrite("L", dict(a, addr=dict(a["addr"], count=0)), v + d)
        elif x < .87:
            s.raw(r.choice(list(s.tags)))
        else:
            s.write(0)
    w.dump("A")


C21 = [(c21_events, 12, 160), (c21_values, 16, 220), (c21_types, 16, 160), (c21_queues, 6, 60), (c21_api, 14, 220), (c21_misuse, 6, 60), (c21_again, 5, 50)]

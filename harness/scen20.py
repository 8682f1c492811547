"""The Modbus module as a server (C20)."""
import scen
from gen import *
from module import *

KEYS = ("hold", "input", "coil", "disc")
READS, WRITES = (1, 2, 3, 4), (5, 6, 15, 16)
KEY = {1: "coil", 5: "coil", 15: "coil", 2: "disc", 3: "hold", 6: "hold", 16: "hold", 4: "input"}
LIMIT = {1: 2000, 2: 2000, 3: 125, 4: 125, 5: 1, 6: 1, 15: 1968, 16: 123}


def uses(fn):
    fn.modules = ("daxmodbus",)
    return fn


def word(n):
    return [n >> 8 & 255, n & 255]


def unit(n, sizes, tag="", **k):
    u = {"unit": n}
    for key, z in zip(KEYS, sizes):
        if z:
            u[key] = ("%s%s%d" % (tag, key, n), z)
    u.update(k)
    return u


def start(w, ports, logs=None, before=None):
    """the server, a client A and the module"""
    if not w.cl:
        w.join("A")
    idx = {n: w.add("A", n, "DINT", 4) for n in logs or ()}
    try:
        return Modbus(w, scen.EXE["daxmodbus"], ports, idx)
    except Died as x:
        w.fail("deaf", "mbconf", {}, str(x))
        return None


class Asker:
    """requests of all kinds"""
    def __init__(self, w, m):
        self.w, self.m, self.r = w, m, w.rnd
        self.conns = {}

    def conn(self, port):
        if port not in self.conns:
            self.conns[port] = self.m.open(port)
        return self.conns[port]

    def pdu(self, port, u=None, fc=None, at=None, count=None):
        r = self.r
        us = self.m.ports[port]
        if u is None:
            u = r.choice(us)
        n = u["unit"] if isinstance(u, dict) else u
        tab = u if isinstance(u, dict) else us[0]
        fc = fc or r.choice(READS + WRITES)
        size = max(tab[KEY[fc]]["size"], 1)
        if at is None:
            at = r.choice([0, 0, r.randrange(size), r.randrange(size), size - 1])
        if count is None:
            top = min(LIMIT[fc], max(size - at, 1))
            count = r.choice([1, top, r.randint(1, top), r.randint(1, min(top, 20)), r.randint(1, min(top, 20))])
        p = [n, fc] + word(at)
        if fc in READS:
            return p + word(count)
        if fc == 5:
            return p + r.choice([[255, 0], [0, 0]])
        if fc == 6:
            return p + word(r.choice([0, 1, 255, 256, 65535, r.randrange(65536)]))
        nb = (count + 7) // 8 if fc == 15 else 2 * count
        d = [r.choice([0, 255, r.randrange(256), r.randrange(256)]) for _ in range(nb)]
        return p + word(count) + [nb & 255] + d

    def ask(self, pdu, port=0, **k):
        if not self.w.broken and not self.w.down:
            return self.conn(port).ask(pdu, **k)

    def any(self, port=None, **k):
        r = self.r
        port = r.randrange(len(self.m.ports)) if port is None else port
        pdu = self.pdu(port, **k)
        if len(pdu) <= 254:
            return self.ask(pdu, port)

    def tag(self):
        """a table's tag: (index, bits?, size)"""
        us = [(u[k]["idx"], k in ("coil", "disc"), u[k]["size"]) for p in self.m.ports for u in p for k in KEYS if u[k]["size"]]
        return self.r.choice(us)

    def other(self, c="A"):
        """another client uses the registers' tags"""
        r, w = self.r, self.w
        idx, bits, size = self.tag()
        nb = (size + 7) // 8 if bits else 2 * size
        off = r.randrange(nb)
        n = r.randint(1, min(nb - off, 40))
        k = r.random()
        if k < .4:
            w.write(c, idx, off, [r.randrange(256) for _ in range(n)])
        elif k < .6:
            w.mwrite(c, idx, off, [r.randrange(256) for _ in range(n)], [r.randrange(256) for _ in range(n)])
        else:
            w.read(c, idx, off, n)

    def close(self):
        for c in self.conns.values():
            c.close()


SIZES1 = (40, 30, 100, 70)


@uses
def c20_mixed(w):
    """all functions, two ports, several units, other clients in between"""
    r = w.rnd
    some = lambda *z: tuple(n if k == keep else r.choice([n, n, n, 0]) for keep in [r.randrange(4)] for k, n in enumerate(z))
    ports = [[unit(1, SIZES1), unit(2, some(5, 7, 9, 4))], [unit(0, some(17, 8, 16, 3), "x"), unit(9, some(6, 5, 33, 4), "x")]]
    m = start(w, ports)
    if not m:
        return
    a = Asker(w, m)
    for port, us in enumerate(m.ports):
        for u in us:
            for fc in READS + WRITES:
                a.ask(a.pdu(port, u, fc), port)
    for _ in range(50):
        if r.random() < .3:
            a.other()
        elif r.random() < .1:
            a.ask([r.choice([3, 0, 255, 247, 9, 100])] + a.pdu(0)[1:], r.randrange(2))
        else:
            a.any()
    w.dump("A")
    m.end()
    w.dump("A")


@uses
def c20_bounds(w):
    """quantities and addresses at the limits"""
    r = w.rnd
    size = r.choice([(130, 126, 2010, 2001), (300, 125, 2000, 2500), (124, 200, 1969, 1999)])
    m = start(w, [[unit(1, size)]])
    if not m:
        return
    a = Asker(w, m)
    u = m.ports[0][0]
    for k in ("hold", "input", "coil", "disc"):
        idx, n = u[k]["idx"], u[k]["size"]
        nb = 2 * n if k in ("hold", "input") else (n + 7) // 8
        w.write("A", idx, 0, [r.randrange(256) for _ in range(nb)])
    for fc in READS + (15, 16):
        n, lim = u[KEY[fc]]["size"], LIMIT[fc]
        cs = {(0, lim), (n - lim, lim), (n - lim + 1, lim), (0, lim + 1), (0, 0), (n - 1, 1), (n, 1), (n - 1, 2), (0, 65535), (65535, 1),
              (65535, 65535), (n, 0), (r.randrange(n), 0)}
        for _ in range(3):
            at = r.randrange(n)
            cs.add((at, r.randint(1, min(lim, n - at))))
            cs.add((at, min(lim, n - at)))
        for at, c in sorted(cs):
            if at < 0 or (fc in (15, 16) and c > lim):
                continue
            a.ask(a.pdu(0, u, fc, at, c))
    for fc in (5, 6):
        n = u[KEY[fc]]["size"]
        for at in (0, n - 1, n, n + 1, 65535):
            a.ask(a.pdu(0, u, fc, at))
    for k in KEYS:
        idx = u[k]["idx"]
        w.read("A", idx, 0, (u[k]["size"] + 7) // 8 if k in ("coil", "disc") else 2 * u[k]["size"])


@uses
def c20_limits(w):
    """writes that don't fit: quantities over the limit, and data that's missing"""
    r = w.rnd
    m = start(w, [[unit(1, (400, 40, 4000, 90))]])
    if not m:
        return
    a = Asker(w, m)
    u = m.ports[0][0]
    for fc, cs in ((15, (1, 7, 8, 9, 16, 17, 100, 1968)), (16, (1, 2, 50, 123))):
        for c in cs:
            p = a.pdu(0, u, fc, r.randrange(8), c)
            a.ask(p)
            a.ask(p[:-1])
            if len(p) > 8:
                a.ask(p[:r.randint(7, len(p) - 1)])
    for fc, c in ((16, 124), (16, 200), (16, 0), (15, 1969), (15, 2000), (15, 4000), (15, 0), (1, 2001), (2, 91), (3, 126), (3, 400), (4, 41)):
        a.ask([1, fc, 0, 0] + word(c) + ([246] + [r.randrange(256) for _ in range(246)] if fc > 4 else []))
    for fc in READS + WRITES + (7, 8, 22, 23, 43, 100, 128, 129, 200, 255, 0):
        a.ask([1, fc])
        p = [1, fc] + [0] * r.randint(0, 3)
        a.ask(p)
        a.ask([1, fc, 0, 1, 0, 1])
    a.ask([1])
    a.ask([7])
    a.any()
    w.dump("A")


@uses
def c20_frames(w):
    """requests that come in pieces, several connections at a time, clients that disappear"""
    r = w.rnd
    m = start(w, [[unit(1, SIZES1), unit(5, (3, 3, 3, 3))], [unit(0, SIZES1, "y")]])
    if not m:
        return
    a = Asker(w, m)
    cs = []
    try:
        cs = [m.open(r.randrange(2)) for _ in range(4)]
        for k in range(40):
            if w.broken or w.down:
                break
            c = r.choice(cs)
            x = r.random()
            if x < .35:
                p = a.pdu(c.port)
                n = len(p) + 6
                c.ask(p, parts=[r.randint(1, n - 1) for _ in range(r.randint(1, 4))])
            elif x < .5 and len(cs) > 1:       # two at once
                d = r.choice([y for y in cs if y is not c])
                f, g = frame(a.pdu(c.port), 7), frame(a.pdu(d.port), 8)
                cut = r.randint(1, len(f) - 1)
                c.send(f[:cut])
                t0 = time.monotonic()
                d.send(g)
                d.finish(g)
                if time.monotonic() - t0 > .6:
                    w.ended = w.down = True
                    break
                c.send(f[cut:])
                c.finish(f)
            elif x < .6:
                a_, p = c, a.pdu(c.port)
                c.send(frame(p)[:r.randint(1, 9)])      # not all of it
                c.close(rst=r.random() < .5)
                cs.remove(c)
                cs.append(m.open(r.randrange(2)))
            elif x < .7:
                c.close(rst=r.random() < .7)
                cs.remove(c)
                cs.append(m.open(r.randrange(2)))
            elif x < .8:
                c.ask(None, fr=frame([1, 16] + [0] * r.choice([253, 254, 260, 300, 500, 1000])))
                c.close()
                cs.remove(c)
                cs.append(m.open(r.randrange(2)))
            elif x < .85:
                c.ask([r.choice([77, 1])][:1])          # answered by nobody
            else:
                c.ask(a.pdu(c.port))
            if len(cs) < 12 and r.random() < .3:
                cs.append(m.open(r.randrange(2)))
    except Died as x:
        w.fail("deaf", "mb", {}, str(x))
    w.dump("A")


@uses
def c20_events(w):
    """others learn of what is written; overrides and mappings apply to registers"""
    r = w.rnd
    m = start(w, [[unit(1, (12, 12, 24, 24))]])
    if not m:
        return
    a = Asker(w, m)
    u = m.ports[0][0]
    hold, coil = u["hold"]["idx"], u["coil"]["idx"]
    inp, disc = u["input"]["idx"], u["disc"]["idx"]
    t = w.add("A", "other", "UINT", 12)
    for _ in range(6):
        i = r.randrange(12)
        n = r.randint(1, 12 - i)
        w.evadd("A", H(hold, 2 * i, 0, n, 2 * n, T("UINT")), r.choice(["WRITE", "CHANGE"]), send=True)
        b = r.randrange(24)
        n = r.randint(1, 24 - b)
        w.evadd("A", H(coil, b // 8, b % 8, n, (b % 8 + n - 1) // 8 + 1, T("BOOL")), r.choice(["WRITE", "CHANGE", "SET", "RESET"]), send=True)
    for src, dst in ((hold, inp), (coil, disc), (hold, t)):
        if r.random() < .7:
            if src == coil:
                b, n = r.randrange(12), r.randint(1, 12)
                w.mapadd("A", H(src, b // 8, b % 8, n, (b % 8 + n - 1) // 8 + 1, T("BOOL")), H(dst, b // 8, b % 8, n, (b % 8 + n - 1) // 8 + 1, T("BOOL")))
            else:
                i = r.randrange(6)
                w.mapadd("A", H(src, 2 * i, 0, 3, 6, T("UINT")), H(dst, 2 * r.randrange(9), 0, 3, 6, T("UINT")))
    for k in range(35):
        x = r.random()
        if x < .12:
            idx, bits, size = a.tag()
            nb = (size + 7) // 8 if bits else 2 * size
            off = r.randrange(nb)
            n = r.randint(1, nb - off)
            w.ovradd("A", idx, off, [r.randrange(256) for _ in range(n)], [r.randrange(1, 256) for _ in range(n)])
            w.ovrset("A", idx, True)
        elif x < .2:
            w.ovrset("A", a.tag()[0], r.random() < .5)
        elif x < .35:
            a.other()
        else:
            a.any()
    w.dump("A")


@uses
def c20_callbacks(w):
    """functions that are told of requests, and turn some of them down"""
    r = w.rnd
    cb = lambda log: (r.randrange(20), r.randrange(30), r.choice([1, 2, 3, 4, 6, 11, 100]), log)
    ports = [[unit(1, SIZES1, rcb=cb("rlog"), wcb=cb("wlog")), unit(2, (20, 0, 30, 0), rcb=cb(None)), unit(3, (0, 9, 9, 0), wcb=cb("wlog"))],
             [unit(0, (30, 10, 20, 30), "z", rcb=cb("rlog"), wcb=cb(None)), unit(4, (30, 10, 20, 30), "z")]]
    m = start(w, ports, logs=("rlog", "wlog"))
    if not m:
        return
    logs = [w.getn("A", n)[1]["idx"] for n in ("rlog", "wlog")]
    a = Asker(w, m)
    for i in logs:
        w.evadd("A", H(i, 0, 0, 4, 16, T("DINT")), "WRITE", send=True)
    if r.random() < .5:         # the reader sees what the callback has just written
        z = m.idx(0, 1, "hold")
        w.mapadd("A", H(logs[0], 8, 0, 1, 4, T("DINT")), H(z, 0, 0, 2, 4, T("UINT")))
    for k in range(50):
        x = r.random()
        if x < .1:
            a.ask([r.choice([1, 2, 3, 4]), r.choice([7, 8, 22, 99])] + [0, 1, 0, 1])
        elif x < .2:
            a.any(at=r.choice([39, 100, 1000]), count=3)
        elif x < .3:
            a.ask([r.choice([1, 2, 3]), r.choice(READS + WRITES)] + [0] * r.randrange(4))
        elif x < .4:
            a.other()
        else:
            a.any()
        if r.random() < .5:
            w.read("A", r.choice(logs), 0, 16)
    w.dump("A")


@uses
def c20_gone(w):
    """tags of registers that are deleted, are somebody else's, or were there before"""
    r = w.rnd
    w.join("A")
    w.join("B")
    if r.random() < .5:
        w.add("A", "hold1", r.choice(["UINT", "UINT", "INT"]), r.choice([5, 40, 60]), own=r.random() < .3, ret=r.random() < .3)
    if r.random() < .5:
        w.add("A", "coil1", r.choice(["BOOL", "BOOL", "BYTE"]), r.choice([5, 100, 160]))
    if r.random() < .5:
        w.add("B", "input1", "DINT", 30)        # not what the module needs
    if r.random() < .4:
        w.add("B", "disc1", "BYTE", 30)
    m = start(w, [[unit(1, SIZES1), unit(2, (20, 20, 20, 20))]])
    if not m:
        return
    a = Asker(w, m)
    for fc in READS + WRITES:
        a.ask(a.pdu(0, m.ports[0][0], fc))
    for k in range(45):
        x = r.random()
        if x < .08:
            idx = a.tag()[0]
            if idx >= 0:
                w.delete("A", idx)
        elif x < .12:
            w.add("A", r.choice(["new1", "hold2", "coil1"]), r.choice(["BOOL", "UINT"]), 90)
        elif x < .25:
            i = a.tag()
            if i[0] >= 0:
                w.read("A", i[0], 0, 2)
        else:
            a.any()
    w.dump("A")


C20 = [(c20_mixed, 8, 120), (c20_bounds, 6, 80), (c20_limits, 4, 60), (c20_frames, 8, 120), (c20_events, 8, 120), (c20_callbacks, 8, 120),
       (c20_gone, 8, 100)]

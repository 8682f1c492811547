"""Scenarios: for every property, ways of using the server that put it to the
test.  Each takes a World (with its own seed) and leaves a trace behind."""
import itertools
from gen import *

START = {"add": 6, "queue": 1, "readd": 2, "badadd": 1, "del": 1, "get": 2, "read": 4, "write": 6, "mwrite": 3,
         "badidx": 1, "status": 1}
ALL = dict(START, evadd=4, evdel=1, evopt=1, cdt=2, badcdt=1, cdtget=1, map=3, mapdel=1, grp=1, grpread=1,
           grpwrite=2, grpdel=1, atomic=3, ovradd=2, ovrset=2, ovrdel=1, ovrget=1, syswrite=1, churn=.3)


def mix(w, n, weights, clients=("A", "B", "C"), pre=None, dump=True):
    for c in clients:
        w.join(c)
    g = Gen(w, clients)
    if pre:
        pre(g)
    for _ in range(4):
        g.op_add()
    g.run(weights, n)
    if dump:
        w.dump(clients[0])
    return g


def everything(w):
    mix(w, 400, ALL)


def focus(n=300, clients=("A", "B", "C"), pre=None, **weights):
    """a random mix that is mostly about some operations"""
    base = {"add": 2, "write": 2, "read": 2, "del": .5, "churn": .1}
    base.update(weights)

    def f(w):
        mix(w, n, base, clients, pre)
    f.__name__ = "focus_" + "_".join(weights)
    return f


def two(w, names=("A", "B")):
    for c in names:
        w.join(c)


def mixed_types(g):
    for _ in range(3):
        g.op_cdt()


# ---------------------------------------------------------------------------
# C01 data integrity

def c01_ranges(w):
    """every range of a small tag is written and read, with neighbours watching"""
    two(w)
    g = Gen(w, ("A", "B"))
    mixed_types(g)
    b = BASES[w.seed % 16]
    t = T(b) if w.seed % 17 < 15 or not g.types else T("CDT", max(g.types))
    count = {0: 24, 1: 7, 2: 4, 4: 2, 8: 1}.get(SIZES.get(t["b"], 99), 1)
    lo = w.add("A", "lo", "BYTE", 8)
    i = w.add("B", "mid", t, count)
    hi = w.add("A", "hi", "BYTE", 8)
    for k in (lo, hi):
        w.write("A", k, 0, g.data(8))
    n = w.bytes_of(t, count)
    n = min(n, 10)
    full = w.bytes_of(t, count)
    for off in range(n):
        for sz in range(0, n - off + 1):
            w.write(g.client(), i, off, g.data(sz))
            w.read(g.client(), i, 0, full)
            if sz and g.r.random() < .5:
                w.mwrite(g.client(), i, off, g.data(sz), g.data(sz))
            w.read(g.client(), i, off, sz)
    for off, sz in ((full, 1), (full - 1, 2), (0, full + 1), (-1, 1), (full, 0), (full + 1, 0), (1, full), (-8, 16), (CLIP, 4)):
        w.write("A", i, off, g.data(max(0, sz)))
        w.mwrite("A", i, off, g.data(max(0, sz)), [255] * max(0, sz))
        w.read("A", i, off, sz)
    w.dump("B")


def c01_masks(w):
    """masked writes: every bit on its own, all pairs of mask and old bytes of interest"""
    two(w)
    g = Gen(w, ("A", "B"))
    b = ["BOOL", "BYTE", "DINT", "LWORD", "INT", "CHAR"][w.seed % 6]
    n = {0: 40}.get(SIZES[b], 6)
    i = w.add("A", "m", b, n)
    full = w.bytes_of(T(b), n)
    for start in (0, 255):
        w.write("A", i, 0, [start] * full)
        for k in range(full * 8):
            w.mwrite("B", i, k // 8, [g.byte()], [1 << k % 8])
        w.read("A", i, 0, full)
    for _ in range(40):
        off, sz = g.part(full)
        w.mwrite("A", i, off, g.data(sz), g.data(sz))
        if g.r.random() < .5:
            w.read("A", i, 0, full)
    for m in (0, 255, 0x0F, 0xF0, 0xAA):
        w.mwrite("A", i, 0, g.data(full), [m] * full)
        w.read("B", i, 0, full)


def c01_big(w):
    """large tags and the limits of a message"""
    two(w)
    g = Gen(w, ("A", "B"))
    n = [4079, 4080, 4081, 4088, 4089, 8192, 9000, 20000, 66000, 33000][w.seed % 10]
    b = g.r.choice(["BYTE", "INT", "DINT", "LINT"])
    i = w.add("A", "big", b, (n + SIZES[b] - 1) // SIZES[b])
    j = w.add("B", "next", "DINT", 2)
    w.write("B", j, 0, [9] * 8)
    n = w.bytes_of(T(b), (n + SIZES[b] - 1) // SIZES[b])
    for off, sz in ((0, 4080), (n - 4080, 4080), (n - 1, 1), (4095, 2), (0, 1), (n // 2, min(4080, n - n // 2)), (n - 17, 17), (255, 3), (32767, 2), (65535, 2)):
        if 0 <= off and off + sz <= n and sz <= 4080:
            w.write("A", i, off, g.data(sz))
    for off, sz in ((0, 4088), (0, 4087), (n - 4088, 4088), (4094, 4), (n - 1, 1), (n - 1, 2), (0, 4089), (32766, 4), (65534, 4), (n // 2, 100)):
        if off >= 0:
            w.read("B", i, off, sz)
    for off, sz in ((0, 2040), (n - 2040, 2040), (4090, 12)):
        if 0 <= off and off + sz <= n:
            w.mwrite("B", i, off, g.data(sz), g.data(sz))
    off = 0
    while off < n:
        w.read("A", i, off, min(4000, n - off))
        off += 4000
    w.read("B", j, 0, 8)


def c01_grow(w):
    """a tag is enlarged again and again"""
    two(w)
    g = Gen(w, ("A", "B"))
    mixed_types(g)
    b = BASES[w.seed % 16]
    t = T(b)
    if w.seed % 5 == 4 and g.types:
        t = T("CDT", max(g.types))
    lo = w.add("A", "lo", "LINT", 2)
    w.write("A", lo, 0, [7] * 16)
    cnt = 1
    for nxt in [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 129, 500, 513]:
        i = w.add(g.client(), "g", t, nxt)
        if i is None:
            break
        n = w.bytes_of(t, nxt)
        if n > 12000:
            break
        off = 0
        while off < n:
            w.read("B", i, off, min(4088, n - off))
            off += 4088
        for _ in range(2):
            o, s = g.part(n)
            w.write("A", i, o, g.data(min(s, 600)))
        w.write("B", i, n - 1, [255])
        w.read("A", i, n, 1)
        w.add("B", "g", t, max(1, nxt - 1))         # never shrinks
        if g.r.random() < .3:
            w.add("A", "n%d" % nxt, "INT", 5)
    w.dump("A")


def many(w, n=1100, per=1):
    """more tags than fit in the initial database"""
    two(w)
    g = Gen(w, ("A", "B"))
    idx = []
    for k in range(n):
        i = w.add("A", "v%d" % k, g.r.choice(["DINT", "INT", "BYTE", "LREAL"]) if k % 3 else "BYTE", 1)
        if i is None:
            break
        idx.append(i)
        if k > 1000 or g.r.random() < .1:
            w.write("B", i, 0, [g.byte()])
        if 1005 <= i <= 1035:
            w.status("B")
            w.read("A", idx[g.r.randrange(len(idx))], 0, 1)
    for k in range(150):
        j = g.r.randrange(len(idx))
        c = g.r.random()
        if c < .3:
            w.getn("A", "v%d" % j)
        elif c < .5:
            w.geti("B", idx[j])
        elif c < .7:
            w.write("A", idx[j], 0, [g.byte()])
        elif c < .85:
            w.delete("A", idx[j])
        else:
            w.read("B", idx[j], 0, 1)
    for k in range(20):
        w.add("A", "w%d" % k, "DINT", 1)
    w.status("A")
    for j in g.r.sample(idx, 60) + idx[-8:]:
        w.read("A", j, 0, 1)


C01 = [(c01_ranges, 17, 64), (c01_masks, 6, 24), (c01_big, 10, 40), (c01_grow, 16, 48), (many, 1, 6),
       (focus(300, mwrite=4, write=6, read=6, readd=3, badidx=1, ovradd=.5, ovrset=.5, evadd=.7, map=.7, cdt=1, pre=mixed_types), 24, 300),
       (everything, 16, 200)]

# ---------------------------------------------------------------------------
# C02 identity


def c02_chars(w):
    """every character in a name, first and later"""
    two(w)
    k = w.seed % 4
    for ch in range(1 + 64 * k, min(256, 1 + 64 * (k + 1))):
        for nm in (chr(ch), "a" + chr(ch), "b" + chr(ch) + "c"):
            w.add("A", nm, "INT", 1)
            w.getn("B", nm)
    for n in range(1, 42):
        nm = "n" * n
        w.add("A", nm, "INT", 1)
        w.getn("B", nm)
        w.add("A", ("L%d_" % n + "y" * 50)[:n], "BYTE", 2)
    w.dump("B", deep=False)


def c02_order(w):
    """names in all sorts of orders, added, deleted and added again"""
    two(w)
    r = w.rnd
    names = ["".join(r.choice("abAB_09z") for _ in range(r.randint(1, 6))) for _ in range(90)]
    names = [n for n in dict.fromkeys(names) if n[0] not in "_09"]
    if w.seed % 3 == 0:
        names.sort()
    elif w.seed % 3 == 1:
        names.sort(reverse=True)
    live = {}
    for rnd in range(3):
        for n in names:
            if n not in live and r.random() < .8:
                i = w.add(r.choice("AB"), n, r.choice(["DINT", "BOOL", "BYTE"]), r.randint(1, 4))
                if i is not None:
                    live[n] = i
        for n in names:
            w.getn("A", n)
        for n in r.sample(sorted(live), len(live) // 2):
            w.delete("B", live.pop(n))
            m = r.choice(names)
            w.getn("A", n)
            w.getn("A", m)
        for i in range(11, 20):
            w.geti("A", i)
    w.dump("A", deep=False)


def c02_cycle(w):
    """the same name comes and goes"""
    two(w)
    g = Gen(w, ("A", "B"))
    a = w.add("A", "aa", "DINT", 1)
    z = w.add("A", "zz", "DINT", 1)
    old = []
    for k in range(45):
        b = g.r.choice(["BYTE", "DINT", "LINT"])
        i = w.add(g.client(), "mm", b, g.r.randint(1, 5))
        if i is None:
            break
        w.read("B", i, 0, 1)
        w.write("A", i, 0, [k + 1])
        w.getn("B", "mm")
        if old:
            j = g.r.choice(old)
            w.geti("A", j)
            w.read("A", j, 0, 1)
            w.write("A", j, 0, [1])
            w.delete("A", j)
        w.delete(g.client(), i)
        w.getn("A", "mm")
        w.geti("A", i)
        old.append(i)
    w.dump("A")


def c02_types(w):
    """adding an existing name with every type"""
    two(w)
    g = Gen(w, ("A", "B"))
    t1 = w.cdt("A", "One", [("a", "INT", 2)])
    t2 = w.cdt("A", "Two", [("a", "INT", 2)])
    w.types = {t1["n"]: 4, t2["n"]: 4} if t1 and t2 else {}
    ts = [T(b) for b in BASES] + [t1, t2, T("DINT", -1, True), T("BOOL", -1, True), dict(t1 or T("INT"), q=True)]
    mine = ts[w.seed % len(ts)]
    i = w.add("A", "x", mine, 3)
    for t in ts:
        for c in (1, 3, 4):
            w.add("B", "x", t, c)
    w.getn("A", "x")
    if i is not None and not mine["q"]:
        w.write("A", i, 0, [5])
    for c in (2, 3, 6, 5, 9, 0) + (() if mine["b"] == "BOOL" else (-1,)):
        w.add("B", "x", mine, c)
        w.getn("A", "x")
        w.geti("B", i)
    w.dump("A")


C02 = [(c02_chars, 4, 4), (c02_order, 9, 60), (c02_cycle, 3, 20), (c02_types, 21, 42), (many, 1, 4),
       (focus(350, add=6, del_=0, readd=5, badadd=4, get=6, badidx=3, **{"del": 4}), 20, 200), (everything, 8, 120)]

# ---------------------------------------------------------------------------
# C03 status tags


def c03_sys(w):
    """every request against every status tag"""
    two(w)
    g = Gen(w, ("A", "B"))
    for _ in range(4):
        g.op_add()
    big = w.add("A", "src", "BYTE", 60)
    sz = [4, 4, 47, 47, 4, 8, 33, 4, 4, 8, 33]
    tt = [T("DINT"), T("DINT"), T("CDT", 1), T("CDT", 1), T("DINT"), T("TIME"), T("CHAR"), T("DINT"), T("DINT"), T("TIME"), T("CHAR")]
    nm = ["_tagcount", "_lastindex", "_tag_added", "_tag_deleted", "_dbsize", "_starttime", "_lastmodule", "_overrides_installed", "_overrides_set", "_time", "_my_tagname"]
    for i in range(11):
        z = sz[i]
        cnt = 33 if i in (6, 10) else 1
        w.write("A", i, 0, [0xA5] * z)
        w.write("A", i, z - 1, [1])
        w.mwrite("B", i, 0, [0x5A] * z, [255] * z)
        w.mwrite("B", i, 0, [255], [1])
        w.delete("A", i)
        for op in ("INC", "DEC", "NOT", "OR", "XOR"):
            w.atomic("B", H(i, 0, 0, 1, 4, T("DINT")), op, [1, 0, 0, 0])
            w.atomic("B", H(i, 0, 0, 1, 8, T("TIME")), op, [1, 0, 0, 0, 0, 0, 0, 0])
            w.atomic("A", H(i, 0, 0, 3, 1, T("BOOL")), op if op[0] not in "ID" else "NAND", [7])
        k = w.grpadd("A", [H(i, 0, 0, cnt, z, tt[i])])
        if k is not None:
            w.grpwrite("A", k, [0x33] * z)
            if i != 9:
                w.grpread("A", k)
        k = w.grpadd("B", [H(big, 0, 0, 2, 2, T("BYTE")), H(i, 0, 2, 3, 1, T("BOOL"))])
        if k is not None:
            w.grpwrite("B", k, [1, 2, 255])
        w.mapadd("A", H(big, 0, 0, z, z, T("BYTE")), H(i, 0, 0, cnt, z, tt[i]))
        w.mapadd("A", H(big, 0, 0, 1, 1, T("BOOL")), H(i, 0, 0, 1, 1, T("BOOL")))
        w.write("A", big, 0, g.data(60))
        w.add("A", nm[i], tt[i], 1)
        w.do("A", "add", {"name": nm[i], "chars": chars(nm[i]), "t": tt[i], "count": cnt, "attr": {"ret": False, "own": True, "ro": True}})
        w.do("A", "add", {"name": nm[i], "chars": chars(nm[i]), "t": tt[i], "count": cnt + 1, "attr": dict(NOATTR)})
        w.geti("A", i)
        if i != 9:
            w.read("B", i, 0, z)
        w.status("B")


def c03_follow(w):
    """the status tags after every single operation"""
    two(w)
    g = Gen(w, ("A", "B", "C"))
    w.join("C")
    for i, z in ((0, 4), (1, 4), (7, 4), (8, 4)):
        w.evadd("A", H(i, 0, 0, 1, 4, T("DINT")), "CHANGE", send=True)
    w.evadd("A", H(2, 0, 0, 1, 47, T("CDT", 1)), "WRITE")
    w.evadd("A", H(3, 0, 0, 1, 47, T("CDT", 1)), "WRITE")
    w.evadd("A", H(6, 0, 0, 33, 33, T("CHAR")), "CHANGE", send=True)
    ws = {"add": 4, "queue": 1, "readd": 2, "badadd": 2, "del": 4, "ovradd": 4, "ovrset": 4, "ovrdel": 4, "churn": 1, "cdt": .5, "syswrite": 1, "write": 1, "badidx": 1}
    while len(w.steps) < 420 and not w.broken:
        getattr(g, "op_" + g.r.choices(list(ws), list(ws.values()))[0])()
        w.status("B" if g.r.random() < .5 else "A")


def c03_grow(w):
    many(w, 1040)


C03 = [(c03_sys, 1, 3), (c03_follow, 24, 200), (many, 2, 4),
       (focus(300, add=4, ovradd=4, ovrset=4, ovrdel=3, status=6, churn=1, syswrite=4, **{"del": 3}), 10, 100), (everything, 6, 80)]

# ---------------------------------------------------------------------------
# C04 compound types

UNITS = [("BOOL", 1), ("BOOL", 7), ("BOOL", 8), ("BOOL", 9), ("BYTE", 1), ("INT", 1), ("DINT", 3), ("LREAL", 1)]


def tsize(ms, sub):
    pos = 0
    for _, t, c in ms:
        if t == "BOOL":
            pos += c
        else:
            z = SIZES.get(t)
            z = sub[t] if z is None else z
            pos = (pos + 7) // 8 * 8 + 8 * z * c
    return (pos + 7) // 8


def c04_shapes(w):
    """all small shapes: every sequence of up to three members, then as member of another type"""
    two(w)
    g = Gen(w, ("A", "B"))
    combos = [c for k in (1, 2, 3) for c in itertools.product(range(len(UNITS)), repeat=k)]
    mine = combos[w.seed % 12::12]
    sub = {}
    for k, c in enumerate(mine):
        ms = [("m%d" % j, UNITS[u][0], UNITS[u][1]) for j, u in enumerate(c)]
        nm = "S%d" % k
        t = w.cdt(g.client(), nm, ms)
        if t is None:
            continue
        z = tsize(ms, sub)
        sub[nm] = z
        w.types[t["n"]] = z
        cnt = g.r.choice([1, 2, 3])
        i = w.add("A", "t%d" % k, t, cnt)
        if i is None:
            continue
        n = z * cnt
        w.write("B", i, n - 1, [255])
        w.write("B", i, n, [255])
        w.read("A", i, 0, n)
        w.read("A", i, 0, n + 1)
        if k % 3 == 0:
            ms2 = [("f", "BOOL", g.r.choice([1, 3, 8])), ("in", nm, g.r.choice([1, 2])), ("g", "BOOL", 2), ("h", "INT", 1)]
            nm2 = "N%d" % k
            t2 = w.cdt("B", nm2, ms2)
            if t2:
                z2 = tsize(ms2, sub)
                w.types[t2["n"]] = z2
                sub[nm2] = z2
                i = w.add("B", "u%d" % k, t2, 2)
                w.write("A", i, 2 * z2 - 1, [1])
                w.write("A", i, 2 * z2, [1])
        w.do(g.client(), "cdtt", {"t": t})
    for nm in sub:
        w.do("A", "cdtn", {"name": nm, "low": nm.lower()})


def c04_deep(w):
    """nesting, many members, many types, long definitions"""
    two(w)
    g = Gen(w, ("A", "B"))
    sub = {}
    prev = "DINT"
    for d in range(12):
        nm = "D%d" % d
        ms = [("a", "BOOL", g.r.randint(1, 9)), ("b", prev, g.r.choice([1, 1, 2])), ("c", "BOOL", 1)]
        t = w.cdt("A", nm, ms)
        if not t:
            break
        sub[nm] = tsize(ms, sub)
        w.types[t["n"]] = sub[nm]
        prev = nm
        if sub[nm] < 4000:
            i = w.add("B", "d%d" % d, t, 1)
            w.write("A", i, sub[nm] - 1, [3])
            w.write("A", i, sub[nm], [3])
            w.read("A", i, 0, sub[nm])
    for k, n in enumerate((1, 2, 50, 99, 100, 101, 200)):
        ms = [("member_%d" % j, g.r.choice(["BOOL", "INT", "BYTE"]), 1) for j in range(n)]
        nm = "Long%d" % k
        t = w.cdt("B", nm, ms)
        if t:
            w.types[t["n"]] = tsize(ms, sub)
            w.do("A", "cdtt", {"t": t})
            w.do("A", "cdtn", {"name": nm, "low": nm.lower()})
            w.cdt("A", nm, ms)
            w.add("A", "l%d" % k, t, 1)
    for n in (30, 31, 32, 33, 40):
        nm = ("Q%d" % n + "q" * 60)[:n]
        ms = [(("M%d" % n + "m" * 60)[:n], "UDINT", 2)] * 1
        t = w.cdt("A", nm, ms)
        t2 = w.cdt("A", ("P%d" % n + "p" * 60)[:20], [(("M%d" % n + "m" * 60)[:n], "UDINT", 2)])
        for x in (t, t2):
            if x:
                w.types[x["n"]] = 8
                w.do("B", "cdtt", {"t": x})
    for k in range(40):
        t = w.cdt("A", "Many%d" % k, [("x", g.r.choice(["INT", "BYTE"]), k + 1)])
    for k in range(40):
        w.do("B", "cdtn", {"name": "MANY%d" % k, "low": "many%d" % k})
    for k in (0, 1, 2, 60, 90, 120, 500):
        w.do("B", "cdtt", {"t": T("CDT", k)})


def c04_bad(w):
    """definitions that are none; nothing may come of them"""
    two(w)
    g = Gen(w, ("A", "B"))
    a = w.cdt("A", "Good", [("one", "INT", 2), ("two", "BOOL", 5)])
    b = w.cdt("A", "Other", [("g", "Good", 2)])
    bad = ["", ":", "X", "X:", "X:a", "X:a,", "X:a,INT,", "X:a,INT,x", "X:a,INT,-1", "X:a,INT,0", "X:a,NOPE,1", "X:a,X,1", "X:,INT,1",
           "X:1a,INT,1", "X:a b,INT,1", "X:a,,1", "X:a,INT,1:a,INT,1", "X:a,INT,1:A,BOOL,2", "X:a,INT,99999999999999999999", "X:a,LREAL,300000000",
           "9X:a,INT,1", "X-:a,INT,1", "X y:a,INT,1", ":a,INT,1", ",INT,1", "X:a,INT,2147483647", "INT:a,BYTE,1", "bool:a,BYTE,1", "Good:one,INT,2", "Good:one,INT,2:two,BOOL,6",
           "Good:two,BOOL,5:one,INT,2", "Good:one,UINT,2:two,BOOL,5", "Good:one,INT,2:two,BOOL,5:x,INT,1", "good:one,INT,2:two,BOOL,6", "Other:g,Good,3", "_module:x,INT,1",
           "X:" + "a" * 33 + ",INT,1", "Y" * 33 + ":a,INT,1"]
    g.r.shuffle(bad)
    for t in bad:
        w.cdt(g.client(), "X", [], bad=True, text=t)
        if g.r.random() < .3:
            nm = g.r.choice(["X", "Good", "Other"])
            w.do("B", "cdtn", {"name": nm, "low": nm.lower()})
    w.do("B", "cdtn", {"name": "X", "low": "x"})
    t = w.cdt("B", "X", [("a", "INT", 1)])
    w.types = {a["n"]: 5, b["n"]: 10, t["n"]: 2} if a and b and t else {}
    for nm, ty in (("g1", a), ("o1", b), ("x1", t)):
        if ty:
            i = w.add("A", nm, ty, 1)
            n = w.types[ty["n"]]
            w.write("A", i, n - 1, [1])
            w.write("A", i, n, [1])
    for k in range(2, 8):
        w.do("B", "cdtt", {"t": T("CDT", k)})
    w.cdt("B", "Good", [("one", "INT", 2), ("two", "BOOL", 5)])
    w.cdt("A", "GOOD", [("One", "int", 2), ("two", "Bool", 5)])
    w.cdt("A", "other", [("G", "goOD", 2)])
    w.dump("A")


C04 = [(c04_shapes, 12, 12), (c04_deep, 4, 20), (c04_bad, 4, 20),
       (focus(250, cdt=6, badcdt=4, cdtget=5, pre=mixed_types), 16, 200), (everything, 6, 80)]

# ---------------------------------------------------------------------------
# C06 event conditions


def near(g, b, pivots):
    """a value near one of the pivots (integers), as bytes"""
    z = SIZES[b]
    if b in FLOATS:
        v = g.r.choice(pivots) * .25 + g.r.choice([0, 0, .25, -.25, 1, -1, 5])
        return list(struct.pack("<f" if b == "REAL" else "<d", v))
    v = g.r.choice(pivots) + g.r.choice([0, 0, 0, 1, -1, 2, -2, 1 << (8 * z - 1), 255, -256])
    return list((v % (1 << 8 * z)).to_bytes(z, "little"))


def c06_numeric(w):
    """one base type, all its conditions, values around the thresholds"""
    two(w, ("A", "B", "C"))
    g = Gen(w, ("A", "B", "C"))
    nb = [b for b in BASES if b != "BOOL"]
    b = nb[w.seed % len(nb)]
    z, n = SIZES[b], 4
    i = w.add("A", "v", b, n)
    ets = ["GREATER", "LESS", "DEADBAND", "CHANGE", "WRITE"] + ([] if b in FLOATS else ["EQUAL", "EQUAL"])
    big = (1 << (8 * z - 1)) - 1
    pivots = [0, 5, -5, 100] + ([] if b in FLOATS else [big, big + 1, 2 * big, 128, 256])
    for k in range(9):
        et = ets[(k + w.seed) % len(ets)]
        s = g.r.randrange(n)
        c = g.r.randint(1, n - s)
        if et == "DEADBAND":
            v = struct.pack("<f" if b == "REAL" else "<d", g.r.randint(0, 12) * .25) if b in FLOATS else \
                (g.r.choice([0, 1, 2, 3, 10, big, big - 1, 200 % (big + 1)])).to_bytes(z, "little")
        else:
            v = near(g, b, pivots)
        w.evadd(g.client(), H(i, s * z, 0, c, c * z, T(b)), et, list(v) if et not in ("CHANGE", "WRITE") else [], send=g.r.random() < .5)
    src = w.add("A", "src", b, n)
    w.mapadd("A", H(src, 0, 0, 2, 2 * z, T(b)), H(i, z, 0, 2, 2 * z, T(b)))
    gid = w.grpadd("A", [H(i, z, 0, 1, z, T(b)), H(i, 3 * z, 0, 1, z, T(b))])
    cur = [[0] * z for _ in range(n)]
    for k in range(150):
        if w.broken:
            break
        c = g.r.random()
        if c < .55:
            s = g.r.randrange(n)
            m = g.r.randint(1, n - s)
            w.write(g.client(), i, s * z, sum((near(g, b, pivots) for _ in range(m)), []))
        elif c < .65 and b not in FLOATS:
            off, sz = g.part(n * z)
            w.write(g.client(), i, off, g.data(min(sz, 3)))
        elif c < .75 and b not in FLOATS:
            off, sz = g.part(n * z)
            w.mwrite(g.client(), i, off, g.data(sz), [g.r.choice([0, 255, 1, 128]) for _ in range(sz)])
        elif c < .82:
            w.write("B", src, 0, sum((near(g, b, pivots) for _ in range(n)), []))
        elif c < .9 and gid is not None:
            w.grpwrite("A", gid, near(g, b, pivots) + near(g, b, pivots))
        else:
            w.atomic(g.client(), H(i, z * g.r.randrange(n), 0, 1, z, T(b)), g.r.choice(["INC", "DEC"]),
                     near(g, b, [1]) if b not in FLOATS else list(struct.pack("<f" if b == "REAL" else "<d", .5)))
        if g.r.random() < .05:
            w.read("C", i, 0, n * z)


def c06_bits(w):
    """bit conditions over every alignment"""
    two(w, ("A", "B"))
    g = Gen(w, ("A", "B"))
    b = ["BOOL", "BYTE", "DINT", "BOOL"][w.seed % 4]
    n = 29 if b == "BOOL" else {1: 4, 4: 1}[SIZES[b]]
    i = w.add("A", "v", b, n)
    full = w.bytes_of(T(b), n)
    bits = n if b == "BOOL" else 8 * full
    for k in range(12):
        s = g.r.randrange(bits)
        c = min(bits - s, g.r.choice([1, 1, 2, 3, 7, 8, 9, 15, 17]))
        et = g.r.choice(["SET", "RESET", "CHANGE", "WRITE", "SET", "RESET"])
        w.evadd(g.client(), H(i, s // 8, s % 8, c, (s % 8 + c - 1) // 8 + 1, T("BOOL")), et, send=g.r.random() < .5)
    src = w.add("A", "src", "BOOL", 16)
    w.mapadd("A", H(src, 0, 3, 6, 2, T("BOOL")), H(i, 1, g.r.randrange(8), 6, 2, T("BOOL")))
    for k in range(140):
        c = g.r.random()
        p = g.r.randrange(bits)
        if c < .5:
            w.mwrite(g.client(), i, p // 8, [g.r.choice([0, 255])], [1 << p % 8])
        elif c < .65:
            off, sz = g.part(full)
            w.write("A", i, off, g.data(sz))
        elif c < .75:
            off, sz = g.part(full)
            w.mwrite("B", i, off, [g.r.choice([0, 255])] * sz, g.data(sz))
        elif c < .85:
            m = min(bits - p, g.r.choice([1, 3, 9]))
            w.atomic("A", H(i, p // 8, p % 8, m, (p % 8 + m - 1) // 8 + 1, T("BOOL")), g.r.choice(["NOT", "XOR", "OR", "AND", "NAND"]), g.data((p % 8 + m - 1) // 8 + 1))
        elif c < .95:
            w.write("B", src, 0, g.data(3))
        else:
            w.write("A", i, 0, [])


def c06_other(w):
    """compound types, deleted tags, refusals, operations that must stay silent"""
    two(w, ("A", "B", "C"))
    g = Gen(w, ("A", "B", "C"))
    t = w.cdt("A", "Pt", [("x", "INT", 1), ("f", "BOOL", 3), ("y", "DINT", 2)])
    w.types = {t["n"]: 11}
    i = w.add("A", "p", t, 3)
    j = w.add("A", "q", "DINT", 4)
    qu = w.add("A", "qq", T("INT", -1, True), 2)
    evs = []
    for h, et in ((H(i, 0, 0, 3, 33, t), "CHANGE"), (H(i, 11, 0, 1, 11, t), "WRITE"), (H(i, 22, 0, 1, 11, t), "DELETED"), (H(j, 0, 0, 4, 16, T("DINT")), "DELETED"),
                  (H(j, 4, 0, 2, 8, T("DINT")), "CHANGE"), (H(qu, 0, 0, 2, 4, T("INT")), "WRITE"), (H(j, 0, 0, 4, 16, T("DINT")), "DELETED"), (H(i, 0, 0, 1, 2, T("INT")), "CHANGE")):
        for c in g.r.sample(["A", "B", "C"], 2):
            e = w.evadd(c, h, et, send=g.r.random() < .5)
            if e is not None:
                evs.append((c, h["idx"], e))
    for h, et, v in ((H(i, 0, 0, 1, 11, t), "GREATER", [0] * 8), (H(j, 0, 0, 1, 4, T("DINT")), "SET", []), (H(j, 0, 0, 1, 4, T("DINT")), "NONSENSE", []), (H(j, 0, 0, 0, 0, T("DINT")), "CHANGE", []),
                     (H(j, 16, 0, 1, 4, T("DINT")), "CHANGE", []), (H(j, 14, 0, 1, 4, T("DINT")), "WRITE", []), (H(j, 0, 8, 1, 1, T("BOOL")), "SET", []), (H(999, 0, 0, 1, 4, T("DINT")), "CHANGE", []),
                     (H(j, 0, 0, 4, 4, T("DINT")), "CHANGE", []), (H(qu, 0, 0, 2, 4, T("INT")), "CHANGE", []), (H(9, 0, 0, 1, 8, T("TIME")), "WRITE", []), (H(10, 0, 0, 33, 33, T("CHAR")), "WRITE", []),
                     (H(j, 0, 0, 1, 4, T("CDT", 77)), "CHANGE", []), (H(j, 0, 0, 1, 4, T("REAL")), "EQUAL", [0] * 4)):
        w.evadd("A", h, et, v)
    for k in range(90):
        c = g.r.random()
        if c < .3:
            off, sz = g.part(33)
            w.write(g.client(), i, off, g.data(sz))
        elif c < .4:
            w.write(g.client(), j, 4 * g.r.randrange(4), g.data(4))
        elif c < .5:
            w.write("A", qu, 0, g.data(4))
        elif c < .55:
            w.read("B", qu, 0, 4)
        elif c < .6:
            w.write("A", j, 14, g.data(4))               # refused
        elif c < .65:
            w.ovradd("A", j, 0, g.data(4), [255] * 4)
            w.ovrset("A", j, g.r.random() < .5)
        elif c < .7:
            w.ovrdel("A", j, 0, [255] * 4)
        elif c < .75:
            w.add("B", "q", "DINT", 4 + k // 20)           # grows silently
        elif c < .8 and evs:
            e = evs.pop(g.r.randrange(len(evs)))
            w.evdel(*e)
        elif c < .9:
            o = 4 * g.r.randrange(4)
            w.write("B", j, o, w.read("A", j, o, 4) or [0] * 4)         # the value that may already be there
        else:
            w.write("C", j, g.r.randrange(16), [])
    w.delete("A", j)
    w.delete("B", i)
    w.delete("B", qu)
    w.write("A", i, 0, [1])
    w.dump("C")


C06 = [(c06_numeric, 45, 300), (c06_bits, 16, 120), (c06_other, 12, 100),
       (focus(300, evadd=6, evdel=1, write=8, mwrite=4, atomic=4, map=2, grp=1, grpwrite=2, evopt=1, ovradd=.5, ovrset=.5), 24, 200), (everything, 6, 60)]

# ---------------------------------------------------------------------------
# C07 delivery


def c07_crowd(w):
    """many subscriptions of several clients on few tags; they come and go"""
    names = ["A", "B", "C", "D"]
    two(w, names)
    g = Gen(w, names)
    tags = [w.add("A", "t%d" % k, b, n) for k, (b, n) in enumerate((("DINT", 4), ("BYTE", 9), ("BOOL", 20)))]
    for i, (b, n) in zip(tags, (("DINT", 4), ("BYTE", 9), ("BOOL", 20))):
        g.note(i, "t", T(b), n)
    subs = []
    for k in range(260):
        if w.broken:
            break
        c = g.r.random()
        if c < .25 and len(subs) < 40:
            i = g.r.choice(list(g.tags))
            h = g.handle(i)
            who = g.r.choice(names)
            e = w.evadd(who, h, g.r.choice(["WRITE", "CHANGE", "CHANGE", "DELETED"]), send=g.r.random() < .6)
            if e is not None:
                subs.append((who, i, e))
        elif c < .4 and subs:
            s = subs.pop(g.r.randrange(len(subs)))
            w.evdel(*s)
            if g.r.random() < .5:
                w.evdel(*s)                                        # again
            if g.r.random() < .3:
                w.do(s[0], "evopt", {"idx": s[1], "id": s[2], "send": True})
        elif c < .45 and subs:
            s = g.r.choice(subs)
            w.evdel(g.r.choice(names), s[1], s[2])                  # perhaps not the owner
            subs = [x for x in subs if x != s] if g.r.random() < .3 else subs
        elif c < .5 and subs:
            s = g.r.choice(subs)
            w.do(g.r.choice(names), "evopt", {"idx": s[1], "id": s[2], "send": g.r.random() < .5})
        elif c < .54:
            n = g.r.choice(names[1:])
            w.leave(n)
            subs = [x for x in subs if x[0] != n]
            w.write("A", g.r.choice(list(g.tags)), 0, g.data(1))
            w.join(n)
        elif c < .57:
            i = g.r.choice(list(g.tags))
            x = g.tags[i]
            if w.delete("A", i):
                g.gone(i)
                for s in [s for s in subs if s[1] == i][:3]:
                    w.evdel(*s)
                subs = [s for s in subs if s[1] != i]
                j = w.add(g.r.choice(names), "u%d" % k, x["t"], x["count"])
                if j is not None:
                    g.note(j, "u%d" % k, x["t"], x["count"])
        else:
            i = g.r.choice(list(g.tags))
            off, sz = g.part(g.tags[i]["n"])
            w.write(g.r.choice(names), i, off, g.data(sz))


def c07_ids(w):
    """subscription numbers: many on one tag, deleted in different orders"""
    two(w, ("A", "B"))
    g = Gen(w, ("A", "B"))
    i = w.add("A", "t", "BYTE", 4)
    for rnd in range(4):
        ids = []
        for k in range(20):
            c = g.client()
            e = w.evadd(c, H(i, k % 4, 0, 1, 1, T("BYTE")), "WRITE", send=k % 2 == 0)
            if e is not None:
                ids.append((c, i, e))
        w.write("A", i, 0, g.data(4))
        order = list(ids)
        if rnd == 1:
            order.reverse()
        elif rnd > 1:
            g.r.shuffle(order)
        for e in order[:15]:
            w.evdel(*e)
            if g.r.random() < .4:
                w.write("B", i, g.r.randrange(4), [k])
        if rnd % 2:
            w.leave("B")
            w.write("A", i, 0, g.data(4))
            w.join("B")
        for e in order[15:]:
            w.evdel(*e)
        w.write("A", i, 0, g.data(4))


def c07_big(w):
    """notifications with much data"""
    two(w, ("A", "B"))
    g = Gen(w, ("A", "B"))
    n = 5000
    i = w.add("A", "t", "BYTE", n)
    for s, z in ((0, 4080), (0, 4081), (10, 4080), (920, 4080), (4999, 1), (0, 5000), (100, 1000)):
        w.evadd(g.client(), H(i, s, 0, z, z, T("BYTE")), g.r.choice(["WRITE", "CHANGE"]), send=True)
    for k in range(12):
        o = g.r.choice([0, 1, 4079, 4080, 4990, 500])
        w.write(g.client(), i, o, g.data(g.r.randint(1, min(50, n - o))))
    w.write("A", i, 920, g.data(4080))


def c07_stall(w):
    """every subscriber gets the events in order although it reads late"""
    two(w, ("A", "B", "C"))
    g = Gen(w, ("A", "B", "C"))
    i = w.add("A", "t", "DINT", 2)
    for c in "BC":
        w.evadd(c, H(i, 0, 0, 2, 8, T("DINT")), "WRITE", send=True)
        w.evadd(c, H(i, 4, 0, 1, 4, T("DINT")), "CHANGE", send=True)
    for k in range(120):
        w.write("A", i, 4 * (k % 2), [k % 256, k // 7 % 256, 0, 0])
    w.mapadd("A", H(i, 0, 0, 1, 4, T("DINT")), H(i, 4, 0, 1, 4, T("DINT")))
    for k in range(20):
        w.write("C", i, 0, [k, 0, 0, 0])


def c07_system(w):
    """subscriptions on the status tags and on tags at both ends of the database, whose owners come and go"""
    names = ("A", "B", "C")
    two(w, names)
    g = Gen(w, names)
    D, subs = T("DINT"), []
    sys = [H(0, 0, 0, 1, 4, D), H(1, 0, 0, 1, 4, D), H(7, 0, 0, 1, 4, D), H(8, 0, 0, 1, 4, D), H(6, 0, 0, 33, 33, T("CHAR")), H(2, 0, 0, 47, 47, T("BYTE")), H(3, 0, 0, 4, 4, T("BYTE"))]
    mine = []
    for k in range(90):
        if w.broken:
            break
        c = g.r.random()
        if c < .3:
            n = g.r.choice(names[1:])
            h = g.r.choice(sys[:1] + sys + [H(i, 0, 0, 2, 8, D) for i in mine[-1:]])
            e = w.evadd(n, h, g.r.choice(["WRITE", "WRITE", "CHANGE"]), send=g.r.random() < .6)
            if e is not None:
                subs.append((n, h["idx"], e))
        elif c < .42:
            n = g.r.choice(names[1:])
            w.leave(n)
            subs = [x for x in subs if x[0] != n]
            mine.append(w.add("A", "m%d" % k, "DINT", 2))
            w.join(n)
        elif c < .5 and subs:
            w.evdel(*subs.pop(g.r.randrange(len(subs))))
        elif c < .7:
            mine.append(w.add(g.r.choice(names), "t%d" % k, g.r.choice(["DINT", "BYTE", "BOOL"]), 8))
        elif c < .8 and mine:
            i = mine.pop(g.r.randrange(len(mine)))
            w.delete("A", i)
            subs = [x for x in subs if x[1] != i]
        elif c < .92 and mine:
            i = g.r.choice(mine)
            w.ovradd("A", i, 0, [k % 256], [g.r.choice([255, 1])])
            if g.r.random() < .6:
                w.ovrset("A", i, True)
            if g.r.random() < .4:
                w.ovrdel("A", i, 0, [255])
        elif mine:
            w.write("A", g.r.choice(mine), 0, [k % 256])


C07 = [(c07_crowd, 32, 250), (c07_system, 8, 80), (c07_ids, 6, 30), (c07_big, 2, 10), (c07_stall, 1, 3),
       (focus(300, evadd=6, evdel=4, evopt=2, write=6, churn=1.5, **{"del": 2}), 20, 200), (everything, 6, 60)]

# ---------------------------------------------------------------------------
# C08 mappings


def c08_bits(w):
    """all bit alignments"""
    two(w)
    g = Gen(w, ("A", "B"))
    sb = w.seed % 8
    s = w.add("A", "s", "BOOL" if w.seed % 2 else "BYTE", 64 if w.seed % 2 else 8)
    k = 0
    for db in range(8):
        for n in (1, 2, 7, 8, 9, 16, 17, 25):
            d = w.add("B", "d%d" % k, "BOOL" if k % 2 else "BYTE", 48 if k % 2 else 6)
            k += 1
            w.write("B", d, 0, g.data(6))
            m = w.mapadd("A", H(s, 1, sb, n, (sb + n - 1) // 8 + 1, T("BOOL")), H(d, 1, db, n, (db + n - 1) // 8 + 1, T("BOOL")))
            w.write("A", s, 0, g.data(8))
            w.read("B", d, 0, 6)
            if g.r.random() < .5:
                w.write("A", s, 1, g.data(1))
                w.read("B", d, 0, 6)
            if g.r.random() < .5:
                w.do("A", "mapdel", {"idx": s, "id": m})
                w.write("A", s, 1, g.data(3))
                w.read("B", d, 0, 6)
            elif g.r.random() < .6:
                w.delete("A", d)
                w.write("A", s, 1, g.data(3))


def c08_bytes(w):
    """byte mappings, several per tag, partial writes, deletion in every order"""
    two(w)
    g = Gen(w, ("A", "B"))
    s = w.add("A", "s", "INT", 10)
    ds = [w.add("B", "d%d" % k, b, n) for k, (b, n) in enumerate((("INT", 10), ("BYTE", 30), ("DINT", 6), ("LWORD", 3), ("BOOL", 100), ("UINT", 10)))]
    sz = [20, 30, 24, 24, 13, 20]
    ms = []
    w.evadd("B", H(ds[0], 0, 0, 10, 20, T("INT")), "CHANGE", send=True)
    w.evadd("B", H(ds[2], 4, 0, 2, 8, T("DINT")), "WRITE")
    for k in range(150):
        if w.broken:
            break
        c = g.r.random()
        if c < .22:
            j = g.r.randrange(6)
            so = 2 * g.r.randrange(10)
            z = 2 * g.r.randint(1, (20 - so) // 2)
            do = g.r.randrange(sz[j])
            dz = min(sz[j] - do, max(1, z + g.r.choice([0, 0, 1, 2, -1])))
            m = w.mapadd(g.client(), H(s, so, 0, z // 2, z, T("INT")), H(ds[j], do, 0, dz, dz, T("BYTE")))
            if m is not None:
                ms.append(m)
                if g.r.random() < .5:
                    w.do("B", "mapget", {"idx": s, "id": m})
                if g.r.random() < .2:
                    w.mapadd("A", H(s, so, 0, z // 2, z, T("INT")), H(ds[j], do, 0, dz, dz, T("BYTE")))
        elif c < .35 and ms:
            m = ms.pop(g.r.randrange(len(ms)))
            w.do("A", "mapdel", {"idx": s, "id": m})
            if g.r.random() < .4:
                w.do("A", "mapdel", {"idx": s, "id": m})
                w.do("A", "mapget", {"idx": s, "id": m})
        elif c < .4:
            w.write("B", g.r.choice(ds), 0, g.data(3))
        elif c < .45:
            w.atomic("A", H(s, 2 * g.r.randrange(10), 0, 1, 2, T("INT")), "INC", [1, 0])
        elif c < .55:
            off, z = g.part(20)
            w.mwrite("A", s, off, g.data(z), g.data(z))
        else:
            off, z = g.part(20)
            w.write(g.client(), s, off, g.data(z))
        if g.r.random() < .5:
            j = g.r.randrange(6)
            w.read("A", ds[j], 0, sz[j])
    w.dump("A")


def c08_chain(w):
    """one step only; own parts; read-only and missing destinations; refusals"""
    two(w, ("A", "B", "C"))
    g = Gen(w, ("A", "B", "C"))
    a, b, c = (w.add("A", n, "DINT", 4) for n in ("a", "b", "c"))
    t = w.cdt("A", "Pt", [("x", "INT", 1), ("f", "BOOL", 3)])
    w.types = {t["n"]: 3}
    p = w.add("A", "p", t, 2)
    qu = w.add("A", "qu", T("DINT", -1, True), 1)
    D = T("DINT")
    w.mapadd("A", H(a, 0, 0, 1, 4, D), H(b, 0, 0, 1, 4, D))
    w.mapadd("A", H(b, 0, 0, 1, 4, D), H(c, 0, 0, 1, 4, D))
    w.mapadd("A", H(c, 0, 0, 1, 4, D), H(a, 0, 0, 1, 4, D))
    w.mapadd("B", H(a, 4, 0, 2, 8, D), H(a, 8, 0, 2, 8, D))
    w.mapadd("B", H(p, 0, 0, 1, 3, t), H(p, 3, 0, 1, 3, t))
    for x in (a, b, c):
        w.evadd("C", H(x, 0, 0, 4, 16, D), "CHANGE", send=True)
    for k in range(25):
        w.write(g.client(), g.r.choice([a, b, c]), 4 * g.r.randrange(3), g.data(4))
        if k % 3 == 0:
            w.write(g.client(), p, g.r.randrange(3), g.data(2))
        for x in (a, b, c):
            w.read("B", x, 0, 16)
        w.read("B", p, 0, 6)
    # destination becomes read only
    w.do("B", "add", {"name": "b", "chars": chars("b"), "t": D, "count": 4, "attr": {"ret": False, "own": True, "ro": True}})
    w.write("A", a, 0, g.data(4))
    w.read("C", b, 0, 16)
    w.mapadd("A", H(c, 0, 0, 1, 4, D), H(b, 0, 0, 1, 4, D))
    w.mapadd("B", H(c, 0, 0, 1, 4, D), H(b, 0, 0, 1, 4, D))
    w.write("B", b, 0, g.data(4))
    w.read("C", c, 0, 16)
    for s, d in ((H(a, 0, 0, 2, 8, D), H(c, 12, 0, 1, 4, D)), (H(a, 16, 0, 1, 4, D), H(c, 0, 0, 1, 4, D)), (H(a, 0, 0, 1, 4, D), H(c, 16, 0, 1, 4, D)), (H(999, 0, 0, 1, 4, D), H(c, 0, 0, 1, 4, D)),
                 (H(a, 0, 0, 1, 4, D), H(999, 0, 0, 1, 4, D)), (H(qu, 0, 0, 1, 4, D), H(c, 0, 0, 1, 4, D)), (H(a, 0, 0, 1, 4, D), H(qu, 0, 0, 1, 4, D)), (H(a, 0, 0, 9, 2, T("BOOL")), H(c, 0, 0, 8, 1, T("BOOL"))),
                 (H(a, 0, 8, 1, 1, T("BOOL")), H(c, 0, 0, 1, 1, T("BOOL"))), (H(a, 0, 0, 1, 1, T("BOOL")), H(c, 0, 8, 1, 1, T("BOOL"))), (H(a, 0, 0, 1, 4, D), H(0, 0, 0, 1, 4, D)), (H(0, 0, 0, 1, 4, D), H(c, 0, 0, 1, 4, D)),
                 (H(9, 0, 0, 1, 8, T("TIME")), H(c, 0, 0, 2, 8, D)), (H(a, 0, 0, 0, 0, D), H(c, 0, 0, 1, 4, D)), (H(a, 15, 1, 8, 2, T("BOOL")), H(c, 0, 0, 8, 1, T("BOOL")))):
        w.mapadd(g.client(), s, d)
    for k in range(6):
        w.write(g.client(), g.r.choice([a, c]), 4 * g.r.randrange(3), g.data(4))
    # tags go away
    w.delete("A", c)
    w.write("A", a, 0, g.data(16))
    w.write("B", b, 0, g.data(16))
    n = w.add("A", "c", D, 4)
    w.write("B", b, 0, g.data(16))
    w.read("A", n, 0, 16)
    w.leave("B")
    w.write("A", a, 0, g.data(16))
    w.add("A", "x1", D, 1)            # counts as a source for the status tag mapping
    w.dump("C")


def c08_mux(w):
    """many parts of the source go to the same place, one part to many places"""
    two(w)
    g = Gen(w, ("A", "B"))
    s = w.add("A", "s", "DINT", 8)
    ds = [w.add("B", "d%d" % k, "DINT", 2) for k in range(3)]
    ms = []
    for k in range(120):
        if w.broken:
            break
        c = g.r.random()
        if c < .25:
            j = g.r.randrange(8)
            if g.r.random() < .7:
                h, d = H(s, 4 * j, 0, 1, 4, T("DINT")), H(g.r.choice(ds), 0, 0, 1, 4, T("DINT"))
            else:
                h, d = H(s, 4 * j + g.r.randrange(4), 0, 8, 1, T("BOOL")), H(g.r.choice(ds), 4, 0, 8, 1, T("BOOL"))
            m = w.mapadd(g.client(), h, d)
            if m is not None:
                ms.append(m)
        elif c < .35 and ms:
            w.do("B", "mapdel", {"idx": s, "id": ms.pop(g.r.randrange(len(ms)))})
        elif c < .39:
            k2 = g.r.randrange(3)
            w.delete("A", ds[k2])
            if g.r.random() < .5:
                w.write("A", s, 0, g.data(32))
            ds[k2] = w.add("B", "d%d_%d" % (k2, k), "DINT", 2)
        else:
            w.write(g.client(), s, 4 * g.r.randrange(8) + g.r.randrange(4), g.data(1))
            d = g.r.choice(ds)
            w.read("B", d, 0, 8)


C08 = [(c08_bits, 16, 64), (c08_mux, 8, 80), (c08_bytes, 24, 200), (c08_chain, 6, 40),
       (focus(300, map=6, mapdel=2, write=8, mwrite=4, atomic=3, grp=1, grpwrite=2, evadd=1, **{"del": 1}), 30, 250), (everything, 6, 60)]

# ---------------------------------------------------------------------------
# C09 queues


def c09_wrap(w):
    """fill levels and read positions around every growth of the queue"""
    two(w, ("A", "B", "C"))
    g = Gen(w, ("A", "B", "C"))
    b, n = [("DINT", 1), ("INT", 3), ("BOOL", 9), ("LREAL", 1), ("BYTE", 1), ("BOOL", 8)][w.seed % 6]
    z = w.bytes_of(T(b), n)
    ids = 0

    def push(i):
        nonlocal ids
        ids += 1
        w.write(g.client(), i, 0, (list(ids.to_bytes(4, "little")) + [g.byte()] * z)[:z])
    for k in range(3):
        q = w.add("A", "q%d" % k, T(b, -1, True), n)
        level = 0
        rot = g.r.choice([0, 1, 5, 15, 16, 17, 31])
        for _ in range(rot):
            push(q)
            w.read("B", q, 0, z)
        for target in g.r.sample([1, 15, 16, 17, 18, 31, 32, 33, 63, 65, 70, 0, 3], 6) + [0]:
            while level < target and not w.broken:
                push(q)
                level += 1
                if g.r.random() < .1:
                    w.read(g.client(), q, 0, z)
                    level -= 1
            while level > target and not w.broken:
                w.read(g.client(), q, 0, z)
                level -= 1
        w.read("A", q, 0, z)            # empty
        w.read("A", q, 0, z)


def c09_several(w):
    """several queues of all sorts of elements at once; refusals; deletion"""
    names = ["A", "B", "C"]
    two(w, names)
    g = Gen(w, names)
    t = w.cdt("A", "El", [("a", "BOOL", 3), ("b", "INT", 2), ("c", "BOOL", 1)])
    w.types = {t["n"]: 6}
    qs = {}
    for k, (ty, n) in enumerate([(T("DINT", -1, True), 1), (T("BOOL", -1, True), 8), (T("BOOL", -1, True), 1), (dict(t, q=True), 1), (dict(t, q=True), 3), (T("CHAR", -1, True), 500), (T("LINT", -1, True), 2)]):
        i = w.add("A", "q%d" % k, ty, n)
        if i is not None:
            qs[i] = (ty, n, w.bytes_of(ty, n))
    plain = w.add("A", "plain", "DINT", 4)
    w.evadd("C", H(list(qs)[0], 0, 0, 1, 4, T("DINT")), "WRITE")
    bias = .5
    for k in range(330):
        if w.broken or not qs:
            break
        if k % 60 == 0:
            bias = g.r.choice([.3, .5, .75, .85])
        i = g.r.choice(list(qs))
        ty, n, z = qs[i]
        c = g.r.random()
        if c < .06:
            off, sz = g.r.choice([(0, z + 1), (0, z - 1), (1, z - 1), (1, z), (0, 0), (z, z)])
            if g.r.random() < .5:
                w.write(g.client(), i, off, g.data(sz))
            else:
                w.read(g.client(), i, off, sz)
        elif c < .09:
            w.mwrite(g.client(), i, 0, g.data(z), [255] * z)
        elif c < .11:
            w.add(g.client(), "q%d" % list(qs).index(i), ty, g.r.choice([n, n + 1, 1]))
        elif c < .12 and len(qs) > 3:
            w.delete("A", i)
            del qs[i]
            w.read("A", i, 0, z)
            w.write("A", i, 0, g.data(z))
        elif c < .13:
            w.ovradd("A", i, 0, g.data(1), [255])
            w.atomic("A", H(i, 0, 0, 1, 4, T("DINT")), "INC", [1, 0, 0, 0])
        elif c < .15:
            w.write("B", plain, 0, g.data(16))
        elif c < .17:
            x = w.grpadd("B", [H(i, 0, 0, n, z, T(ty["b"], ty["n"]))])
            if x is not None:
                w.grpwrite("B", x, g.data(z)) if g.r.random() < .7 else w.grpread("B", x)
        elif c < .18:
            w.leave("C")
            w.join("C")
        elif g.r.random() < bias:
            w.write(g.client(), i, 0, g.data(z))
        else:
            w.read(g.client(), i, 0, z)
    for i, (ty, n, z) in qs.items():
        for _ in range(200):
            if w.read("A", i, 0, z) is None:
                break


def c09_long(w):
    """very long queues"""
    two(w)
    g = Gen(w, ("A", "B"))
    q = w.add("A", "q", T("INT", -1, True), 1)
    r = w.add("A", "r", T("UDINT", -1, True), 1)
    n = [600, 1100, 2100][w.seed % 3]
    for k in range(n):
        w.write(g.client(), q, 0, [k % 256, k // 256])
        if k % 7 == 3:
            w.read("B", q, 0, 2)
        if k % 5 == 0:
            w.write("A", r, 0, [k % 251, 1, 2, k // 256])
    while not w.broken:
        if w.read(g.client(), q, 0, 2) is None:
            break
    while not w.broken:
        if w.read("A", r, 0, 4) is None:
            break


C09 = [(c09_wrap, 24, 150), (c09_several, 24, 200), (c09_long, 2, 3), (focus(300, queue=4, write=8, read=8, readd=1, **{"del": .5}), 12, 120)]

# ---------------------------------------------------------------------------
# C10 groups


def c10_life(w):
    """groups of several clients: numbers, deletion, growth of the table"""
    names = ["A", "B", "C"]
    two(w, names)
    g = Gen(w, names)
    g.types = {}
    for k, (b, n) in enumerate((("DINT", 3), ("BOOL", 20), ("BYTE", 7), ("LREAL", 2), ("INT", 1))):
        g.op_add(base=b, count=n, name="t%d" % k)
    for k in range(190):
        if w.broken:
            break
        c = g.r.random()
        if c < .45:
            g.op_grp()
        elif c < .6:
            g.op_grpwrite()
        elif c < .7:
            g.op_grpread()
        elif c < .9:
            g.op_grpdel()
        elif c < .94:
            # somebody else's number
            o = [x for n in names for x in g.grp.get(n, {})]
            if o:
                w.grpread(g.client(), g.r.choice(o))
        elif c < .96:
            n = g.r.choice(names[1:])
            w.leave(n)
            g.grp.pop(n, None)
            w.join(n)
            w.grpread(n, 0)
        else:
            g.op_write()
    for c in names:
        for k in list(g.grp.get(c, {})):
            w.grpread(c, k)
    w.dump("A")


def c10_table(w):
    """more groups than the initial table holds"""
    two(w)
    g = Gen(w, ("A", "B"))
    i = w.add("A", "t", "BYTE", 60)
    ids = []
    for k in range(70):
        x = w.grpadd("A", [H(i, k % 50, 0, 1 + k % 5, 1 + k % 5, T("BYTE"))])
        if x is not None:
            ids.append(x)
        if k in (14, 15, 16, 17, 31, 32, 33):
            w.write("B", i, 0, g.data(60))
            for y in ids:
                w.grpread("A", y)
    for y in g.r.sample(ids, 30):
        w.do("A", "grpdel", {"id": y})
        ids.remove(y)
        w.grpread("A", y)
        w.do("A", "grpdel", {"id": y})
    for y in ids:
        w.grpread("A", y)
    for k in range(20):
        x = w.grpadd("A", [H(i, k, 0, 2, 2, T("BYTE"))])
        if x is not None:
            ids.append(x)
    for y in ids:
        w.grpread("A", y)
        w.grpwrite("A", y, g.data(8))
    w.read("B", i, 0, 60)
    w.grpread("B", ids[0])
    w.leave("A")
    w.join("A")
    for y in ids[:5]:
        w.grpread("A", y)
    w.read("A", i, 0, 60)


def c10_sizes(w):
    """member and size limits"""
    two(w)
    g = Gen(w, ("A", "B"))
    i = w.add("A", "big", "BYTE", 5000)
    s = w.add("A", "small", "BYTE", 200)
    j = w.add("A", "bits", "BOOL", 300)
    B, X = T("BYTE"), T("BOOL")
    off = 0
    while off < 5000:
        w.write("A", i, off, g.data(min(4000, 5000 - off)))
        off += 4000
    for hs in ([H(i, 0, 0, 4084, 4084, B)], [H(i, 0, 0, 4085, 4085, B)], [H(i, 0, 0, 2042, 2042, B), H(i, 100, 0, 2042, 2042, B)], [H(i, 0, 0, 2042, 2042, B), H(i, 100, 0, 2043, 2043, B)],
               [H(s, k, 0, 1, 1, B) for k in range(150)], [H(s, k, 0, 1, 1, B) for k in range(149)], [H(s, k, 0, 1, 1, B) for k in range(151)], [H(i, 4999, 0, 1, 1, B)], [H(i, 5000, 0, 1, 1, B)], [H(i, 4999, 0, 2, 2, B)],
               [H(j, k, (3 * k) % 8, 5, ((3 * k) % 8 + 4) // 8 + 1, X) for k in range(30)], [H(j, 0, 0, 300, 38, X)], [H(j, 0, 8, 1, 1, X)], [H(j, 0, 1, 8, 1, X)], [H(999, 0, 0, 1, 1, B)], [H(i, 0, 0, 0, 0, B)], [H(s, 0, 0, 27, 27, B)] * 150,
               [H(s, 0, 0, 28, 28, B)] * 150):
        x = w.grpadd("A", hs)
        if x is None:
            continue
        n = sum(h["size"] for h in hs)
        w.grpread("A", x)
        w.grpwrite("A", x, g.data(n))
        w.grpread("A", x)
        w.grpwrite("A", x, g.data(n - 1))
        if n < 4000:
            w.grpwrite("A", x, g.data(n + 1))
        w.grpread("A", x)
    w.dump("B")


def c10_perms(w):
    """members that may not be written, that vanish, that grow; events and mappings"""
    names = ["A", "B", "C"]
    two(w, names)
    g = Gen(w, names)
    D, X = T("DINT"), T("BOOL")
    a = w.add("A", "a", "DINT", 3)
    b = w.add("B", "b", "DINT", 2, own=True, ro=True)
    c = w.add("A", "c", "BOOL", 20)
    d = w.add("A", "d", "DINT", 2)
    e = w.add("A", "e", "DINT", 2)
    w.mapadd("A", H(c, 0, 3, 5, 1, X), H(e, 1, 2, 5, 1, X))
    w.mapadd("A", H(a, 4, 0, 1, 4, D), H(e, 4, 0, 1, 4, D))
    for x in (a, b, c, d, e):
        w.evadd("C", H(x, 0, 0, 1, 4 if x != c else 1, D if x != c else X), "CHANGE", send=True)
    w.evadd("C", H(c, 1, 2, 4, 1, X), "SET")
    gs = []
    for who in names:
        for hs in ([H(a, 0, 0, 1, 4, D), H(b, 0, 0, 1, 4, D), H(d, 0, 0, 1, 4, D)], [H(c, 0, 3, 4, 1, X), H(c, 1, 1, 3, 1, X), H(a, 4, 0, 2, 8, D)], [H(d, 0, 0, 2, 8, D), H(0, 0, 0, 1, 4, D), H(a, 0, 0, 1, 4, D)],
                   [H(c, 0, 6, 5, 2, X), H(d, 4, 0, 1, 4, D)], [H(a, 0, 0, 1, 4, D), H(a, 0, 0, 1, 4, D)], [H(d, 2, 0, 4, 1, X)]):
            x = w.grpadd(who, hs)
            if x is not None:
                gs.append((who, x, sum(h["size"] for h in hs)))
    w.ovradd("A", d, 0, g.data(8), [0xF0] * 8)
    for k in range(60):
        who, x, n = g.r.choice(gs)
        if g.r.random() < .6:
            w.grpwrite(who, x, g.data(n))
        else:
            w.grpread(who, x)
        if k == 20:
            w.ovrset("A", d, True)
        if k == 30:
            w.add("A", "a", "DINT", 6)
        if k == 40:
            w.delete("A", d)
        if k == 45:
            w.ovrset("A", d, False)
        if k == 50:
            w.leave("B")
            gs = [y for y in gs if y[0] != "B"]
    w.dump("A")


C10 = [(c10_life, 16, 150), (c10_table, 2, 10), (c10_sizes, 1, 4), (c10_perms, 12, 80),
       (focus(300, grp=5, grpread=4, grpwrite=6, grpdel=2, evadd=1, map=1, write=3, ovradd=1, ovrset=1, churn=.5), 24, 200), (everything, 4, 60)]

# ---------------------------------------------------------------------------
# C11 atomic operations


def c11_ops(w):
    """one type, all operations, all operand patterns of interest, any offset"""
    two(w)
    g = Gen(w, ("A", "B"))
    b = BASES[w.seed % 16]
    z = SIZES[b]
    n = 27 if b == "BOOL" else 4
    i = w.add("A", "v", b, n)
    if b in FLOATS or b == "BOOL":
        w.write("A", i, 0, g.elems(b, n) if b != "BOOL" else g.data(4))
    src = None
    if b not in FLOATS:
        d = w.add("A", "d", b, n)
        w.mapadd("A", H(i, 0, 0, n, w.bytes_of(T(b), n) if b != "BOOL" else 4, T(b)), H(d, 0, 0, n, w.bytes_of(T(b), n) if b != "BOOL" else 4, T(b)))
    w.evadd("B", H(i, 0, 0, n, w.bytes_of(T(b), n) if b != "BOOL" else 4, T(b)), "CHANGE", send=True)
    for k in range(16):
        for op in AOP:
            if w.broken:
                return
            if b == "BOOL":
                s = g.r.randrange(n)
                c = min(n - s, g.r.choice([1, 2, 5, 8, 9, 12]))
                h = H(i, s // 8, s % 8, c, (s % 8 + c - 1) // 8 + 1, T(b))
                x = g.data(h["size"])
            else:
                s = g.r.randrange(n)
                c = 1 if op in ("INC", "DEC") and g.r.random() < .95 else g.r.randint(1, n - s)
                h = H(i, s * z, 0, c, c * z, T(b))
                if b not in FLOATS and g.r.random() < .15 and s < n - 1:
                    h["byte"] += g.r.randint(1, z)           # not aligned
                    if h["byte"] + h["size"] > n * z:
                        h["byte"] = s * z
                x = g.elems(b, c) if b not in FLOATS else list(struct.pack("<f" if b == "REAL" else "<d", g.r.randint(-9, 9) * .25)) * c
            if b not in FLOATS and b != "BOOL" and g.r.random() < .4:
                w.write("A", i, h["byte"], g.elems(b, 1))
            w.atomic(g.client(), h, op, x)
            if g.r.random() < .3:
                w.read("B", i, 0, w.bytes_of(T(b), n))
    w.dump("A")


def c11_refuse(w):
    """operations that do not apply, or on tags that may not be changed"""
    two(w, ("A", "B"))
    g = Gen(w, ("A", "B"))
    t = w.cdt("A", "Pt", [("x", "INT", 1), ("y", "INT", 1)])
    w.types = {t["n"]: 4}
    D = T("DINT")
    ids = {"v": w.add("A", "v", "DINT", 2), "b": w.add("A", "b", "BOOL", 8), "r": w.add("A", "r", "REAL", 2), "c": w.add("A", "c", t, 1), "q": w.add("A", "q", T("DINT", -1, True), 1),
           "o": w.add("A", "o", "DINT", 1, own=True, ro=True), "w": w.add("A", "w", "DINT", 1, own=True), "x": w.add("A", "x", "DINT", 1)}
    w.delete("A", ids["x"])
    for c in "AB":
        w.evadd(c, H(ids["v"], 0, 0, 2, 8, D), "WRITE", send=True)
    w.write("A", ids["v"], 0, g.data(8))
    w.write("A", ids["o"], 0, g.data(4))
    w.ovradd("A", ids["v"], 0, g.data(4), [255] * 4)
    w.ovrset("A", ids["v"], True)
    mod = w.cl and 11
    for c in "AB":
        for op in list(AOP) + ["NONSENSE"]:
            for h in (H(ids["v"], 0, 0, 1, 4, D), H(ids["v"], 8, 0, 1, 4, D), H(ids["v"], 5, 0, 1, 4, D), H(ids["v"], 0, 0, 2, 8, D), H(ids["v"], 0, 0, 0, 0, D), H(ids["b"], 0, 0, 3, 1, T("BOOL")), H(ids["b"], 0, 8, 1, 1, T("BOOL")),
                      H(ids["r"], 0, 0, 1, 4, T("REAL")), H(ids["c"], 0, 0, 1, 4, t), H(ids["q"], 0, 0, 1, 4, D), H(ids["o"], 0, 0, 1, 4, D), H(ids["w"], 0, 0, 1, 4, D), H(ids["x"], 0, 0, 1, 4, D), H(999, 0, 0, 1, 4, D), H(-1, 0, 0, 1, 4, D),
                      H(0, 0, 0, 1, 4, D), H(11, 12, 0, 1, 1, T("BOOL")), H(12, 77, 0, 1, 1, T("BOOL")), H(9, 0, 0, 1, 8, T("TIME"))):
                x = [0, 0, 128, 62, 0, 0, 128, 62] if h["t"]["b"] == "REAL" else g.data(8)
                w.atomic(c, h, op, x[:h["size"]])
        w.dump(c)


C11 = [(c11_ops, 32, 250), (c11_refuse, 2, 10), (focus(300, atomic=10, evadd=1, map=1, write=3, ovradd=.5, ovrset=.5), 16, 150), (everything, 4, 40)]

# ---------------------------------------------------------------------------
# C12 overrides


def c12_bits(w):
    """overrides built up and taken down piece by piece while the value changes"""
    two(w)
    g = Gen(w, ("A", "B"))
    mixed_types(g)
    b = BASES[w.seed % 16]
    t = T(b)
    if w.seed % 6 == 5 and g.types:
        t = T("CDT", max(g.types))
    n = g.r.choice([1, 2, 5, 8, 9])
    if b in FLOATS:
        n = 1
    i = w.add("A", "v", t, n)
    full = w.bytes_of(t, n)
    o = w.add("A", "other", "DINT", 2)
    w.write("B", o, 0, g.data(8))
    for k in range(110):
        if w.broken:
            break
        c = g.r.random()
        off, sz = g.part(full)
        sz = min(sz, 40)
        if c < .25:
            m = g.data(sz)
            if not any(m):
                m[0] = 1
            w.ovradd(g.client(), i, off, g.data(sz), m)
        elif c < .4:
            w.ovrdel(g.client(), i, off, g.data(sz))
        elif c < .44:
            w.ovrdel(g.client(), i, 0, [255] * full)
        elif c < .6:
            w.ovrset(g.client(), i, g.r.random() < .65)
        elif c < .75:
            w.write(g.client(), i, off, g.data(sz))
        elif c < .8:
            w.mwrite(g.client(), i, off, g.data(sz), g.data(sz))
        elif c < .83:
            w.ovrget(g.client(), i, off, sz)
        elif c < .87:
            oo, s = g.r.choice([(full, 1), (0, full + 1), (full - 1, 2), (-1, 1), (full, 0)])
            g.r.choice([lambda: w.ovradd("A", i, oo, g.data(s), [255] * s), lambda: w.ovrdel("A", i, oo, [255] * s), lambda: w.ovrget("A", i, oo, s)])()
        elif c < .9:
            w.ovrset("B", o, True)
            w.ovrdel("B", o, 0, [255])
            w.ovrget("B", o, 0, 4)
        elif c < .93 and not t["q"]:
            n += g.r.choice([1, 3])
            if w.add("B", "v", t, n) is not None:
                full = w.bytes_of(t, n)
        w.read(g.client(), i, 0, full)
        if g.r.random() < .3:
            w.geti("A", i)
            w.ovrget("B", i, 0, full)
            w.read("A", 7, 0, 4)
            w.read("A", 8, 0, 4)
    w.read("B", o, 0, 8)
    w.delete("A", i)
    w.ovrget("A", i, 0, 1)
    w.ovrset("A", i, True)
    w.status("B")
    j = w.add("A", "v", t, n)
    w.read("A", j, 0, full)
    w.ovrget("A", j, 0, 1)


def c12_with(w):
    """overrides together with groups, mappings, events, atomic operations"""
    two(w)
    g = Gen(w, ("A", "B"))
    D = T("DINT")
    a, b = w.add("A", "a", "DINT", 2), w.add("A", "b", "DINT", 2)
    gr = w.grpadd("B", [H(a, 0, 0, 1, 4, D), H(b, 4, 0, 1, 4, D)])
    w.mapadd("A", H(a, 0, 0, 1, 4, D), H(b, 4, 0, 1, 4, D))
    w.evadd("B", H(a, 0, 0, 2, 8, D), "CHANGE", send=True)
    w.evadd("B", H(b, 0, 0, 2, 8, D), "GREATER", [3, 0, 0, 0], send=True)
    for k in range(70):
        c = g.r.randrange(8)
        i = g.r.choice([a, b])
        if c == 0:
            w.ovradd("A", i, 4 * g.r.randrange(2), g.data(4), [255] * 4)
        elif c == 1:
            w.ovrset("A", i, g.r.random() < .7)
        elif c == 2:
            w.ovrdel("A", i, 4 * g.r.randrange(2), [255] * 4)
        elif c == 3:
            w.write("A", i, 4 * g.r.randrange(2), g.data(4))
        elif c == 4:
            w.grpwrite("B", gr, g.data(8))
        elif c == 5:
            w.grpread("B", gr)
        elif c == 6:
            w.atomic("A", H(i, 4 * g.r.randrange(2), 0, 1, 4, D), g.r.choice(list(AOP)), g.data(4))
        else:
            w.ovrget("B", i, 0, 8)
        w.read("B", i, 0, 8)
    w.dump("A")


C12 = [(c12_bits, 48, 300), (c12_with, 8, 60), (focus(300, ovradd=6, ovrset=5, ovrdel=3, ovrget=4, write=4, mwrite=2, read=6, readd=2, **{"del": 1}), 24, 200), (everything, 6, 60)]

# ---------------------------------------------------------------------------
# C13 permissions


def c13_matrix(w):
    """everything anybody could try on every kind of protected tag"""
    names = ["A", "B", "C"]
    two(w, names)
    g = Gen(w, names)
    D = T("DINT")
    kinds = {"ro": w.add("A", "ro", "DINT", 2, own=True, ro=True), "own": w.add("A", "own", "DINT", 2, own=True), "plain": w.add("A", "plain", "DINT", 2), "rob": w.add("B", "rob", "DINT", 2, own=True, ro=True)}
    src = w.add("C", "src", "DINT", 8)
    for i in kinds.values():
        for c in "AC":
            w.evadd(c, H(i, 0, 0, 2, 8, D), "WRITE", send=True)
            w.evadd(c, H(i, 0, 0, 2, 8, D), "DELETED")
    order = [(n, i, c) for n, i in kinds.items() for c in names]
    g.r.shuffle(order)
    for n, i, c in order:
        acts = [lambda: w.write(c, i, 0, g.data(8)), lambda: w.write(c, i, 4, g.data(4)), lambda: w.mwrite(c, i, 0, g.data(8), g.data(8)), lambda: w.atomic(c, H(i, 0, 0, 1, 4, D), "INC", [1, 0, 0, 0]),
                lambda: w.atomic(c, H(i, 0, 3, 7, 2, T("BOOL")), "NOT", [0, 0]), lambda: w.mapadd(c, H(src, 0, 0, 2, 8, D), H(i, 0, 0, 2, 8, D)), lambda: w.mapadd(c, H(src, 0, 0, 1, 1, T("BOOL")), H(i, 0, 0, 1, 1, T("BOOL"))),
                lambda: w.write(c, src, 0, g.data(8)), lambda: w.write(c, i, 0, []), lambda: w.add(c, n, "DINT", 2), lambda: w.add(c, n, "DINT", 3), lambda: w.add(c, n, "DINT", 2, own=True), lambda: w.add(c, n, "DINT", 2, own=True, ro=True), lambda: w.add(c, n, "INT", 2),
                lambda: w.add(c, n, "DINT", 2, ro=True)]

        def grp():
            x = w.grpadd(c, [H(src, 8, 0, 1, 4, D), H(i, 0, 0, 2, 8, D), H(src, 12, 0, 1, 4, D)])
            if x is not None:
                w.grpwrite(c, x, g.data(16))
                w.do(c, "grpdel", {"id": x})
            x = w.grpadd(c, [H(i, 0, 2, 5, 1, T("BOOL"))])
            if x is not None:
                w.grpwrite(c, x, g.data(1))
                w.do(c, "grpdel", {"id": x})
        acts.append(grp)
        g.r.shuffle(acts)
        for f in acts[:g.r.randint(6, len(acts))]:
            f()
            if g.r.random() < .5:
                w.read(g.client(), i, 0, 8)
        w.geti("C", i)
        w.read("C", i, 0, 8)
        w.read("C", src, 0, 32)
    w.leave("B")
    w.dump("C")
    w.leave("A")
    w.dump("C")


def c13_owners(w):
    """ownership over the lives of several connections, registered or not"""
    names = ["A", "B", "C", "D"]
    for c in names:
        w.connect(c)
    for c in "ABC":
        w.register(c, c)
    g = Gen(w, names)
    live = set(names)
    tn = ["t%d" % k for k in range(6)]
    ids = {}
    for k in range(150):
        if w.broken:
            break
        who = g.r.choice(sorted(live))
        n = g.r.choice(tn)
        c = g.r.random()
        if c < .4:
            i = w.add(who, n, "DINT", g.r.choice([1, 1, 1, 2]), own=g.r.random() < .6, ro=g.r.random() < .5, ret=False)
            if i is not None:
                ids[n] = i
        elif c < .6 and n in ids:
            w.write(who, ids[n], 0, g.data(4))
        elif c < .65 and n in ids:
            w.mwrite(who, ids[n], 0, g.data(4), g.data(4))
        elif c < .7 and n in ids:
            w.atomic(who, H(ids[n], 0, 0, 1, 4, T("DINT")), "DEC", [1, 0, 0, 0])
        elif c < .75 and n in ids and g.r.random() < .5:
            w.delete(who, ids[n])
        elif c < .85 and len(live) > 1:
            w.leave(who)
            live.discard(who)
            o = sorted(live)[0]
            for m in tn:
                w.getn(o, m)
        elif c < .95:
            gone = [x for x in names if x not in live]
            if gone:
                x = g.r.choice(gone)
                w.connect(x)
                if g.r.random() < .8:
                    w.register(x, x)
                live.add(x)
        elif c < .97:
            w.register(who, who)             # registering again starts over
        else:
            w.getn(who, n)
    w.dump(sorted(live)[0])


C13 = [(c13_matrix, 20, 150), (c13_owners, 20, 200), (c03_sys, 1, 2), (everything, 6, 80)]

# ---------------------------------------------------------------------------
# C14 module tags


def c14_names(w):
    """module names: equal ones, long ones, strange ones"""
    r = w.rnd
    pool = ["m", "mod", "mod1", "", "a b", "x" * 28, "x" * 29, "x" * 30, "x" * 31, "x" * 40, "1abc", "a.b", "Mod", "q" * 200, "é", "_t", "a-b", "y" * 27, "z[1]"]
    w.connect("W")
    w.register("W", "watch")
    w.evadd("W", H(6, 0, 0, 33, 33, T("CHAR")), "CHANGE", send=True)
    w.evadd("W", H(0, 0, 0, 1, 4, T("DINT")), "CHANGE", send=True)
    live = []
    for k in range(60):
        if w.broken:
            break
        c = r.random()
        if c < .55 and len(live) < 25:
            n = "c%d" % k
            w.connect(n)
            w.register(n, r.choice(pool[:9] if r.random() < .6 else pool))
            live.append(n)
            w.add(n, "own%d" % k, "DINT", 1, own=True)
            w.read(n, 10, 0, 33)
            w.read(n, 10, r.randrange(33), 1)
        elif c < .7 and live:
            w.leave(live.pop(r.randrange(len(live))))
        elif c < .78 and live:
            w.register(r.choice(live), r.choice(pool))
        elif live:
            n = r.choice(live)
            w.read(n, 10, 0, 33)
            w.status(n)
    for _ in range(11):
        w.connect("s%d" % _)
        w.register("s%d" % _, "same")
    w.dump("W")
    for _ in range(0, 11, 2):
        w.leave("s%d" % _)
    for _ in range(4):
        w.connect("r%d" % _)
        w.register("r%d" % _, "same")
    w.dump("W")


def c14_fields(w):
    """who may write which byte of a module tag"""
    names = ["A", "B"]
    tags = {}
    for c in names:
        w.connect(c)
        w.register(c, "mod" + c)
        tags[c] = w.modtag
    w.connect("U")                 # never registers
    g = Gen(w, ["A", "B", "U"])
    for c in names:
        w.evadd("B", H(tags[c], 77, 0, 4, 1, T("BOOL")), "CHANGE", send=True)
        w.evadd("A", H(tags[c], 0, 0, 1, 78, T("CDT", 0)), "CHANGE", send=True)
    src = w.add("A", "src", "BYTE", 80)
    B = T("BYTE")
    for k in range(130):
        if w.broken:
            break
        who, i = g.client(), g.r.choice(list(tags.values()))
        off = g.r.choice([0, 7, 8, 11, 12, 13, 14, 40, 76, 77, 77, 77, 78, 12, g.r.randrange(78)])
        sz = g.r.choice([1, 1, 1, 2, 3, 66, 78, 64])
        c = g.r.random()
        if c < .4:
            w.write(who, i, off, g.data(sz))
        elif c < .65:
            w.mwrite(who, i, off, g.data(sz), g.data(sz))
        elif c < .72:
            x = w.grpadd(who, [H(i, off, 0, sz, sz, B)])
            if x is not None:
                w.grpwrite(who, x, g.data(sz))
        elif c < .78:
            x = w.grpadd(who, [H(i, off, g.r.randrange(8), 1, 1, T("BOOL"))])
            if x is not None:
                w.grpwrite(who, x, g.data(1))
        elif c < .84:
            w.mapadd(who, H(src, 0, 0, sz, sz, B), H(i, off, 0, sz, sz, B))
        elif c < .88:
            w.write(who, src, 0, g.data(80))
        elif c < .92:
            w.atomic(who, H(i, off, 0, 1, 1, B), "INC", [1])
        elif c < .94:
            w.delete(who, i)
        elif c < .96:
            w.add(who, "_mmodA", T("CDT", 0), 1, own=True)
        w.read(g.client(), i, 0, 78)
    w.leave("A")
    w.dump("B")


def c14_life(w):
    """everything a client has goes away with it, however it goes, and nothing else"""
    names = ["A", "B", "C", "D"]
    for c in names:
        w.connect(c)
        w.register(c, g0(c, w))
    g = Gen(w, names)
    ws = {"add": 3, "write": 3, "evadd": 4, "grp": 3, "map": 2, "ovradd": 1, "ovrset": 1, "grpwrite": 1, "atomic": 1, "cdt": .5}
    for rnd in range(5):
        base = len(w.steps)
        g.run(ws, base + 35)
        for _ in range(2):
            g.op_add(own=True, ro=g.r.random() < .5, c=g.client())
        c = g.r.choice(g.clients)
        w.leave(c)
        g.clients.remove(c)
        g.grp.pop(c, None)
        g.evs = [e for e in g.evs if e[0] != c]
        d = w.read(g.clients[0], 1, 0, 4)
        last = int.from_bytes(bytes(d or [0]), "little")
        for i in range(11, last + 1):
            ok, v = w.geti(g.clients[0], i)
            if not ok and i in g.tags:
                g.gone(i)
        for i in list(g.tags)[:12]:
            if not g.tags[i]["q"]:
                off, data = g.wpart(i)
                w.write(g.clients[0], i, off, data)
        w.connect(c)
        if g.r.random() < .85:
            w.register(c, g0(c, w))
        g.clients.append(c)
    w.dump(g.clients[0])


def g0(c, w):
    return c if w.seed % 2 else "same"


def c14_many(w):
    """many connections at once"""
    w.connect("W")
    w.register("W", "watch")
    for k in range(60):
        w.connect("c%d" % k)
        w.register("c%d" % k, "n%d" % (k % 7))
    w.status("W")
    for k in w.rnd.sample(range(60), 35):
        w.leave("c%d" % k)
    w.dump("W")


C14 = [(c14_names, 10, 80), (c14_fields, 16, 120), (c14_life, 20, 150), (c14_many, 1, 4), (everything, 4, 60)]
from scen15 import C15
from scen16 import C16
from scen05 import C05, C17
from scen18 import C18
from scen19 import C19
from scen20 import C20
from scen21 import C21

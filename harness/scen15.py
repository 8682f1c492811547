"""Restarts and crashes."""
import glob, os, shutil
from world import *
from gen import Gen


def preload(seed):
    so = compile_c("crash.c", "crash.so", ["-shared", "-fPIC", "-ldl"])
    return {"env": {"LD_PRELOAD": so}}


def crashy(f):
    f.flavor = "plain"
    f.options = preload
    return f


def count(w):
    try:
        with open(os.path.join(w.srv.dir, "crash.count")) as f:
            return int(f.read().strip() or 0)
    except (OSError, ValueError):
        return 0


def arm(w, at, torn=0):
    with open(os.path.join(w.srv.dir, "crash.at.tmp"), "w") as f:
        f.write("%d %d\n" % (at, torn))
    os.rename(os.path.join(w.srv.dir, "crash.at.tmp"), os.path.join(w.srv.dir, "crash.at"))
    w.crashing = True


def disarm(w):
    f = os.path.join(w.srv.dir, "crash.at")
    if os.path.exists(f):
        os.unlink(f)
    w.crashing = False


def image(w, kind):
    """what is on the disk after the crash: everything that was written, or only
    what was certain to be there, for each of the files"""
    d = w.srv.dir
    for f in sorted(os.listdir(d)):
        if not f.startswith("retentive.db") or f.endswith(".synced"):
            continue
        p = os.path.join(d, f)
        lose = kind == "lost" or (kind == "db" and f == "retentive.db") or (kind == "journal" and f != "retentive.db")
        if not lose:
            continue
        if f.endswith("-shm"):
            os.unlink(p)
        elif os.path.exists(p + ".synced"):
            shutil.copyfile(p + ".synced", p)
        else:
            open(p, "w").close()
    for f in glob.glob(os.path.join(d, "*.synced")):
        os.unlink(f)
    # what is there now is what the next crash can rely on
    for f in glob.glob(os.path.join(d, "retentive.db*")):
        shutil.copyfile(f, f + ".synced")


IMAGES = ["kept", "lost", "db", "journal"]


def again(w, kind="kept", sig=signal.SIGKILL, pending=None, startcrash=0):
    def between():
        disarm(w)
        image(w, kind)
        if startcrash:
            arm(w, startcrash)
            w.srv.retry = lambda: disarm(w)
    o = w.restart(between, sig, pending)
    w.srv.retry = None
    disarm(w)
    return o


SCRIPT = 16


def script(w, k, mem):
    """the k-th operation of a fixed history"""
    A = "A"
    if k == 0:
        mem["a"] = w.add(A, "ra", "DINT", 3, ret=True)
    elif k == 1:
        w.write(A, mem["a"], 0, list(range(1, 13)))
    elif k == 2:
        mem["b"] = w.add(A, "rb", "BOOL", 12)
    elif k == 3:
        w.write(A, mem["b"], 0, [0xA5, 0x5A])
    elif k == 4:
        w.add(A, "rb", "BOOL", 12, ret=True)
    elif k == 5:
        w.mwrite(A, mem["a"], 2, [255, 255], [0x0F, 0xF0])
    elif k == 6:
        w.cdt(A, "In", [("x", "BOOL", 3), ("y", "INT", 2)])
        t = w.cdt(A, "Out", [("p", "In", 2), ("q", "LREAL", 1)])
        w.types = {**(w.types or {}), **({t["n"]: 18} if t else {})}
        mem["c"] = w.add(A, "rc", t, 2, ret=True) if t else None
    elif k == 7:
        if mem.get("c") is not None:
            w.write(A, mem["c"], 1, [7] * 30)
    elif k == 8:
        w.add(A, "ra", "DINT", 2000, ret=False)
    elif k == 9:
        w.write(A, mem["a"], 7000, [9] * 900)
    elif k == 10:
        w.delete(A, mem["b"])
    elif k == 11:
        mem["b"] = w.add(A, "rb", "INT", 2, ret=True)
    elif k == 12:
        w.write(A, mem["b"], 0, [1, 2, 3, 4])
    elif k == 13:
        w.atomic(A, H(mem["a"], 0, 0, 1, 4, T("DINT")), "INC", [1, 0, 0, 0])
    elif k == 14:
        if mem.get("c") is not None:
            w.delete(A, mem["c"])
    elif k == 15:
        w.add(A, "plain", "DINT", 1)


@crashy
def c15_points(w):
    """the server ends at every point of a fixed history where it touches its files"""
    seed = w.seed
    point = seed % 265 + 1
    image_kind = IMAGES[(seed // 265 + seed) % 4]
    torn = [0, 0, 100, 0, 1][seed % 5]
    w.connect("A")
    base = count(w)
    mem = {}
    k0 = 0
    # which operation a point falls into is not known in advance: step by step
    arm(w, base + point, torn)
    for k in range(SCRIPT):
        script(w, k, mem)
        if w.down or w.broken:
            k0 = k
            break
    done = not w.down
    again(w, image_kind)
    if w.broken:
        return
    w.join("B")
    w.dump("B")
    if not done:
        # the database is good for more
        w.add("B", "more", "UINT", 4, ret=True)
        i = w.add("B", "ra", "DINT", 3)
        if i is not None:
            w.write("B", i, 0, [77] * 4)
    again(w, image_kind, signal.SIGTERM if seed % 7 == 0 else signal.SIGKILL)
    w.join("C")
    w.dump("C")


class Ret:
    """a random history around retained tags"""

    def __init__(self, w):
        self.w, self.r = w, w.rnd
        self.g = None
        self.k = 0
        self.used = []
        self.names = {}     # name -> (type, count)
        self.idx = {}
        self.types = {}     # type name -> size
        self.plain = None

    def begin(self, o):
        self.w.join("A")
        self.w.join("B")
        self.idx = {}
        self.ret = set()
        if o:
            for t in o["tags"]:
                self.idx[t["name"]] = t["idx"]
                self.names[t["name"]] = (t["t"], t["count"])
                self.ret.add(t["name"])
        self.names = {n: x for n, x in self.names.items() if n in self.idx}
        self.ovr = set()
        self.tn = {t["name"]: t["n"] for t in (o or {"types": []})["types"]}
        self.mapped = set()

    def data(self, n):
        return [self.r.choice([0, 1, 255, self.r.randrange(256)]) for _ in range(n)]

    def size(self, n):
        t, c = self.names[n]
        return self.w.bytes_of(t, c)

    def op(self):
        w, r = self.w, self.r
        c = r.choice("AB")
        k = r.random()
        live = list(self.idx)
        if k < .2 or not live:
            self.k += 1
            # names that differ only in case, or where a pattern would match both
            old = [n for n in self.used if n not in self.idx]
            n = r.choice(old) if old and r.random() < .3 else r.choice(["r", "R", "r_", "rx", "r_x", "RX"]) + str(self.k // 3)
            self.used.append(n)
            if n in self.idx:
                return
            if self.tn and r.random() < .3:
                t = T("CDT", r.choice(list(self.tn.values())))
                if w.bytes_of(t, 1) is None:
                    return
            else:
                t = T(r.choice(BASES))
            cnt = r.choice([1, 1, 2, 5, 8, 9, 300, 1500])
            ret = r.random() < .8
            i = w.add(c, n, t, cnt, ret=ret)
            if i is not None:
                self.names[n], self.idx[n] = (t, cnt), i
                if ret:
                    self.ret.add(n)
        elif k < .55:
            n = r.choice(live)
            z = self.size(n)
            off = r.randrange(z)
            m = min(z - off, r.choice([1, 2, 4, 4000]))
            w.write(c, self.idx[n], off, self.data(m))
        elif k < .65:
            n = r.choice(live)
            z = self.size(n)
            off = r.randrange(z)
            m = min(z - off, r.choice([1, 2, 4, 2000]))
            w.mwrite(c, self.idx[n], off, self.data(m), self.data(m))
        elif k < .72:
            n = r.choice(live)
            t, cnt = self.names[n]
            new = cnt + r.choice([0, 1, 8, 100])
            ret = r.random() < .5
            i = w.add(c, n, t, new, ret=ret)
            if i is not None:
                self.names[n] = (t, max(cnt, new))
                if ret:
                    self.ret.add(n)
        elif k < .8:
            n = r.choice(live)
            if w.delete(c, self.idx[n]):
                self.idx.pop(n)
                self.names.pop(n)
                self.ret.discard(n)
        elif k < .85:
            n = r.choice(live)
            t, cnt = self.names[n]
            if t["b"] in ("BOOL", "CDT") or t["b"] in FLOATS:
                return
            z = SIZES[t["b"]]
            j = r.randrange(cnt)
            w.atomic(c, H(self.idx[n], j * z, 0, 1, z, T(t["b"])), r.choice(["INC", "DEC", "XOR", "NOT"]), self.data(z))
        elif k < .9:
            n = r.choice(live)
            z = self.size(n)
            if r.random() < .6:
                m = self.data(min(z, 50))
                m[0] |= 1
                if w.ovradd(c, self.idx[n], 0, self.data(len(m)), m):
                    self.ovr.add(n)
            elif n in self.ovr:
                w.ovrset(c, self.idx[n], r.random() < .7)
        elif k < .94:
            # a mapping from a plain tag into a retained one
            src = [n for n in live if n not in self.ret and self.names[n][0]["b"] not in FLOATS]
            dst = [n for n in live if n in self.ret and self.names[n][0]["b"] not in FLOATS]
            if src and dst:
                s, d = r.choice(src), r.choice(dst)
                if d in self.mapped or s in self.mapped:
                    return
                z = min(self.size(s), self.size(d), 4)
                if self.names[s][0]["b"] == "BOOL" or self.names[d][0]["b"] == "BOOL":
                    return
                if w.mapadd(c, H(self.idx[s], 0, 0, z, z, T("BYTE")), H(self.idx[d], 0, 0, z, z, T("BYTE"))) is not None:
                    self.mapped |= {s, d}
        elif k < .96:
            self.k += 1
            nm = r.choice(["T%d", "Z%d", "A%d", "m_%d", "mx%d"]) % (99 - self.k)
            ms = [("m%d" % j, r.choice(["BOOL", "INT", "BYTE", "LINT"] + list(self.tn)), r.choice([1, 2, 9])) for j in range(r.randint(1, 4))]
            t = w.cdt(c, nm, ms)
            if t:
                self.tn[nm] = t["n"]
                pos = 0
                for m in ms:
                    if m[1] == "BOOL":
                        pos += m[2]
                    else:
                        z = SIZES[m[1]] if m[1] in SIZES else w.types[self.tn[m[1]]]
                        pos = (pos + 7) // 8 * 8 + 8 * z * m[2]
                w.types = {**(w.types or {}), t["n"]: (pos + 7) // 8}
        else:
            n = r.choice(live)
            q = r.choice([T("INT", -1, True)] + [T(b, k, True) for b, k in [("LINT", -1), ("BOOL", -1)] + [("CDT", v) for v in self.tn.values()]])
            w.add(c, n + "q" if len(n) < 20 else n, q, r.choice([1, 1, 5, 9]), ret=True)


def history(w, crash):
    h = Ret(w)
    o = None
    for rnd in range(w.rnd.choice([2, 3, 4])):
        h.begin(o)
        if w.broken:
            return
        how = w.rnd.choice(["kill", "term", "pipe", "crash", "crash", "leave"] if crash else ["kill", "term", "leave", "pipe"])
        if how == "crash":
            arm(w, count(w) + w.rnd.randint(1, 120), w.rnd.choice([0, 0, 1, 100, 1000]))
        for _ in range(w.rnd.randint(2, 25)):
            h.op()
            if w.down or w.broken:
                break
        if w.broken:
            return
        pend = None
        if how == "pipe" and not w.down:
            # several requests under way when the end comes
            pend, raw = [], b""
            for _ in range(w.rnd.randint(1, 6)):
                if not h.idx:
                    break
                n = w.rnd.choice(list(h.idx))
                z = h.size(n)
                a = {"idx": h.idx[n], "off": 0, "data": h.data(min(z, 300))}
                if n in h.mapped:
                    continue
                pend.append({"c": "A", "op": "write", "a": a})
                raw += Conn.frame(*request("write", a))
            w.cl["A"].raw(raw)
            if w.rnd.random() < .5:
                time.sleep(w.rnd.random() * .01)
        if how == "leave":
            w.leave("B")
            w.leave("A")
        o = again(w, w.rnd.choice(IMAGES) if crash else "kept", signal.SIGTERM if how == "term" else signal.SIGKILL, pend,
                  startcrash=w.rnd.randint(1, 12) if crash and w.rnd.random() < .25 else 0)
        if w.broken:
            return
    w.join("Z")
    w.dump("Z")


@crashy
def c15_crash(w):
    history(w, True)


def c15_restart(w):
    history(w, False)


def c15_many(w):
    """many retained tags, over several restarts without anyone touching them"""
    w.join("A")
    n = 300 if w.seed % 2 else 60
    for k in range(n):
        w.add("A", "keep%d" % k, w.rnd.choice(BASES), w.rnd.choice([1, 3]), ret=k % 3 != 0)
    for k in range(n):
        if k % 2:
            ok, v = w.getn("A", "keep%d" % k)
            if ok:
                w.write("A", v["idx"], 0, [w.rnd.randrange(256)])
    for k in range(0, n, 7):
        ok, v = w.getn("A", "keep%d" % k)
        if ok:
            w.delete("A", v["idx"])
    for k in range(4):
        w.restart(sig=signal.SIGTERM if k == 1 else signal.SIGKILL)
    w.join("A")
    w.dump("A")


def c15_types(w):
    """retained tags of types made of types, over several lives of the server"""
    r = w.rnd
    w.join("A")
    tn, size, w.types = {}, {}, {}
    words = ["Zone", "Alpha", "motor", "B_2", "pump", "Xyz", "a1", "Tank", "Q9", "_in", "Mid", "zz"]
    r.shuffle(words)
    kept = 0
    for life in range(3):
        for _ in range(r.randint(2, 4)):
            if not words:
                break
            nm = words.pop()
            ms = [("k", r.choice(["BOOL", "INT", "LREAL"]), r.choice([1, 3, 9]))]
            for j, x in enumerate(r.sample(sorted(tn), min(len(tn), r.choice([0, 1, 1, 2])))):
                ms.insert(r.randrange(2), ("u%d" % j, x, r.choice([1, 2])))
            t = w.cdt("A", nm, ms)
            if not t:
                return
            pos = 0
            for m in ms:
                if m[1] == "BOOL":
                    pos += m[2]
                else:
                    z = SIZES[m[1]] if m[1] in SIZES else size[m[1]]
                    pos = (pos + 7) // 8 * 8 + 8 * z * m[2]
            tn[nm], size[nm] = t["n"], (pos + 7) // 8
            w.types[t["n"]] = size[nm]
        # the ones built last first, some never
        for nm in r.sample(sorted(tn), min(len(tn), r.choice([1, 1, 2]))) if life else [sorted(tn, key=lambda x: -size[x])[0]]:
            kept += 1
            n = r.choice([1, 1, 2, 5])
            i = w.add("A", "v%d" % kept, T("CDT", tn[nm]), n, ret=True)
            if i is not None:
                w.write("A", i, 0, [r.randrange(256) for _ in range(min(size[nm] * n, 1000))])
        o = w.restart(sig=r.choice([signal.SIGTERM, signal.SIGKILL]))
        if w.broken:
            return
        tn = {t["name"]: t["n"] for t in o["types"]} if o else {}
        size = {n: size[n] for n in tn if n in size}
        tn = {n: v for n, v in tn.items() if n in size}
        w.types = {tn[n]: size[n] for n in tn}
        w.join("A")
    w.dump("A")


C15 = [(c15_types, 24, 200), (c15_points, 265, 1060), (c15_crash, 40, 600), (c15_restart, 24, 200), (c15_many, 2, 6)]

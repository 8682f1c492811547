"""What clients can do to the server: fragments, nonsense, disappearing."""
import os
from world import *
from gen import Gen


def pieces(r, raw):
    """raw cut at random places"""
    k = r.choice([0, 1, 2, 3, 7, 30])
    cuts = sorted({r.randrange(1, len(raw)) for _ in range(min(k, len(raw) - 1))}) if len(raw) > 1 else []
    if r.random() < .2:
        cuts = list(range(1, min(len(raw), 40)))
    if r.random() < .3:
        cuts = sorted(set(cuts) | {x for x in (4, 8, 7, 9, len(raw) - 1) if 0 < x < len(raw)})
    out, p = [], 0
    for c in cuts + [len(raw)]:
        out.append(raw[p:c])
        p = c
    return out


def take(w, c, op, a, m):
    """the answer m to an operation of client c: a step"""
    ok, e, body = Conn.judge(request(op, a)[0], m)
    if ok:
        o, v = answer(op, body)
    else:
        o, v = NOOBS.get(op, 0), []
    n = []
    if w.cl[c].events:
        n = [{"c": c, "l": w.cl[c].events}]
        w.cl[c].events = []
    w.rec(c, op, a, o, ok, e, v, n)
    return ok, v


def many(w, c, ops):
    """several requests in one stream, cut anywhere; all are answered in order"""
    if w.broken:
        return []
    raw = b"".join(Conn.frame(*request(op, a)) for op, a in ops)
    out = []
    try:
        for p in pieces(w.rnd, raw):
            w.cl[c].raw(p)
        for op, a in ops:
            m = w.cl[c].recv()
            if m is None:
                raise Died("connection closed by the server")
            out.append(take(w, c, op, a, m))
    except (Died, struct.error, ValueError, IndexError) as x:
        w.fail(c, "many", {"ops": [o for o, _ in ops]}, str(x))
    return out


def rops(g, n):
    """n requests that make sense"""
    out = []
    for _ in range(n):
        k = g.r.random()
        i = g.tag(lambda x: not x["q"] and not x["fl"])
        if i is None:
            break
        x = g.tags[i]
        if k < .35:
            off, d = g.wpart(i)
            out.append(("write", {"idx": i, "off": off, "data": d}))
        elif k < .37 and x["n"] >= 4080:
            out.append(("write", {"idx": i, "off": g.r.randrange(x["n"] - 4079), "data": g.data(4080)}))     # the largest request
        elif k < .7:
            off, sz = g.part(x["n"])
            out.append(("read", {"idx": i, "off": off, "size": min(sz, 4088)}))
        elif k < .8:
            off, sz = g.part(x["n"])
            sz = min(sz, 2000)
            out.append(("mwrite", {"idx": i, "off": off, "data": g.data(sz), "mask": g.data(sz)}))
        elif k < .9:
            out.append(("getn", {"name": x["name"]}))
        else:
            out.append(("geti", {"idx": g.r.choice([i, 4000])}))
    return out


def setup(w, clients="ABC", big=True):
    for c in clients:
        w.join(c, tcp=w.rnd.random() < .3)
    g = Gen(w, clients)
    for b in ("BYTE", "DINT", "BOOL", "LINT"):
        g.op_add(base=b, count=g.r.choice([1, 5, 40]))
    if big:
        g.op_add(base="BYTE", count=4088)
        g.op_add(base="UINT", count=3000)
    return g


def c16_merge(w):
    """requests glued together and cut at any place"""
    g = setup(w)
    i = next(iter(g.tags))
    w.evadd("A", H(i, 0, 0, 1, 1, T("BYTE")), "WRITE", send=True)
    for _ in range(14):
        if w.broken:
            return
        many(w, "A", [(o, a) for o, a in rops(g, g.r.choice([1, 2, 5, 20, 60]))])
        many(w, "B", [(o, a) for o, a in rops(g, g.r.choice([1, 2, 9])) if a.get("idx") != i or o not in ("write", "mwrite")])
    w.dump("C")


def c16_slow(w):
    """a request arrives in pieces while others are served"""
    g = setup(w)

    def others():
        if g.r.random() < .3:
            g.w = w
            c = g.r.choice("BC")
            for op, a in rops(g, 1):
                w.do(c, op, a)
    for _ in range(25):
        if w.broken:
            return
        many(w, "A", rops(g, g.r.choice([1, 1, 2, 3])))
        # one request, the others in between
        ops = rops(g, 1)
        if not ops:
            continue
        op, a = ops[0]
        parts = None
        big = g.tag(lambda x: not x["q"] and x["n"] >= 4080)
        if big is not None and g.r.random() < .3:
            op, a = "write", {"idx": big, "off": g.r.randrange(g.tags[big]["n"] - 4079), "data": g.data(4080)}
        raw = Conn.frame(*request(op, a))
        if g.r.random() < .3:
            k = g.r.choice([1, 1, 2, 4, len(raw) // 2])
            parts = [raw[:-k], raw[-k:]]
        w.cl["A"].busy = True
        try:
            for p in (parts or pieces(w.rnd, raw))[:-1]:
                w.cl["A"].raw(p)
                raw = raw[len(p):]
                others()
                if parts:
                    w.do("C", "geti", {"idx": 1})
            w.cl["A"].raw(raw)
            m = w.cl["A"].recv()
            w.cl["A"].busy = False
            if m is None:
                raise Died("connection closed by the server")
            take(w, "A", op, a, m)
        except (Died, struct.error, ValueError, IndexError) as x:
            w.fail("A", op, a, str(x))
    w.dump("B")


def c16_idle(w):
    """incomplete requests survive a pause of the server's own housekeeping, however many clients wait"""
    cs = "ABCDEFGHI"[:3 if w.seed % 3 == 0 else w.rnd.choice([6, 7, 9])]
    g = setup(w, cs)
    for k in range(2):
        order = list(cs)
        w.rnd.shuffle(order)
        ops = {c: rops(g, 1) for c in order}
        rest = {}
        for c in order:
            raw = Conn.frame(*request(*ops[c][0]))
            n = g.r.randrange(1, len(raw)) if g.r.random() < .4 else g.r.choice([1, 4, 7, 8, len(raw) - 1])
            n = min(n, len(raw) - 1)
            w.cl[c].raw(raw[:n])
            w.cl[c].busy = True
            rest[c] = raw[n:]
            time.sleep(.005)        # so that the order of arrival is the order of this loop
        time.sleep(1.3 if w.seed % 2 else 2.4)
        w.rnd.shuffle(order)
        for c in order:
            o = ops[c]
            try:
                w.cl[c].raw(rest[c])
                m = w.cl[c].recv()
                w.cl[c].busy = False
                if m is None:
                    raise Died("connection closed by the server")
                take(w, c, o[0][0], o[0][1], m)
            except (Died, struct.error, ValueError, IndexError) as x:
                w.fail(c, "idle", {}, str(x))
    w.dump("A")


FIXED = {TAG_ADD: 12, TAG_DEL: 4, TAG_GET: 1, TAG_READ: 12, TAG_WRITE: 8, TAG_MWRITE: 8, EVNT_ADD: 25, EVNT_DEL: 8, EVNT_OPT: 12,
         CDT_GET: 1, MAP_ADD: 42, MAP_DEL: 8, MAP_GET: 8, GRP_ADD: 2, GRP_DEL: 4, GRP_READ: 4, GRP_WRITE: 4, ATOMIC: 21, ADD_OVRD: 12,
         DEL_OVRD: 8, GET_OVRD: 12, SET_OVRD: 5}


def bad(w, c, cmd, raw):
    """a request that has to be refused"""
    if w.broken:
        return
    try:
        ok, e, body = w.cl[c].call(cmd, bytes(raw))
        w.fence(c)
        w.rec(c, "bad", {"cmd": cmd & 0xFFFF, "raw": len(raw)}, 0, ok, e, [], w.collect())
    except (Died, struct.error) as x:
        w.fail(c, "bad", {"cmd": cmd, "raw": list(raw[:64])}, str(x))


def badreq(r, g):
    """(command, payload) of a request that names nothing that exists"""
    rb = lambda n: bytes(r.choice([0, 1, 255, 127, 128, r.randrange(256)]) for _ in range(n))
    dead = u32(r.choice([-1, 0x7FFFFFFF, -2147483648, 60000, 4000] + g.dead))
    n = r.choice([0, 1, 2, 3, 4, 8, 60, 1000, 4000, 4088])
    k = r.randrange(12)
    if k == 0:       # too short
        cmd = r.choice(list(FIXED))
        return cmd, rb(r.randrange(FIXED[cmd]))
    if k == 1:       # unknown command
        return r.choice([0, 28, 29, 100, 255, 256, 1000, 0x7FFF, 0xFFFF]), rb(n)
    if k == 2:
        cmd = r.choice([TAG_DEL, TAG_READ, TAG_WRITE, TAG_MWRITE, EVNT_ADD, EVNT_DEL, EVNT_OPT, MAP_ADD, MAP_DEL, MAP_GET, ATOMIC,
                        ADD_OVRD, DEL_OVRD, GET_OVRD, SET_OVRD])
        return cmd, (dead + rb(max(n, FIXED[cmd])))[:4088]
    if k == 3:       # a name that can't be
        return TAG_ADD, (rb(12) + r.choice([b"", b"1", b"a b", b"\xff\xfe", b"x" * 33, b"x" * 4076, b"_a", b"a-"]) + (b"\0" if r.random() < .5 else b""))[:4088]
    if k == 4:
        return TAG_GET, b"\x01" + r.choice([b"", b"zzzz", b"x" * 4087, b"q" * 40 + b"\0" + rb(20)])
    if k == 5:
        return TAG_GET, b"\x02" + dead
    if k == 6:
        return CDT_CREATE, r.choice([b"", b":", b":::", b"a:", b"a:b", b"a:b,INT", b"a:b,INT,", b"a:,,", b"a:b,INT,x", b"a:b,INT,-1", b"a:b,INT,0",
                                     b"1:b,INT,1", b"y" * 33 + b":b,INT,1", b"zz:b,NOPE,1", b"zz:b,INT,99999999999999", b"w" * 4088,
                                     b"v:" + b"b,INT,1:" * 500, b"zz:b,LREAL,2147483647", b"zz:b,zz,1"])[:4088] + b""
    if k == 7:
        return CDT_GET, r.choice([b"\x01nosuch\0", b"\x02" + u32(0x80000000 + r.choice([900, 0x3FFFFFFF])), b"\x01" + b"n" * 4087, b"\x01\0", b"\x01",
                                  b"\x02" + u32(0x15)])
    if k == 8:
        return r.choice([GRP_DEL, GRP_READ]), u32(r.choice([-1, 0x7FFFFFFF, 500, 77777]))
    if k == 9:
        return GRP_WRITE, (u32(r.choice([-1, 0x7FFFFFFF, 500, 77777])) + rb(n))[:4088]
    if k == 10:
        m = r.randint(1, 190)
        return GRP_ADD, (bytes([m, 0]) + b"".join(dead + rb(17) for _ in range(r.choice([0, 1, m]))))[:4088]
    return r.choice([TAG_LIST, EVNT_GET, GRP_MWRITE]), rb(n)


def c16_bad(w):
    """requests that make no sense"""
    g = setup(w)
    g.op_add(base="INT", count=4)
    x = g.op_add(base="INT", count=4)
    if x is not None and w.delete("A", x):
        g.gone(x)
    for k in range(220):
        if w.broken:
            return
        cmd, raw = badreq(w.rnd, g)
        bad(w, w.rnd.choice("AB"), cmd, raw)
        if k % 10 == 0:
            for op, a in rops(g, 1):
                w.do("C", op, a)
    w.dump("C")


def c16_args(w):
    """well formed requests with every kind of argument"""
    g = setup(w)
    V = [0, 1, 2, 7, 8, 9, 255, 256, 4087, 4088, 4089, 65535, 0x7FFFFFFF, -1, -2, -2147483648 + 1]
    v = lambda: w.rnd.choice(V)
    cv = lambda x: max(-CLIP, min(CLIP, x))
    for _ in range(200):
        if w.broken:
            return
        i = g.tag()
        c = w.rnd.choice("AB")
        x = g.tags[i]
        k = w.rnd.randrange(8)
        if k == 0:
            w.read(c, i, cv(v()), cv(v()))
        elif k == 1:
            w.write(c, i, cv(v()), g.data(w.rnd.choice([0, 1, 8, 300])))
        elif k == 2:
            n = w.rnd.choice([0, 1, 8, 300])
            w.mwrite(c, i, cv(v()), g.data(n), g.data(n))
        elif k == 3:
            h = H(i, cv(v()), w.rnd.choice([0, 1, 7, 8, 255]), cv(v()), cv(v()), T(w.rnd.choice(BASES)))
            if h["t"]["b"] in FLOATS:
                h["t"] = T("BYTE")
            w.evadd(c, h, w.rnd.choice(["WRITE", "CHANGE", "SET", "RESET", "EQUAL", "GREATER", "LESS", "DEADBAND", "DELETED"]), g.data(8))
        elif k == 4:
            w.ovrget(c, i, cv(v()), cv(v()))
        elif k == 5:
            hs = [H(i, cv(v()), w.rnd.choice([0, 7, 8]), cv(v()), cv(v()), T(w.rnd.choice(["BYTE", "BOOL", "DINT"])))]
            j = w.grpadd(c, hs)
            if j is not None:
                w.grpread(c, j)
                w.do(c, "grpdel", {"id": j})
        elif k == 6:
            j = g.tag()
            s = H(i, cv(v()), w.rnd.choice([0, 7, 8]), cv(v()), cv(v()), T(w.rnd.choice(["BYTE", "BOOL"])))
            d = H(j, cv(v()), w.rnd.choice([0, 7, 8]), cv(v()), cv(v()), T(w.rnd.choice(["BYTE", "BOOL"])))
            if CLIP in (s["count"], d["count"]):
                continue
            m = w.mapadd(c, s, d)
            if m is not None:
                w.do(c, "mapdel", {"idx": i, "id": m})
        else:
            w.delete(c, cv(v()) if w.rnd.random() < .5 else 100 + w.rnd.randrange(1000))
    w.dump("C")


def hangup(w, c):
    """the other end is closed: by us, or by the server because of what we sent"""
    if w.broken:
        return
    try:
        k = w.cl.pop(c)
        k.close()
        w.fence(n=3)
        w.rec(c, "disconnect", {}, 0, True, 0, [], w.collect())
    except Died as x:
        w.fail(c, "disconnect", {}, str(x))


def c16_sizes(w):
    """sizes that can't be, and whatever follows them"""
    g = setup(w, "AB")
    r = w.rnd
    for k in range(25):
        if w.broken:
            return
        c = "F%d" % k
        w.connect(c, tcp=r.random() < .3)
        if r.random() < .5:
            w.register(c, "F")
        if r.random() < .4:
            w.add(c, "own%d" % k, "INT", 2, own=True)
        if r.random() < .4:
            w.evadd("A", H(next(iter(g.tags)), 0, 0, 1, 1, T("BYTE")), "DELETED")
        size = r.choice([0, 1, 7, 4097, 5000, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFF8])
        raw = struct.pack(">II", size, r.choice([0, 1, 2, 6, 7, 99, 0xFFFFFFFF])) + bytes(r.randrange(256) for _ in range(r.choice([0, 1, 100, 5000])))
        w.cl[c].busy = True
        try:
            w.cl[c].s.sendall(raw)
        except OSError:
            pass
        for op, a in rops(g, 3):
            w.do("A", op, a)
        # noise after it must not be taken for a request
        hangup(w, c)
    w.dump("B")


def c16_vanish(w):
    """clients that go away in the middle of things"""
    g = setup(w, "AB")
    r = w.rnd
    i0 = next(iter(g.tags))
    w.evadd("A", H(i0, 0, 0, 1, 1, T("BYTE")), "WRITE", send=True)
    w.evadd("B", H(0, 0, 0, 1, 4, T("DINT")), "CHANGE")
    late = []
    for k in range(18):
        if w.broken:
            return
        c = "V%d" % k
        w.connect(c, tcp=r.random() < .3)
        if r.random() < .7:
            w.register(c, "V")
        if r.random() < .5:         # it's not always the last one
            w.join("L%d" % k, tcp=r.random() < .3)
            late.append("L%d" % k)
            if len(late) > 4:
                w.leave(late.pop(r.randrange(4)))
        if r.random() < .5:
            w.add(c, "vown%d" % k, "DINT", 2, own=True, ro=r.random() < .5)
        if r.random() < .5:
            w.evadd(c, H(i0, 0, 0, 1, 1, T("BYTE")), "WRITE")
        how = r.randrange(4)
        ops = rops(g, r.choice([1, 2, 6, 25]))
        raw = b"".join(Conn.frame(*request(op, a)) for op, a in ops)
        try:
            if how == 0:            # in the middle of a request
                raw = Conn.frame(*request(*ops[0]))
                w.cl[c].s.sendall(raw[:r.randrange(1, len(raw))])
                ops = []
            elif how == 1:          # without waiting for the answers
                w.cl[c].s.sendall(raw)
            elif how == 2:          # having read only some of them
                w.cl[c].s.sendall(raw)
                w.cl[c].s.settimeout(5)
                w.cl[c].s.recv(r.choice([1, 8, 50]))
            else:                   # reset
                w.cl[c].s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                w.cl[c].s.sendall(raw)
        except OSError:
            pass
        try:
            w.cl.pop(c).close()
            w.fence("A", 3)
            time.sleep(.02)
            w.fence("A", 3)
            w.rec(c, "vanish", {"pending": [{"c": c, "op": op, "a": a} for op, a in ops]}, 0, True, 0, [], w.collect())
        except Died as x:
            w.fail(c, "vanish", {}, str(x))
        for i in g.tags:
            if g.tags[i]["n"] <= 400:
                w.read("A", i, 0, g.tags[i]["n"])
            else:
                for off in range(0, g.tags[i]["n"], 4000):
                    w.read("A", i, off, min(4000, g.tags[i]["n"] - off))
    w.dump("B")


def c16_deaf(w):
    """a client that asks and subscribes but never reads"""
    g = setup(w, "AB")
    i = w.add("A", "deaft", "BYTE", 2000)
    w.connect("deaf")
    w.register("deaf", "deaf")
    if w.seed % 2 == 0:
        w.evadd("deaf", H(i, 0, 0, 2000, 2000, T("BYTE")), "WRITE", send=True)
    own = w.add("deaf", "downed", "INT", 1, own=True)
    if w.broken:
        return
    d = w.cl.pop("deaf")
    d.s.setblocking(False)
    raw = Conn.frame(*request("read", {"idx": i, "off": 0, "size": 2000}))
    try:
        for _ in range(3000):
            d.s.send(raw)
    except OSError:
        pass
    for k in range(300 if w.seed % 2 == 0 else 40):
        w.write("A", i, k, [k % 256])
        if k % 20 == 0:
            for op, a in rops(g, 1):
                w.do("B", op, a)
        if w.broken:
            return
    # whenever the server has given up on it, by now it's gone
    w.cl["deaf"] = d
    hangup(w, "deaf")
    w.status("B")
    w.geti("B", own)
    w.getn("B", "downed")
    w.dump("A")


def c16_crowd(w):
    """many connections, some at once"""
    n = 120 if w.seed % 2 == 0 else 60
    g = setup(w, "AB")
    cs = []
    for k in range(n):
        c = "N%d" % k
        w.connect(c, tcp=k % 5 == 0)
        if k % 3 == 0:
            w.register(c, "N")
        cs.append(c)
        for op, a in rops(g, 1):
            w.do(c, op, a)
        if w.broken:
            return
    w.rnd.shuffle(cs)
    for k, c in enumerate(cs):
        hangup(w, c)
        if k % 10 == 0:
            for op, a in rops(g, 1):
                w.do("A", op, a)
        if w.broken:
            return
    w.dump("A")


def c16_full(w):
    """more connections than the server can hold"""
    g = setup(w, "AB")
    socks = []
    try:
        for _ in range(60):
            s = socket.socket(socket.AF_UNIX)
            s.settimeout(1)
            socks.append(s)
            s.connect(w.srv.sock)
    except OSError:
        pass
    for op, a in rops(g, 10):
        w.do("A", op, a)
    for s in socks:
        s.close()
    time.sleep(.1)
    w.fence("A", 3)
    w.join("L")
    w.dump("L")


c16_full.options = lambda seed: {"wrapper": ["bash", "-c", 'ulimit -n 40; exec "$0" "$@"']}


def c16_memory(w):
    """nothing but what was asked for leaves the server"""
    w.srv.timeout = 60
    import scen
    g = scen.mix(w, 130, scen.ALL, ("A", "B"), scen.mixed_types, dump=False)
    for k in range(60):
        if w.broken:
            return
        cmd, raw = badreq(w.rnd, g)
        bad(w, "A", cmd, raw)
    w.dump("A")
    if w.broken:
        return
    for c in w.cl.values():
        c.close()
    w.cl = {}
    w.srv.kill(signal.SIGTERM)
    log = ""
    for f in os.listdir(w.srv.dir):
        if f.startswith("vg."):
            with open(os.path.join(w.srv.dir, f), errors="replace") as fh:
                log += fh.read()
    errs = [l for l in log.splitlines() if "uninitialised" in l or "Invalid " in l]
    if errs:
        w.broken = "memory"
        w.rec("-", "noanswer", {"why": "valgrind: " + " | ".join(log.splitlines()[:30])[:1500]}, 0, False, 0, [], [])
    w.ended = True


c16_memory.flavor = "plain"
c16_memory.options = lambda seed: {"timeout": 60, "wrapper": ["valgrind", "-q", "--log-file=vg.%p", "--error-limit=no", "--undef-value-errors=yes"]}

C16 = [(c16_merge, 20, 300), (c16_slow, 16, 300), (c16_idle, 9, 40), (c16_bad, 24, 400), (c16_args, 16, 300), (c16_sizes, 8, 80), (c16_vanish, 20, 300),
       (c16_deaf, 2, 6), (c16_crowd, 2, 6), (c16_full, 1, 3), (c16_memory, 4, 40)]

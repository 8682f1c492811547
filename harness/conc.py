"""Calls that overlap: several threads of a library client, several library
clients, and clients on the wire that send many requests at once.  ConcWorld
records blocks of calls with the times they began and returned."""
import threading
from lib import *


class Need(Exception):
    pass


class Plan:
    """stands for a connection: finds out what libcall() would say"""
    def __init__(self, k, answer=None):
        self.groups, self.answer = k.groups, answer

    def cmd(self, text):
        if self.answer is None:
            raise Need(text)
        w = self.answer.split(" ")
        return int(w[0]), [x for x in w[1:] if x]


class SubConn(LibConn):
    """another connection of the same process"""
    def __init__(self, main, name):
        self.main, self.conn = main, name
        self.srv, self.p = main.srv, main.p
        self.busy = self.closed = False
        self.events = []
        self.groups = {}

    def put(self, text):
        self.main.put(text)

    def line(self, timeout=60):
        return self.main.line(timeout)

    def close(self):
        self.closed = True

    def why(self, what):
        return self.main.why(what)


class ConcWorld(LibWorld):
    def __init__(self, *a, **k):
        self.blocks = []
        super().__init__(*a, **k)

    def rec(self, c, op, a, o, ok, e, v, n):
        st = {"c": c, "op": op, "a": a, "o": o, "ok": ok, "e": e, "v": v, "n": [], "inv": 0, "rsp": 0, "lost": False}
        self.steps.append(st)
        self.blocks.append({"th": [[st]], "evs": [{"c": x["c"], "l": [x["l"]], "held": False} for x in n]})

    def trace(self):
        return {"id": self.label, "steps": [], "blocks": self.blocks}

    def process(self, k):
        return getattr(k, "main", k)

    def subjoin(self, c, main, name=None):
        """connect c in the process of the client main"""
        if self.broken:
            return
        k = SubConn(self.cl[main], c)
        try:
            rc, _ = k.cmd("connect " + hx((name or c).encode()), c)
            if rc:
                raise Died("dax_connect() = %d" % rc)
        except Died as x:
            return self.fail(c, "register", {}, str(x))
        self.cl[c] = k
        self.joined(c, name or c)

    def batch(self, plan, pollers=True):
        """plan: list of (client, [(op, a)]), one per caller; all at the same time"""
        if self.broken:
            return
        th, jobs, procs = [], {}, {}
        tid = {}
        evs = {}
        for c, items in plan:
            mine = []
            th.append(mine)
            if self.islib(c):
                k = self.cl[c]
                pr = self.process(k)
                q = procs.setdefault(id(pr), (pr, []))[1]
                t = tid.setdefault(id(pr), 0)
                tid[id(pr)] += 1
                for op, a in items:
                    if op in ("poll", "wait"):
                        q.append((c, t, "poll 0" if op == "poll" else "wait %d" % a, op, a, mine))
                        continue
                    if op == "sleep":
                        q.append((c, t, "sleep %d" % a, op, a, mine))
                        continue
                    try:
                        if self.libcall(Plan(k), op, a) is None:
                            continue
                    except Need as x:
                        q.append((c, t, str(x), op, a, mine))
        start = time.monotonic_ns() + 4000000
        try:
            for pr, q in procs.values():
                for c, t, text, op, a, mine in q:
                    pr.put("T %d %s %s" % (t, getattr(self.cl[c], "conn", "x"), text))
                pr.put("go %d" % start)
            wires = []
            for (c, items), mine in zip(plan, th):
                if not self.islib(c):
                    w = threading.Thread(target=self.burst, args=(c, items, mine, start))
                    wires.append(w)
                    w.start()
            for pr, q in procs.values():
                got = {}
                while True:
                    l = pr.line()
                    if l == "done":
                        break
                    n, inv, rsp, rest = l.split(" ", 3)
                    got[int(n)] = (int(inv), int(rsp), rest)
                for n, (c, t, text, op, a, mine) in enumerate(q):
                    inv, rsp, rest = got[n]
                    if op == "sleep":
                        continue
                    if op in ("poll", "wait"):
                        w = rest.split(" ")[1:]
                        evs.setdefault(c, {}).setdefault(t, []).extend(events([x for x in w if x]))
                        if op == "wait" and int(rest.split(" ")[0]) not in (0, -14):
                            raise Died("dax_event_wait() = " + rest[:60])
                        continue
                    op2, a2, ok, e, o, v = self.libcall(Plan(self.cl[c], rest), op, a)
                    mine.append({"c": c, "op": op2, "a": a2, "o": o, "ok": ok, "e": e, "v": v, "n": [], "inv": inv, "rsp": rsp, "lost": False})
            for w in wires:
                w.join(60)
                if w.is_alive():
                    raise Died("no answer to requests that were sent together")
        except Died as x:
            return self.fail("-", "batch", {}, str(x))
        if self.broken:
            return
        for c, k in self.cl.items():
            if self.islib(c):
                try:
                    k.drain()
                except Died as x:
                    return self.fail(c, "poll", {}, str(x))
                if k.events or c in evs:
                    evs.setdefault(c, {})[-1] = k.events
                    k.events = []
        times = sorted({x for m in th for s in m for x in (s["inv"], s["rsp"])})
        rank = {x: n for n, x in enumerate(times)}
        for m in th:
            for s in m:
                s["inv"], s["rsp"] = rank[s["inv"]], rank[s["rsp"]]
                self.steps.append(s)
        out = []
        for c in self.cl:
            if self.islib(c):
                taken = [l for t, l in sorted(evs.get(c, {}).items())]      # -1: what was left in the end
                some = any(op in ("poll", "wait") for d, it in plan if d == c for op, a in it)
                out.append({"c": c, "l": taken or [[]], "held": not some})
        for x in self.collect():
            out = [o for o in out if o["c"] != x["c"]] + [{"c": x["c"], "l": [x["l"]], "held": False}]
        self.blocks.append({"th": [m for m in th if m], "evs": [o for o in out if o["l"] != [[]] or o["held"]]})
        if not self.srv.alive():
            self.fail("-", "batch", {}, "server ended")

    def burst(self, c, items, mine, start):
        """all requests of a client on the wire, sent in pieces that needn't be messages"""
        k = self.cl[c]
        try:
            while time.monotonic_ns() < start:
                pass
            raw, todo = b"", []
            for op, a in items:
                cmd, p = request(op, a)
                if len(p) > 4088:
                    continue
                todo.append((op, a, cmd))
                raw += struct.pack(">II", len(p) + 8, cmd) + p
            rnd = random.Random(self.seed * 1000 + len(self.blocks))
            inv = time.monotonic_ns()
            pos = 0
            while pos < len(raw):
                n = rnd.choice([len(raw), 1, 5, 40, 200, 1000])
                k.s.sendall(raw[pos:pos + n])
                pos += n
            for op, a, cmd in todo:
                m = k.recv()
                if m is None:
                    raise Died("connection closed by the server")
                ok, e, body = k.judge(cmd, m)
                o, v = answer(op, body) if ok else (NOOBS.get(op, 0), [])
                mine.append({"c": c, "op": op, "a": a, "o": o, "ok": ok, "e": e, "v": v, "n": [], "inv": inv, "rsp": time.monotonic_ns(), "lost": False})
        except (Died, OSError, struct.error) as x:
            self.fail(c, "burst", {}, str(x))

    def stopped(self, c, items):
        """calls that the server doesn't answer in time, because it isn't running; it does what
        was asked once it goes on"""
        if self.broken:
            return
        k = self.cl[c]
        todo = []
        try:
            os.kill(self.srv.p.pid, signal.SIGSTOP)
            for _ in range(1000):
                with open("/proc/%d/stat" % self.srv.p.pid) as f:
                    if f.read().rsplit(")", 1)[1].split()[0] in "Tt":
                        break
                time.sleep(.001)
            try:
                for op, a in items:
                    try:
                        if self.libcall(Plan(k), op, a) is None:
                            continue
                    except Need as x:
                        rc, w = k.cmd(str(x))
                    if rc >= 0:
                        raise Died("a call to a server that doesn't run returned %d" % rc)
                    todo.append((op, a, rc))
            finally:
                os.kill(self.srv.p.pid, signal.SIGCONT)
            # the late answers may be anywhere now; wait until they have arrived
            self.fence("Z")
            time.sleep(self.rnd.choice([0, 0, .02]))
            for op, a, rc in todo:      # what wasn't lost was refused without asking
                st = {"c": c, "op": {"write": "lwrite", "read": "lread", "atomic": "latomic", "add": "ladd"}.get(op, op), "a": a, "o": 0, "ok": False, "e": rc, "v": [], "n": [],
                      "inv": 0, "rsp": 0, "lost": rc == -14}
                self.steps.append(st)
                self.blocks.append({"th": [[st]], "evs": []})
        except Died as x:
            self.fail(c, "stopped", {}, str(x))

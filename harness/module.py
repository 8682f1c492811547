"""Modules of OpenDAX as programs of their own, next to a tag server.  What a
module does as a client goes into the trace as the client "deaf": nobody looks
at the notifications it gets."""
from world import *

MODTAG = 78


class Program:
    """a module that is running"""
    def __init__(self, w, exe, name, conf, args=(), ready=True):
        self.w, self.name = w, name
        d = os.path.join(w.srv.dir, name)
        os.makedirs(d, exist_ok=True)
        self.conf = os.path.join(d, name + ".conf")
        with open(self.conf, "w") as f:
            f.write(conf)
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=97:max_malloc_fill_size=65536:malloc_fill_byte=189:max_free_fill_size=4096:"
                               "free_fill_byte=205:log_path=" + os.path.join(w.srv.dir, "san"))
        self.log = open(os.path.join(d, "log"), "ab")
        self.z = Conn(w.srv)        # to look at things, not in the trace
        self.p = subprocess.Popen([exe, "--server", "LOCAL", "-U", w.srv.sock, "--msgtimeout", "10000", "-C", self.conf] + list(args),
                                  cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, preexec_fn=with_parent)
        self.tag = None
        if ready:
            self.wait_for(self.running)

    def ask(self, op, a):
        cmd, p = request(op, a)
        ok, e, b = self.z.call(cmd, p)
        return answer(op, b)[1] if ok else None

    def find(self, name):
        return self.ask("getn", {"name": name})

    def peek(self, idx, off, size):
        return self.ask("read", {"idx": idx, "off": off, "size": size})

    def why(self, what):
        time.sleep(.1)
        with open(self.log.name, errors="replace") as f:
            said = f.read()[-300:]
        return "%s: %s (%s) %s %s" % (what, self.name, self.p.poll(), self.w.srv.report(), "" if self.alive() else said)

    def wait_for(self, cond, timeout=30):
        end = time.monotonic() + timeout
        while time.monotonic() < end:
            if cond():
                return
            if not self.alive():
                raise Died(self.why("module ended"))
            time.sleep(.01)
        raise Died(self.why("module not ready"))

    def running(self):
        if self.tag is None:
            last = self.peek(6, 0, 33)
            nm = bytes(last).split(b"\0")[0].decode("latin-1")
            if self.name not in nm:
                return False
            self.tag = self.find(nm)
        d = self.peek(self.tag["idx"], 0, MODTAG)
        return bool(d[12] & 1)

    def alive(self):
        return self.p.poll() is None

    def joined(self, c="deaf"):
        """the steps a module takes to get going"""
        w = self.w
        d = self.peek(self.tag["idx"], 0, MODTAG)
        w.rec(c, "connect", {}, 0, True, 0, [], [])
        w.rec(c, "register", {"name": self.name, "chars": chars(self.name), "excluded": False},
              {"has": True, "idx": self.tag["idx"], "name": self.tag["name"], "chars": chars(self.tag["name"]),
               "data": d[:12] + [0] * 66, "timeok": True}, True, 0, [], [])

    def added(self, name, t, count, c="deaf"):
        """a tag the module made; returns its index"""
        v = self.find(name)
        i = v["idx"] if v else -1
        self.w.rec(c, "add", {"name": name, "chars": chars(name), "t": T(t) if isinstance(t, str) else t, "count": count,
                              "attr": dict(NOATTR)}, i, True, 0, i, [])
        return i

    def is_running(self, c="deaf"):
        self.w.rec(c, "mwrite", {"idx": self.tag["idx"], "off": 12, "data": [1], "mask": [1]}, 0, True, 0, [], [])

    def end(self, c="deaf", sig=signal.SIGKILL):
        """the module goes away"""
        self.p.send_signal(sig)
        try:
            self.p.wait(15)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        end = time.monotonic() + 15
        while self.ask("geti", {"idx": self.tag["idx"]}) is not None and time.monotonic() < end:
            time.sleep(.01)
        self.w.rec(c, "disconnect", {}, 0, True, 0, [], self.w.collect())


class Modbus(Program):
    """the Modbus module as a server.  ports: lists of units {unit, hold, input, coil, disc: (name, size),
    rcb, wcb: (lo, hi, code, name of log tag or None)}"""
    def __init__(self, w, exe, ports, logs=None, first=None):
        self.tcp = [free_port() for _ in ports]
        logs = logs or {}
        conf = ""
        for k, units in enumerate(ports):
            conf += 'p = {name="p%d", enable=true, type="SERVER", protocol="TCP", ipaddress="127.0.0.1", bindport=%d, socket="TCP"}\n' % (k, self.tcp[k])
            conf += "id = add_port(p)\n"
            for u in units:
                for key, kind in (("disc", "DISCRETE"), ("coil", "COIL"), ("input", "INPUT"), ("hold", "HOLDING")):
                    if key in u:
                        conf += 'add_register(id, %d, "%s", %d, %s)\n' % (u["unit"], u[key][0], u[key][1], kind)
                for key, f in (("rcb", "add_read_callback"), ("wcb", "add_write_callback")):
                    if key in u:
                        lo, hi, code, log = u[key]
                        conf += "%s(id, %d, function(node, fc, reg, count)\n" % (f, u["unit"])
                        if log:
                            conf += '  tag_write("%s", {node, fc, reg, count})\n' % log
                        conf += "  if reg >= %d and reg <= %d then return %d end\n  return 0\nend)\n" % (lo, hi, code)
        Program.__init__(self, w, exe, "modbus", conf)
        self.joined()
        out = []
        for units in ports:
            us = []
            for u in sorted(units, key=lambda u: u["unit"]):
                x = {"unit": u["unit"]}
                for key, t in (("hold", "UINT"), ("input", "UINT"), ("coil", "BOOL"), ("disc", "BOOL")):
                    if key in u:
                        v = self.find(u[key][0])
                        if v is not None and (v["t"] != T(t) or v["own"]):
                            x[key] = {"idx": -1, "size": 0}         # somebody else's
                        else:
                            x[key] = {"idx": self.added(u[key][0], t, u[key][1]), "size": u[key][1]}
                    else:
                        x[key] = {"idx": -1, "size": 0}
                for key in ("rcb", "wcb"):
                    lo, hi, code, log = u.get(key, (0, -1, 0, None))
                    x[key] = {"lo": lo, "hi": hi, "code": code, "log": logs[log] if log else -1}
                us.append(x)
            out.append(us)
        self.is_running()
        self.ports = out
        w.rec("deaf", "mbconf", {"ports": out}, 0, True, 0, [], w.collect())

    def idx(self, port, unit, key):
        return next(u for u in self.ports[port] if u["unit"] == unit)[key]["idx"]

    def open(self, port=0):
        end = time.monotonic() + 20
        while True:
            try:
                s = socket.create_connection(("127.0.0.1", self.tcp[port]), timeout=20)
                s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                return MbConn(self, port, s)
            except OSError as x:
                if time.monotonic() > end:
                    raise Died(self.why("can't connect"))
                if not self.alive():
                    raise Died(self.why("module ended"))
                time.sleep(.02)

    def silent(self, port, pdu):
        return len(pdu) < 2 or not any(u["unit"] in (0, pdu[0]) for u in self.ports[port])


def frame(pdu, tid=1):
    return [tid >> 8 & 255, tid & 255, 0, 0, len(pdu) >> 8, len(pdu) & 255] + list(pdu)


class MbConn:
    def __init__(self, m, port, s):
        self.m, self.port, self.s, self.w, self.slow = m, port, s, m.w, False

    def send(self, fr, parts=None):
        """in pieces; a second without anything makes the server forget what it has got"""
        cut = [0] + sorted(parts or []) + [len(fr)]
        last = None
        for a, b in zip(cut, cut[1:]):
            if a == b:
                continue
            if last is not None:
                time.sleep(.03)
                if time.monotonic() - last > .6:
                    self.slow = True
            last = time.monotonic()
            try:
                self.s.sendall(bytes(fr[a:b]))
            except OSError:
                return

    def take(self, timeout):
        """an answer, [] if there is none, [-1] if the connection is closed"""
        buf = b""
        self.s.settimeout(timeout)
        try:
            while len(buf) < 6 or len(buf) < 6 + buf[4] * 256 + buf[5]:
                d = self.s.recv(600)
                if not d:
                    return list(buf) + [-1]
                buf += d
                self.s.settimeout(10)
        except socket.timeout:
            pass
        except OSError:
            return list(buf) + [-1]
        return list(buf)

    def ask(self, pdu, parts=None, tid=None, want=None, fr=None):
        """one request and its answer as a step of the trace"""
        w = self.w
        if w.broken or w.down:
            return None
        fr = fr or frame(pdu, w.rnd.randrange(65536) if tid is None else tid)
        self.send(fr, parts)
        return self.finish(fr)

    def finish(self, fr):
        w = self.w
        quiet = len(fr) <= 260 and self.m.silent(self.port, fr[6:])
        v = self.take(.15 if quiet else 15)
        if self.slow:
            w.ended = w.down = True          # nothing can be said about this one
            return None
        a = {"port": self.port + 1, "frame": fr}
        try:
            if not self.m.alive():
                raise Died(self.m.why("module ended"))
            if not quiet and len(v) < 9 and v != [-1]:
                raise Died("no answer (%s)" % v)
            w.fence()
            w.rec("deaf", "mb", a, 0, True, 0, v, w.collect())
        except Died as x:
            w.fail("deaf", "mb", a, str(x))
            return None
        return v

    def close(self, rst=False):
        if rst:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()

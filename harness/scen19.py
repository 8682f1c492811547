"""Values and text (C19)."""
import calendar, fractions
from gen import *
from lib import *
from scen05 import lib, clients

INTS = ["BYTE", "SINT", "WORD", "INT", "UINT", "DWORD", "DINT", "UDINT", "LWORD", "LINT", "ULINT"]
SGN = {"SINT", "INT", "DINT", "LINT", "CHAR", "TIME"}


def limits(t):
    n = 8 * SIZES[t]
    return (-(1 << n - 1), (1 << n - 1) - 1) if t in SGN else (0, (1 << n) - 1)


class Conv:
    def __init__(self, w, c="A"):
        self.w, self.r, self.c = w, w.rnd, c

    def block(self, t, elem):
        """elem somewhere among others: (buf, index)"""
        r = self.r
        if t == "BOOL":
            n = r.randint(1, 4)
            i = r.randrange(8 * n)
            b = [r.randrange(256) for _ in range(n)]
            b[i // 8] = b[i // 8] & ~(1 << i % 8) | (elem << i % 8)
            return b, i
        n = r.choice([1, 1, 2, 3, 5])
        i = r.randrange(n)
        b = [r.choice([0, 255, r.randrange(256)]) for _ in range(n * len(elem))]
        b[i * len(elem):(i + 1) * len(elem)] = elem
        return b, i

    def le(self, t, v):
        return list((v & (1 << 8 * SIZES[t]) - 1).to_bytes(SIZES[t], "little"))

    def v2s(self, t, elem, size=64):
        b, i = self.block(t, elem)
        self.w.do(self.c, "v2s", {"t": T(t), "i": i, "size": size, "buf": b})

    def back(self, t, elem):
        b, i = self.block(t, elem)
        self.w.do(self.c, "back", {"t": T(t), "i": i, "buf": b})

    def s2v(self, t, text):
        r = self.r
        b, i = self.block(t, r.randrange(2) if t == "BOOL" else [r.randrange(256) for _ in range(SIZES[t])])
        m = r.choice([[], [0] * len(b), [r.randrange(256) for _ in b]])
        if isinstance(text, str):
            text = list(text.encode())
        self.w.do(self.c, "s2v", {"t": T(t), "i": i, "text": text, "buf": b, "mask": m})

    def both(self, t, elem):
        self.v2s(t, elem)
        self.back(t, elem)

    def int(self, t):
        """a value near something interesting"""
        lo, hi = limits(t)
        r = self.r
        n = r.choice([lo, hi, 0, 1 << r.randrange(8 * SIZES[t]), -(1 << r.randrange(8 * SIZES[t])), 10 ** r.randrange(20), r.randint(lo, hi),
                      r.randrange(1000)]) + r.choice([0, 0, 1, -1, 2, -2])
        return min(hi, max(lo, n))

    def number(self, t):
        """any number, not necessarily one the type can hold"""
        lo, hi = limits(t) if t != "BOOL" else (0, 1)
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return self.int(t) if t != "BOOL" else r.randrange(2)
        if k == 1:
            return r.choice([lo, hi]) + r.randint(-3, 3)
        if k == 2:
            return r.choice([1, -1]) * (1 << r.choice([7, 8, 15, 16, 31, 32, 33, 62, 63, 64, 65, 66, 80])) + r.randint(-1, 1)
        if k == 3:
            return r.choice([1, -1]) * r.randrange(10 ** r.randint(1, 25))
        if k == 4:
            return r.choice([lo, hi]) * r.choice([2, 10, 256, 65536, 1 << 32])
        return r.randint(-300, 300)

    def written(self, n):
        r = self.r
        k = r.randrange(8)
        s = "-" if n < 0 else r.choice(["", "", "", "+"])
        m = abs(n)
        body = "%d" % m if k < 5 else r.choice(["0x%x", "0X%X", "0x%X", "0x00%x"]) % m if k < 7 else ("0%o" % m)
        return r.choice(["", "", "", " ", "\t ", "\n"]) + s + body


@lib
def c19_ints(w):
    """integers: values to text and back, text with any number to values"""
    clients(w, "A")
    k = Conv(w)
    for _ in range(110):
        t = w.rnd.choice(INTS)
        k.both(t, k.le(t, k.int(t)))
        t = w.rnd.choice(INTS + ["CHAR", "TIME"])
        n = k.number(t)
        x = k.written(n)
        if t == "CHAR" and len(x) < 2:
            continue
        if n == 0 and "-" in x:
            continue
        k.s2v(t, x)


@lib
def c19_bytes(w):
    """every value of the small types, and bits"""
    clients(w, "A")
    k = Conv(w)
    for v in range(256):
        for t in ("BYTE", "SINT", "CHAR"):
            k.both(t, [v])
    for v in range(256):
        k.s2v("CHAR", [v] if v else [])
    for _ in range(60):
        k.both("BOOL", w.rnd.randrange(2))
        n = k.number("BOOL")
        k.s2v("BOOL", k.written(n))
        t = w.rnd.choice(["SINT", "BYTE", "CHAR"])
        k.s2v(t, "%4d" % w.rnd.randint(-400, 400))


@lib
def c19_words(w):
    """all values of a 16 bit type, a sixteenth of them at a time"""
    clients(w, "A")
    k = Conv(w)
    j = w.seed % 48
    t = ["INT", "UINT", "WORD"][j // 16]
    for v in range(j % 16, 65536, 16):
        k.back(t, k.le(t, v))
        if v % 5 == 0:
            k.v2s(t, k.le(t, v))
            k.s2v(t, "%d" % (v - 32768 if t == "INT" else v))


def real(x):
    return list(struct.pack("<f", x))


def lreal(x):
    return list(struct.pack("<d", x))


@lib
def c19_floats(w):
    """floating point values"""
    clients(w, "A")
    k = Conv(w)
    r = w.rnd
    for _ in range(70):
        t, fmt, mb, eb = r.choice([("REAL", "<I", 23, 8), ("LREAL", "<Q", 52, 11)])
        ex = r.choice([0, 1, 2, (1 << eb) - 2, (1 << eb - 1) - 1, (1 << eb - 1) - 1 + r.randint(-70, 70), r.randrange((1 << eb) - 1)])
        ma = r.choice([0, 1, (1 << mb) - 1, r.getrandbits(mb), r.getrandbits(mb), r.getrandbits(mb), 1 << r.randrange(mb)])
        if r.random() < .02:
            ex, ma = (1 << eb) - 1, 0       # infinity
        e = list(struct.pack(fmt, r.getrandbits(1) << mb + eb | ex << mb | ma))
        if ex != (1 << eb) - 1 or r.random() < .5:
            k.v2s(t, e)
        k.back(t, e)
    for _ in range(40):
        t = r.choice(["REAL", "LREAL"])
        top = 36 if t == "REAL" else 300
        s = r.choice(["", "-", "+"])
        f = r.randrange(5)
        if f == 0:
            x = "%d" % r.randrange(10 ** r.randint(1, 20))
        elif f == 1:
            x = "%d.%0*d" % (r.randrange(1000), r.randint(1, 12), r.randrange(10))
        elif f == 2:
            x = "%d.%de%d" % (r.randrange(10), r.randrange(10 ** r.randint(1, 19)), r.randint(-top, top))
        elif f == 3:
            x = ".%dE%+d" % (r.randrange(10 ** 6), r.randint(-20, 20))
        else:                       # halfway between two values, or just beside it
            if t == "REAL":
                b = r.randrange(1 << 24)
                a, bb = struct.unpack("<f", struct.pack("<I", 0x3f800000 | b & 0x7fffff))[0], struct.unpack("<f", struct.pack("<I", (0x3f800000 | b & 0x7fffff) + 1))[0]
            else:
                b = r.getrandbits(52)
                a, bb = struct.unpack("<d", struct.pack("<Q", 0x3ff << 52 | b))[0], struct.unpack("<d", struct.pack("<Q", (0x3ff << 52 | b) + 1))[0]
            m = (fractions.Fraction(a) + fractions.Fraction(bb)) / 2
            d = 60
            n = m.numerator * 10 ** d // m.denominator + r.choice([0, 0, 1, -1])
            x = "%d.%0*d" % (n // 10 ** d, d, n % 10 ** d)
            if r.random() < .5:
                x = x.rstrip("0") or "0"
                x += "0" if x.endswith(".") else ""
        k.s2v(t, r.choice(["", "", " "]) + s + x)


def ms(y, mo, d, h, mi, s, m):
    days = (__import__("datetime").date(y, mo, d) - __import__("datetime").date(1970, 1, 1)).days
    return (days * 86400 + h * 3600 + mi * 60 + s) * 1000 + m


@lib
def c19_times(w):
    """dates and times"""
    clients(w, "A")
    k = Conv(w)
    r = w.rnd
    for _ in range(110):
        y = r.choice([1, 4, 100, 400, 1600, 1900, 1968, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2024, 2038, 2100, 9999, r.randint(1, 9999), r.randint(1900, 2100)])
        leap = calendar.isleap(y)
        mo = r.choice([1, 2, 2, 3, 12, r.randint(1, 12)])
        top = [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]
        d = r.choice([1, top, top, r.randint(1, top)])
        h, mi, s, m = r.choice([(0, 0, 0, 0), (23, 59, 59, 999), (r.randrange(24), r.randrange(60), r.randrange(60), r.randrange(1000)),
                                (r.randrange(24), 0, 0, r.choice([0, 1, 9, 10, 99, 100, 999]))])
        v = ms(y, mo, d, h, mi, s, m) + r.choice([0, 0, 0, 1, -1, 1000, -1000, -999])
        k.both("TIME", k.le("TIME", v))
        x = "%04d-%02d-%02dT%02d:%02d:%02d" % (y, mo, d, h, mi, s)
        k.s2v("TIME", x if r.random() < .3 else x + ".%03d" % m)
        if r.random() < .3:         # no such date
            v = r.choice([k.int("TIME"), ms(9999, 12, 31, 23, 59, 59, 999) + r.randint(-2, 2), -62167219200000 + r.randint(-2, 2), r.randint(-1 << 63, (1 << 63) - 1),
                          r.randint(-1 << 50, 1 << 50)])
            k.both("TIME", k.le("TIME", v))


@lib
def c19_short(w):
    """texts that there is no room for"""
    clients(w, "A")
    k = Conv(w)
    r = w.rnd
    for _ in range(150):
        t = r.choice(["BOOL", "CHAR"] + INTS + ["REAL", "LREAL", "TIME", "TIME"])
        if t == "BOOL":
            e = r.randrange(2)
        elif t == "REAL":
            e = real(r.uniform(-1e9, 1e9))
        elif t == "LREAL":
            e = lreal(r.uniform(-1e99, 1e99))
        elif t == "TIME":
            e = k.le(t, ms(r.randint(1900, 2100), 5, 6, 7, 8, 9, r.randrange(1000)))
        else:
            e = k.le(t, k.int(t))
        k.v2s(t, e, r.choice([1, 2, 3, 5, 8, 10, 19, 20, 21, 22, 23, 24, 25, 30]))


@lib
def c19_names(w):
    """names of types and events"""
    clients(w, "A", "B")
    g = Gen(w, ("A", "B"))
    r = g.r
    cases = lambda s: "".join(r.choice([c.upper(), c.lower()]) for c in s)
    for _ in range(6):
        g.op_cdt()
    for c in "AB":
        for b in CODES:
            w.do(c, "ltypename", {"t": T(b)})
            for nm in (b, b.lower(), cases(b)):
                w.do(c, "ltypenumber", {"name": nm, "low": nm.lower()})
        for n in sorted(g.types) + [0, 1, 90]:
            w.do(c, "ltypename", {"t": T("CDT", n)})
        for n, x in sorted(g.types.items()):
            for nm in (x["name"], cases(x["name"])):
                w.do(c, "ltypenumber", {"name": nm, "low": nm.lower()})
        for nm in ["BOO", "BOOLE", "", "nosuch", "INT ", "_tag_desc", "_MODULE"]:
            w.do(c, "ltypenumber", {"name": nm, "low": nm.lower()})
    for n in [0, 1] + list(range(2, 14)) + [-1, 255, 0x80000002 - (1 << 32)]:
        w.do("A", "ev2s", {"n": n})
    for nm in ["WRITE", "CHANGE", "SET", "RESET", "EQUAL", "GREATER", "LESS", "DEADBAND", "DELETED", "READ", "", "WRIT", "WRITES", "NONE"]:
        for x in (nm, nm.lower(), cases(nm)):
            w.do("A", "s2ev", {"name": x, "up": x.upper()})


def c19_threads(w):
    """several threads convert at the same time"""
    w.join("A")
    w.process(w.cl["A"]).put("jitter %d 50 100" % w.rnd.randrange(1 << 30))
    k = Conv(w)
    r = w.rnd
    for _ in range(12):
        plan = []
        for j in range(3):
            items = []
            for _ in range(6):
                t = r.choice(["TIME", "TIME", "REAL", "LREAL", "INT", "ULINT"])
                e = real(r.uniform(-1e9, 1e9)) if t == "REAL" else lreal(r.uniform(-1e99, 1e99)) if t == "LREAL" else \
                    k.le(t, ms(r.randint(1900, 2100), r.randint(1, 12), 7, 8, 9, r.randrange(60), r.randrange(1000))) if t == "TIME" else k.le(t, k.int(t))
                b, i = k.block(t, e)
                items.append(("v2s", {"t": T(t), "i": i, "size": 64, "buf": b}))
                if t in ("INT", "TIME"):
                    items.append(("s2v", {"t": T(t), "i": i, "text": list(b"%d" % k.number(t)) if t == "INT" else list(b"2024-%02d-%02dT01:02:03.004" % (r.randint(1, 12), r.randint(1, 28))),
                                          "buf": b, "mask": []}))
            plan.append(("A", items))
        w.batch(plan)


c19_threads.conc = c19_threads.lib = True

C19 = [(c19_ints, 16, 160), (c19_bytes, 2, 8), (c19_words, 6, 96), (c19_floats, 16, 200), (c19_times, 12, 120), (c19_short, 3, 20), (c19_names, 3, 20), (c19_threads, 4, 40)]

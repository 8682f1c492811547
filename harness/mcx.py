"""Behaviours of the specification, found by TLC (DaxMC), carried out on the real server."""
import re
import tlc
from common import *
from world import *

# property -> (profile, depth and behaviours replayed: quick, thorough)
PROFILES = {"C01": ("data", 5, 900, 8, 60000), "C02": ("tags", 4, 900, 6, 60000), "C03": ("tags", 4, 900, 6, 60000), "C04": ("types", 5, 900, 8, 60000),
            "C06": ("events", 3, 1200, 5, 60000), "C07": ("delivery", 4, 900, 6, 60000), "C08": ("maps", 4, 900, 6, 60000), "C09": ("queues", 5, 900, 7, 60000),
            "C10": ("groups", 4, 900, 6, 60000), "C11": ("atomic", 3, 1200, 5, 60000), "C12": ("overrides", 5, 900, 7, 60000), "C13": ("protect", 4, 900, 6, 60000),
            "C14": ("modules", 4, 900, 6, 60000), "C15": ("retain", 4, 250, 5, 4000)}


def explore(profile, depth, timeout=850):
    """-> prologue, alphabet, runs (each a list of (op, only-looking?)), states, transitions"""
    rc, out = tlc.tlc("DaxMC.tla", "DaxMC.cfg", {"PROFILE": profile, "DEPTH": str(depth), "EMIT": "1"}, timeout=timeout, heap="12g")
    if rc != 0:
        m = re.search(r"(?s)(Error:|<< \"broken\").{0,2000}", out)
        raise CheckError("DaxMC %s: %s" % (profile, m.group(0) if m else out[-2000:]))
    ops, same, edges = None, {}, set()
    for l in out.splitlines():
        if l.startswith('<<"'):
            h = tuple(int(x) for x in re.findall(r"\d+", l))
            if l.startswith('<<"SAME'):
                same.setdefault(h[:-1], set()).add(h[-1])
            else:
                edges.add(h)
        elif l.startswith('"OPS '):
            ops = json.loads(json.loads(l)[4:])
    # long tuples are printed over several lines
    if len(edges) + sum(map(len, same.values())) == 0 or ops is None:
        raise CheckError("DaxMC %s: no behaviours" % profile)
    inner = {h[:-1] for h in edges} | set(same)
    leaves = sorted(h for h in edges if h not in inner)
    if not leaves:
        leaves = [()]
    seen, runs = set(), []
    for h in leaves:
        run = []
        for i in range(len(h) + 1):
            p = h[:i]
            if p not in seen:
                seen.add(p)
                run += sorted(same.get(p, ()))
            if i < len(h):
                run.append(h[i])
        runs.append(run)
    st = tlc.stats(out)
    return ops["prologue"], ops["alphabet"], runs, st[1], st[0]


def put(a, o, env):
    """the request o.a with the slots o.r filled in"""
    a = json.loads(json.dumps(a))
    r, op = o["r"], o["op"]
    if not r:
        return a
    g = [env.get(x, -1) for x in r]
    if op in ("evadd", "atomic"):
        a["h"]["idx"] = g[0]
    elif op in ("evdel", "evopt", "mapdel", "mapget"):
        a["idx"], a["id"] = g[0], g[1]
    elif op == "mapadd":
        a["src"]["idx"], a["dst"]["idx"] = g[0], g[1]
    elif op == "grpadd":
        for k in range(len(g)):
            a["hs"][k]["idx"] = g[k]
    elif op in ("grpread", "grpwrite", "grpdel"):
        a["id"] = g[0]
    elif op == "add":
        a["t"] = T("CDT", g[0])
    else:
        a["idx"] = g[0]
    return a


def rename(a, sfx):
    """types can't be removed again: each run has its own names for them"""
    def nm(x):
        return x + sfx
    if "text" in a or "members" in a:
        a["name"], a["low"] = nm(a["name"]), nm(a["low"])
        a["chars"] = chars(a["name"])
        for m in a["members"]:
            if m["tlow"].upper() not in CODES:
                m["tlow"] = nm(m["tlow"])
    elif set(a) == {"low"}:
        a["low"] = nm(a["low"])
    return a


def one(w, o, env, sfx):
    c, op = o["c"], o["op"]
    if op == "restart":
        look = w.restart()
        env.clear()
        if look:
            by = {t["name"]: t["idx"] for t in look["tags"]}
            env.update({s: by.get(n, -1) for s, n in (("x", "n1"), ("y", "n2"), ("z", "n3"))})
        for k in "ABZ":
            w.connect(k)
        return
    if op == "connect":
        if c not in w.cl:
            w.connect(c)
        return
    if c not in w.cl:
        return
    if op == "disconnect":
        w.leave(c)
        return
    if op == "register":
        if w.register(c, o["a"]["name"]) and o["out"]:
            env[o["out"]] = w.modtag
        return
    a = rename(put(o["a"], o, env), sfx)
    if op == "cdtnew":
        a["text"] = a["name"] + "".join(":%s,%s,%d" % (m["name"], m["tlow"].upper() if m["tlow"].upper() in CODES else m["tlow"], m["count"]) for m in a["members"])
    if op == "cdtn":
        a["name"] = a["low"]
    ok, v = w.do(c, op, a)
    if ok and o["out"]:
        env[o["out"]] = v["n"] if op == "cdtnew" else v


def behaviours(w, prologue, alphabet, runs, tag):
    """several runs on one server, each starting without tags and clients"""
    w.connect("Z")
    w.types = {}
    for n, run in enumerate(runs):
        sfx = "_%s%d" % (tag, n)
        env = {}
        for o in prologue:
            one(w, o, env, sfx)
        for k in run:
            if w.broken:
                return
            one(w, alphabet[k - 1], env, sfx)
        if w.broken:
            return
        # look at everything it left, and remove it
        w.status("Z")
        for c in [x for x in w.cl if x != "Z"]:
            w.leave(c)
        d = w.read("Z", 1, 0, 4)
        last = int.from_bytes(bytes(d), "little") if d else 0
        first = getattr(w, "mcfirst", 11)
        if last < first and not any(alphabet[k - 1]["op"] == "restart" for k in run):
            continue
        if any(alphabet[k - 1]["op"] == "restart" for k in run):
            first = 11
        for i in range(first, last + 1):
            ok, v = w.geti("Z", i)
            if w.broken:
                return
            if not ok:
                continue
            z = w.bytes_of(v["t"], v["count"])
            if z is not None and not v["t"]["q"]:
                w.read("Z", i, 0, z)
            if v["t"]["q"]:
                while w.read("Z", i, 0, z) is not None and not w.broken:
                    pass
            w.delete("Z", i)
        w.mcfirst = last + 1
    w.dump("Z", deep=False)

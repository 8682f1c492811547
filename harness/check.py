"""check.py PROPERTY quick|thorough"""
import json, multiprocessing, os, random, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import tlc, scen, lib, luaapi, conc, mcx
from world import World
from wire import Died

EXE = {}
MODULES = {"daxmodbus": "src/modules/modbus/daxmodbus", "daxlua": "src/modules/daxlua/daxlua", "daxc": "src/modules/daxc/daxc"}
MC = {}


def DEAD(why):
    return {"c": "-", "op": "noanswer", "a": {"why": why}, "o": 0, "ok": False, "e": 0, "v": [], "n": []}


def judge(traces, verbose=False, **k):
    """every trace by the module that understands it"""
    seq = [t for t in traces if "blocks" not in t]
    par = [t for t in traces if "blocks" in t]
    v1, s1 = tlc.judge(seq, **k)
    v2, s2 = tlc.judge_conc(par, verbose=verbose, **k)
    by = {id(t): v for t, v in zip(seq + par, v1 + v2)}
    return [by[id(t)] for t in traces], (s1[0] + s2[0], s1[1] + s2[1])


def run_one(job):
    """one scenario on a fresh server; returns its trace"""
    prop, k, seed = job
    if k == "mc":
        fn = lambda w: mcx.behaviours(w, MC["prologue"], MC["alphabet"], MC["chunks"][seed], str(seed) + "x")
        fn.__name__ = "model_" + MC["profile"]
    else:
        fn = getattr(scen, prop)[k][0]
    w = None
    label = "%s/%s/%d" % (prop, fn.__name__, seed)
    try:
        flavor = getattr(fn, "flavor", "asan")
        try:
            opts = fn.options(seed) if hasattr(fn, "options") else {}
            if getattr(fn, "conc", False):
                w = conc.ConcWorld(EXE[flavor], label, seed, drv=EXE["drv-" + flavor], **opts)
            elif getattr(fn, "lua", False):
                w = luaapi.LuaWorld(EXE[flavor], label, seed, drv=EXE["lua-" + flavor], **opts)
            elif getattr(fn, "lib", False):
                w = lib.LibWorld(EXE[flavor], label, seed, drv=EXE["drv-" + flavor], **opts)
            else:
                w = World(EXE[flavor], label, seed, **opts)
        except Died as x:
            return {"id": label, "steps": [DEAD(str(x))]}
        fn(w)
        if not w.broken and not w.ended and not w.srv.alive():
            w.fail("-", "end", {}, "server ended")
        if not w.broken and not w.ended and w.srv.report():
            w.fail("-", "end", {}, "report")
    except Exception as x:
        if w is None or not w.broken:
            return {"id": label, "steps": [], "error": traceback.format_exc()}
    finally:
        if w is not None:
            w.end()
    return w.trace()


def chunks(traces, limit=200000):
    cur, n = [], 0
    for t in traces:
        if cur and n + tlc.size(t) > limit:
            yield cur
            cur, n = [], 0
        cur.append(t)
        n += tlc.size(t)
    if cur:
        yield cur


def steps_of(t):
    return [s for b in t["blocks"] for th in b["th"] for s in th] if "blocks" in t else t["steps"]


class Result:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.states = self.transitions = self.traces = self.steps = 0
        self.ops, self.samples, self.violations, self.notes = {}, [], [], {}
        self.coverage = {}
        self.assumptions = []

    def note_traces(self, traces):
        self.traces += len(traces)
        for t in traces:
            self.steps += tlc.size(t)
            for s in steps_of(t):
                k = s["op"] + ("" if s["ok"] else " refused")
                self.ops[k] = self.ops.get(k, 0) + 1
        if len(self.samples) < 3:
            for t in traces[:2]:
                self.samples.append({"trace": t["id"], "steps": tlc.size(t), "first": [
                    {k: s[k] for k in ("c", "op", "ok")} for s in steps_of(t)[:6]]})


def model_jobs(res, prop, tier):
    """behaviours of the specification itself: checked by TLC, to be repeated by the server"""
    if prop not in mcx.PROFILES:
        return []
    profile, d1, n1, d2, n2 = mcx.PROFILES[prop]
    depth, n = (d1, n1) if tier == "quick" else (d2, n2)
    t0 = time.time()
    MC["profile"] = profile
    MC["prologue"], MC["alphabet"], runs, states, transitions = mcx.explore(profile, depth, 850 if tier == "quick" else 6000)
    total = len(runs)
    random.Random(SEED).shuffle(runs)
    runs = runs[:n]
    per = 10 if prop == "C15" else 60
    MC["chunks"] = [runs[i:i + per] for i in range(0, len(runs), per)]
    res.coverage["model"] = {"module": "DaxMC", "profile": profile, "depth": depth, "alphabet": len(MC["alphabet"]), "states": states, "transitions": transitions,
                             "behaviours": total, "behaviours_replayed": len(runs), "seconds": round(time.time() - t0, 1)}
    res.states += states
    res.transitions += transitions
    return [(prop, "mc", i) for i in range(len(MC["chunks"]))]


def server_traces(res, prop, tier, scale=1.0):
    """generate, judge, confirm"""
    for fl in sorted({getattr(x[0], "flavor", "asan") for x in getattr(scen, prop)}):
        EXE[fl] = os.path.join(build(fl, ["tagserver"]), "src/server/tagserver")
        if any(getattr(x[0], "lib", False) for x in getattr(scen, prop)):
            EXE["drv-" + fl] = driver(fl)
        if any(getattr(x[0], "lua", False) for x in getattr(scen, prop)):
            EXE["lua-" + fl] = luadriver(fl)
        for m in sorted({m for x in getattr(scen, prop) for m in getattr(x[0], "modules", ())}):
            EXE[m] = os.path.join(build(fl, [m]), MODULES[m])
    scen.EXE = EXE
    jobs = []
    for k, (fn, q, t) in enumerate(getattr(scen, prop)):
        n = q if tier == "quick" else t
        for j in range(n):
            jobs.append((prop, k, (SEED - 1) * 100000 + j))
    scratch()       # the workers use the same one
    jobs += model_jobs(res, prop, tier)
    with multiprocessing.Pool(8) as pool:
        traces, dead, t0 = [], 0, time.time()
        for t in pool.imap(run_one, jobs, chunksize=1):
            traces.append(t)
            dead += any(s["op"] == "noanswer" for s in steps_of(t)[-1:])
            if dead >= 6 and time.time() - t0 > 60 or time.time() - t0 > (420 if tier == "quick" else 5000):
                res.notes["stopped_early"] = len(traces)
                break
        pool.terminate()
    err = [t for t in traces if "error" in t]
    bad = []
    good = [(j, t) for j, t in zip(jobs, traces) if "error" not in t]
    for ch in chunks([t for _, t in good]):
        verdicts, st = judge(ch)
        res.states += st[1]
        res.transitions += st[0]
        for t, v in zip(ch, verdicts):
            if v is not None:
                bad.append((next(j for j, x in good if x is t), t, v))
    res.note_traces([t for _, t in good])
    confirmed = []
    for job, t, v in bad:       # a history of answers is a proof, whatever happens the next time
        if "blocks" in t and not any(s["op"] == "noanswer" for s in steps_of(t)):
            confirmed.append((t, judge([t], verbose=True)[0][0] or v))
            break
    for job, t, v in bad[:5] if not confirmed else []:
        for _ in range(3):
            t2 = run_one(job)
            if "error" in t2:
                continue
            v2 = judge([t2], verbose=True)[0][0]
            if v2 is not None:
                confirmed.append((t2, v2))
                break
        if confirmed:
            break
    if bad and not confirmed:
        res.notes["unconfirmed_rejections"] = len(bad)
    for t, v in confirmed:
        report(res, t, v)
    if err and not confirmed:
        raise CheckError("scenario failed: %s\n%s" % (err[0]["id"], err[0]["error"]))
    return traces


def report(res, t, v):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s.json" % res.prop)
    what = t.get("blocks") or t["steps"]
    step = what[v[0] - 1] if v[0] <= len(what) else None
    with open(f, "w") as fh:
        json.dump({"property": res.prop, "trace": t["id"], "rejected_step": v[0], "observed": step, "specification_expects": v[1],
                   "steps": what[:v[0]]}, fh, indent=0)
    res.violations.append({"trace": t["id"], "step": v[0], "observed": json.dumps(step)[:600], "expected": str(v[1])[:600], "replay": f})


def finish(res, level="model_checking"):
    ev = {"property": res.prop, "tier": res.tier, "seed": SEED, "level": level,
          "coverage": dict({"states": res.states, "transitions": res.transitions, "traces_validated_against_impl": res.traces,
                            "evaluations": res.steps, "operations": res.ops, "samples": res.samples}, **res.coverage),
          "assumptions": res.assumptions, "wall_s": round(time.time() - res.t0, 1), "violations": len(res.violations)}
    if res.notes:
        ev["coverage"]["notes"] = res.notes
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", res.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in res.violations[:1]:
        print("trace %s step %d\n  observed %s\n  expected %s" % (v["trace"], v["step"], v["observed"], v["expected"]))
        print("VIOLATION property=%s replay=%s" % (res.prop, v["replay"]))
    print("%s %s: %d traces, %d steps, %d states, %.1f s" % (res.prop, res.tier, res.traces, res.steps, res.states, time.time() - res.t0))
    return 1 if res.violations else 0


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    res = Result(prop, tier)
    server_traces(res, prop, tier)
    sys.exit(finish(res))


if __name__ == "__main__":
    try:
        main()
    except CheckError as e:
        print("ERROR", e)
        sys.exit(3)

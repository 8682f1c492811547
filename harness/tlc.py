"""Running TLC."""
import json, os, re, subprocess, threading
from common import *

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def tlc(module, cfg, env=None, workers=8, heap="10g", timeout=800, args=(), stack="512m", outfile=None):
    """returns (exit code, output)"""
    meta = scratch("tlc")
    cmd = ["java", "-Xmx" + heap, "-Xss" + stack, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-nowarning", "-config", cfg] + list(args) + [module]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout.decode("utf-8", "replace")


def stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def size(t):
    return sum(len(th) for b in t["blocks"] for th in b["th"]) if "blocks" in t else len(t["steps"])


def judge_conc(traces, timeout=800, workers=8, verbose=False):
    """the same for histories of overlapping calls: None or (block, what)"""
    if not traces:
        return [], (0, 0)
    d = scratch("traces")
    f = os.path.join(d, "traces.ndjson")
    order = sorted(range(len(traces)), key=lambda k: -size(traces[k]))
    with open(f, "w") as fh:
        for k in order:
            fh.write(json.dumps(traces[k]) + "\n")
    env = {"TRACES": f}
    if verbose:
        env["VERBOSE"] = "1"
    acc, reach, why, bad, st = set(), {}, {}, {}, [0, 0]
    for attempt in range(6):
        rc, out = tlc("DaxConc.tla", "DaxConc.cfg", env, timeout=timeout, workers=workers)
        st = [x + y for x, y in zip(st, stats(out))]
        for l in out.splitlines():
            m = re.match(r'"(ACCEPTED|REACHED|STUCK|NOTICES) (\d+)(?: (\d+))?(?: (.*))?"$', l)
            if m:
                k = order[int(m.group(2)) - 1]
                if m.group(1) == "ACCEPTED":
                    acc.add(k)
                elif m.group(1) == "REACHED":
                    reach[k] = max(reach.get(k, 0), int(m.group(3)))
                else:
                    why.setdefault((k, int(m.group(3))), []).append(m.group(1) + " " + m.group(4).replace('\\"', '"'))
        if rc == 0:
            break
        err = re.search(r"(?s)Error: .{0,1500}", out)
        m = re.findall(r"(?m)^/\\ t = (\d+)$", out)
        n = re.findall(r"(?m)^/\\ i = (\d+)$", out)
        if not m or not n:
            break
        k = order[int(m[-1]) - 1]
        bad[k] = (int(n[-1]), "an answer that can be compared: " + re.sub(r"\s+", " ", err.group(0) if err else "")[:800])
        order = [j for j in order if j not in bad]
        with open(f, "w") as fh:
            for j in order:
                fh.write(json.dumps(traces[j]) + "\n")
        if not order:
            rc = 0
            break
    shutil.rmtree(d, ignore_errors=True)
    if rc != 0:
        err = re.search(r"(?s)Error: .{0,1500}", out)
        raise CheckError("TLC failed (%d) on DaxConc: %s" % (rc, err.group(0) if err else out[-3000:]))
    res = []
    for k in range(len(traces)):
        b = reach.get(k, 0) + 1
        res.append(None if k in acc else bad[k] if k in bad else (b, " / ".join(sorted(why.get((k, b), ["no order of the calls explains their answers"]), key=len)[-4:])))
    return res, st


def judge(traces, module="DaxTrace.tla", cfg="DaxTrace.cfg", timeout=800, workers=8):
    """TLC's verdict on every trace: list of None (accepted) or (step, expected); and the state counts"""
    if not traces:
        return [], (0, 0)
    d = scratch("traces")
    f = os.path.join(d, "traces.ndjson")
    # big ones first, so that the workers end together
    order = sorted(range(len(traces)), key=lambda k: -len(traces[k]["steps"]))
    with open(f, "w") as fh:
        for k in order:
            fh.write(json.dumps(traces[k]) + "\n")
    res, st = {}, [0, 0]
    for attempt in range(6):
        rc, out = tlc(module, cfg, {"TRACES": f}, timeout=timeout, workers=workers)
        st = [x + y for x, y in zip(st, stats(out))]
        for l in out.splitlines():
            m = re.match(r'"(ACCEPTED|REJECTED) (\d+)(?: (\d+) (.*))?"$', l)
            if m:
                k = order[int(m.group(2)) - 1]
                if m.group(1) == "ACCEPTED":
                    res[k] = None          # one branch is enough
                elif k not in res or (res[k] is not None and res[k][0] < int(m.group(3))):
                    res[k] = (int(m.group(3)), m.group(4).replace('\\"', '"'))
        if rc == 0:
            break
        # an answer of a kind that the specification can't even compare: find out which trace, go on without it
        err = re.search(r"(?s)Error: .{0,1500}", out)
        m = re.findall(r"(?m)^/\\ t = (\d+)$", out)
        n = re.findall(r"(?m)^/\\ i = (\d+)$", out)
        if not m or not n:
            break
        k = order[int(m[-1]) - 1]
        res[k] = (int(n[-1]), "an answer that can be compared: " + re.sub(r"\s+", " ", err.group(0) if err else "")[:800])
        with open(f, "w") as fh:
            rest = [j for j in order if j not in res]
            for j in rest:
                fh.write(json.dumps(traces[j]) + "\n")
        order = rest
        if not rest:
            rc = 0
            break
    shutil.rmtree(d, ignore_errors=True)
    if rc != 0 or len(res) != len(traces):
        err = re.search(r"(?s)Error: .{0,1500}", out)
        raise CheckError("TLC failed (%d) on %s: %d of %d traces decided\n%s" % (rc, module, len(res), len(traces), err.group(0) if err else out[-3000:]))
    return [res[k] for k in range(len(traces))], st

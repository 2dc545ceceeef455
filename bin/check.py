#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough - decides one property.

Builds the driver against /repo's working tree, records histories of the real
exchange, and has TLC check every recorded step against the specification.
Exit 0: held; 1: violated (VIOLATION line); 2: the machinery failed.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")  # another tree only while developing the checks
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(VERIF, "bin"))
from plan import PLAN, LEVEL, ASSUME  # noqa: E402

T0 = time.time()
CPUS = max(2, min(8, os.cpu_count() or 8))


class Broken(Exception):
    pass


def note(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def run(cmd, timeout, env=None, cwd=None, shell=False):
    """Runs cmd in a process group of its own, which a timeout ends."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         env=env, cwd=cwd, shell=shell, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out


def build(work):
    cls = os.path.join(work, "classes")
    os.makedirs(cls)
    src = [os.path.join(VERIF, "java", f) for f in sorted(os.listdir(os.path.join(VERIF, "java"))) if f.endswith(".java")]
    rc, out = run(["javac", "-cp", JARS, "-d", cls] + src, 120)
    if rc != 0:
        raise Broken("javac: " + out)
    drv = os.path.join(VERIF, "driver")
    ov = {"Replace": {os.path.join(REPO, "x/verifdrv", f): os.path.join(drv, f)
                      for f in sorted(os.listdir(drv)) if f.endswith(".go")}}
    ovf = os.path.join(work, "overlay.json")
    json.dump(ov, open(ovf, "w"))
    exe = os.path.join(work, "drv.test")
    rc, out = run(["bash", "-c", ". /opt/vp/env.sh && cd " + REPO + " && go test -vet=off -overlay '%s' -c -o '%s' ./x/verifdrv" % (ovf, exe)], 800)
    if rc != 0:
        raise Broken("go build: " + out[-4000:])
    return cls, exe


def drive(work, exe, name, env, timeout):
    """One driver process; returns the log it wrote."""
    log = os.path.join(work, name + ".nd")
    e = dict(os.environ, VERIF_OUT=log, HOME=work, GOMAXPROCS="2", **{k: str(v) for k, v in env.items()})
    rc, out = run([exe, "-test.run", "TestDrive", "-test.v", "-test.timeout", "0"], timeout, env=e, cwd=work)
    if rc != 0 or "LINES" not in out:
        tail = out[-3000:] if out else ""
        raise Broken("driver %s %s: %s" % (name, "ran out of time" if rc is None else "exit %s" % rc, tail))
    return log


def tlc(work, cls, name, module, cfg, env, timeout, extra=(), heap="10g"):
    md = os.path.join(work, "md-" + name)
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", JARS + ":" + cls, "tlc2.TLC",
           "-workers", str(CPUS), "-metadir", md, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    rc, out = run(cmd, timeout, env=dict(os.environ, **env), cwd=os.path.join(VERIF, "spec"))
    shutil.rmtree(md, ignore_errors=True)
    return rc, out


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")
VIOL = re.compile(r'<<\s*"VIOL",\s*"([^"]+)",\s*(\d+),\s*(\d+),\s*"([^"]*)",\s*\{(.*?)\}\s*>>', re.S)


class Result:
    def __init__(self):
        self.states = self.lines = self.runs = 0
        self.events, self.samples, self.model = {}, [], []
        self.viol = []   # (log, line, event, [clauses], replay events)
        self.known = []

    def count(self, log):
        n = 0
        for l in open(log):
            n += 1
            m = re.match(r'\{"e":\{.*?"m":"(\w+)"', l)
            # the event's own field m: events are written with sorted keys
            try:
                ev = m.group(1)
            except AttributeError:
                ev = "?"
            r = re.search(r'\},"r":"(\w+)"', l)
            k = ev + ":" + (r.group(1) if r else "?")
            self.events[k] = self.events.get(k, 0) + 1
        self.lines += n
        self.runs += sum(1 for l in open(log) if '"m":"init"' in l[:400000] and '"fund":' in l[:400000])


def history(log, line):
    """The events of the run that ends in the given line (1-based)."""
    evs = []
    for k, l in enumerate(open(log), 1):
        if k > line:
            break
        e = json.loads(l)["e"]
        if e["m"] == "init":
            evs = []
        evs.append(e)
    return evs


def check_logs(work, cls, prop, name, logs, res, timeout):
    files, props = os.path.join(work, name + ".files"), os.path.join(work, name + ".props")
    json.dump(logs, open(files, "w"))
    json.dump([prop], open(props, "w"))
    rc, out = tlc(work, cls, name, "DexTrace.tla", "DexTrace.cfg", {"VERIF_FILES": files, "VERIF_PROPS": props}, timeout)
    if rc is None:
        raise Broken("TLC ran out of time on " + name)
    m = STATES.findall(out)
    lines = sum(1 for f in logs for _ in open(f))
    if rc != 0:
        # A step that the specification cannot even read is a step it does not
        # allow; anything else is a failure of the machinery.
        s = re.findall(r"/\\ sh = (\d+)\s*\n/\\ i = (\d+)|/\\ i = (\d+)\s*\n/\\ sh = (\d+)", out)
        if "evaluat" in out and s and "OutOfMemory" not in out:
            a = s[-1]
            sh, i = (int(a[0]), int(a[1])) if a[0] else (int(a[3]), int(a[2]))
            res.viol.append((logs[sh - 1], i, "?", ["the step has no meaning in the specification: " +
                                                    " ".join(re.findall(r"^Error: (.*)", out, re.M))[:300]]))
        else:
            raise Broken("TLC: " + out[-3000:])
    elif not m or int(m[-1][1]) != lines:
        raise Broken("TLC checked %s of %d lines: %s" % (m, lines, out[-2000:]))
    if m:
        res.states += int(m[-1][1])
    for p, sh, i, ev, cl in VIOL.findall(out):
        res.viol.append((logs[int(sh) - 1], int(i), ev, sorted(re.findall(r'"([^"]*)"', cl))))
    for f in logs:
        res.count(f)


def load_known():
    try:
        return json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    except FileNotFoundError:
        return []


def is_known(k, prop, ev, clauses, evs, line):
    """A finding lists the event, the clauses and texts that occur in the line."""
    return (k["property"] == prop and k["event"] == ev and set(clauses) <= set(k["clauses"])
            and all(t in line for t in k.get("contains", [])))


def sample(log, n=3):
    out = []
    for k, l in enumerate(open(log), 1):
        j = json.loads(l)
        if j["e"]["m"] not in ("init", "begin") and k % 7 == 0:
            out.append({"line": k, "event": j["e"], "result": j["r"]})
            if len(out) >= n:
                break
    return out


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[prop]
    work = os.path.join(VERIF, "work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    res = Result()
    budget = 720 if tier == "thorough" else 0
    rounds = 0
    try:
        cls, exe = build(work)
        note("built")
        while True:
            logs = []
            jobs = []
            with cf.ThreadPoolExecutor(CPUS) as ex:
                if rounds == 0:
                    for f in sorted(os.listdir(os.path.join(VERIF, "corpus"))):
                        if f.endswith(".nd"):
                            jobs.append(ex.submit(drive, work, exe, "corpus-" + f[:-3],
                                                  {"VERIF_SCRIPT": os.path.join(VERIF, "corpus", f)}, 300))
                for prof, runs in plan["runs"].items():
                    runs = max(1, runs)
                    shards = max(1, min(CPUS, runs // 8))
                    for k in range(shards):
                        n = runs // shards + (1 if k < runs % shards else 0)
                        jobs.append(ex.submit(drive, work, exe, "%s-%d-%d" % (prof, rounds, k),
                                              {"VERIF_PROFILE": prof, "VERIF_SEED": seed + 7919 * rounds,
                                               "VERIF_SHARD": k, "VERIF_RUNS": n,
                                               "VERIF_OBS": plan.get("obs", 0), "VERIF_INV": plan.get("inv", 0)}, 400))
            logs = [j.result() for j in jobs]
            note("recorded", len(logs), "logs")
            check_logs(work, cls, prop, "r%d" % rounds, logs, res, 600)
            note("checked", res.lines, "steps")
            if not res.samples:
                res.samples = sample(logs[-1])
            rounds += 1
            el = time.time() - T0
            if res.viol or el + el / rounds * 1.3 > budget:
                break
            for f in logs:
                os.remove(f)
        rc = report(prop, tier, seed, plan, res, rounds, work)
    except Broken as e:
        print("BROKEN", prop, e)
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def report(prop, tier, seed, plan, res, rounds, work):
    known = load_known()
    bad, seen = [], {}
    for log, i, ev, clauses in res.viol:
        evs = history(log, i)
        line = ""
        for k, l in enumerate(open(log), 1):
            if k == i:
                line = l
        hit = [k for k in known if is_known(k, prop, ev, clauses, evs, line)]
        if hit:
            seen[hit[0]["what"]] = seen.get(hit[0]["what"], 0) + 1
        else:
            bad.append((i, ev, clauses, evs, line))
    for k in known:
        if k["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rep = None
    if bad:
        rd = os.path.join(VERIF, "work", "replay")
        os.makedirs(rd, exist_ok=True)
        i, ev, clauses, evs, line = min(bad, key=lambda b: len(b[3]))
        rep = os.path.join(rd, "%s-%d.nd" % (prop, seed))
        with open(rep, "w") as f:
            for e in evs:
                f.write(json.dumps(e) + "\n")
        j = json.loads(line) if line else {}
        print("event: %s" % json.dumps(j.get("e"))[:1500])
        print("result: %s %s" % (j.get("r"), json.dumps(j.get("x"))[:600]))
        print("broken: %s" % "; ".join(clauses))
        print("(%d steps of the recorded histories break the property; the shortest history has %d events)" % (len(bad), len(evs)))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL,
          "coverage": {"states": res.states, "transitions": res.lines - res.runs,
                       "traces_validated_against_impl": res.runs,
                       "samples": res.samples,
                       "steps_by_event_and_result": dict(sorted(res.events.items())),
                       "profiles": plan["runs"], "rounds": rounds, "exhaustive": False,
                       "model": res.model},
          "assumptions": ASSUME, "wall_s": round(time.time() - T0, 1), "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if bad:
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    note("%s held on %d steps of %d histories" % (prop, res.lines - res.runs, res.runs))
    return 0


if __name__ == "__main__":
    main()

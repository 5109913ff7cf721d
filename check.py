#!/usr/bin/env python3
"""Decides one property on the current tree of /repo.

usage: check.py PROPERTY [--tier quick|thorough] | --setup

The tree is instrumented and built together with the driver, the driver
executes the scenarios of the families of the property, and TLC checks every
recorded behaviour against the TLA+ specification.  The models of the property
are checked by TLC in the same run.  Exit 0: held on everything explored,
1: violated (VIOLATION line), 2: the check itself could not give an answer.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8

from plan import PLAN, FAMILY_MODULE, MODELS  # noqa: E402


# A scenario that ends like this provides none of what the properties promise:
# whichever property is being decided, it was not delivered.
ABNORMAL = {"panic", "a goroutine loops for ever", "a call never returned", "Close never returned",
            "a call whose outcome is known did not return"}


STUCK = re.compile(r"Error: TLC threw an unexpected exception|Error: Evaluating|Error: The error occurred when TLC was evaluating|"
                   r"Error: Attempted|Error: In evaluation|Deadlock reached")
ENVIRONMENT = re.compile(r"OutOfMemory|StackOverflow|No space left|heap space|FileNotFound|IOException")


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def java(mem, *args, env=None, cwd=None, timeout=None):
    cmd = ["java", "-XX:+UseSerialGC", "-Xss16m", "-Xmx" + mem, "-Djava.io.tmpdir=" + cwd, "-cp", CP, "tlc2.TLC", *args]
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=e, text=True, errors="replace",
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise CheckError("TLC did not finish in time")
    return p.returncode, out


def build(scratch):
    p = subprocess.run(["bash", os.path.join(HERE, "build_drv.sh"), REPO, scratch], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0:
        raise CheckError("build failed:\n" + p.stdout[-3000:])
    return os.path.join(scratch, "drv")


VIOL = re.compile(r'^"VIOL (.*)"$')
PAIR = re.compile(r'<<"(C\d+)", "([^"]*)">>')


def parse_tlc(out):
    viols = []
    for line in out.splitlines():
        mm = VIOL.match(line.strip())
        if mm:
            t = mm.group(1).replace('\\"', '"')
            h = re.match(r'<<"([^"]*)", (\d+), ', t)
            viols.append((h.group(1), int(h.group(2)), PAIR.findall(t[h.end():])))
    st = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found", out, re.M)
    gen, dist = (int(x.replace(",", "")) for x in st[-1]) if st else (0, 0)
    return viols, gen, dist, "Model checking completed. No error has been found." in out


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix="vchk-")
        self.lock = threading.Lock()
        self.viol = []      # (trace id, line, reason, file)
        self.other = {}     # violations of other properties seen on the way
        self.stats = {"runs": 0, "traces": 0, "gen": 0, "dist": 0, "points": 0, "switches": 0}
        self.fams = {}
        self.models = []
        self.samples = []
        self.crashes = []

    def shard(self, module, fams, j):
        """Execute a share of the scenarios and check the behaviours."""
        d = os.path.join(self.scratch, f"{module}-{j}")
        os.mkdir(d)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), d)
        trace = os.path.join(d, "t.ndjson")
        want = 0
        for fam, n, extra in fams:
            k = (n - j + JOBS - 1) // JOBS
            if k <= 0:
                continue
            cmd = [self.drv, "-family", fam, "-seed", str(self.seed), "-from", str(j), "-step", str(JOBS), "-n", str(k), "-out", trace, *extra]
            try:
                p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=600, errors="replace")
                rc, err = p.returncode, p.stderr
            except subprocess.TimeoutExpired as e:
                rc, err = -1, (e.stderr or b"").decode(errors="replace") if isinstance(e.stderr, bytes) else "timeout"
            if rc == 3:
                raise CheckError("harness error in family %s: %s" % (fam, err[-2000:]))
            if rc != 0:
                with self.lock:
                    self.crashes.append({"family": fam, "from": j, "step": JOBS, "n": k, "rc": rc, "stderr": err[-6000:]})
                return
            st = json.loads(err.strip().splitlines()[-1])
            want += st["states"]
            with self.lock:
                self.stats["runs"] += st["runs"]
                self.stats["traces"] += st["distinct"]
                self.stats["points"] += st["points"]
                self.stats["switches"] += st["switches"]
                self.fams[fam] = self.fams.get(fam, 0) + st["runs"]
        if not os.path.exists(trace):
            return
        rc, out = java("3g", "-workers", "1", "-nowarning", "-config", module + ".cfg", module + ".tla",
                       env={"TRACES": trace}, cwd=d, timeout=800)
        viols, gen, dist, ok = parse_tlc(out)
        if not ok:
            if STUCK.search(out) and not ENVIRONMENT.search(out):
                # the behaviour has no meaning in the specification at all (for example, it
                # names a command or a connection that cannot exist)
                with self.lock:
                    self.crashes.append({"family": "+".join(f for f, _, _ in fams), "from": j, "step": JOBS, "n": 0, "rc": rc,
                                         "stderr": "the specification does not allow this behaviour\n" + out[-6000:]})
            else:
                raise CheckError("TLC failed on the behaviours:\n" + out[-3000:])
        elif dist != want:
            raise CheckError(f"{module}: {dist} states, expected {want}: some behaviour was not checked to its end")
        with self.lock:
            self.stats["gen"] += gen
            self.stats["dist"] += dist
            for tid, line, prs in viols:
                for p, why in prs:
                    if p == self.prop or why in ABNORMAL:
                        self.viol.append((tid, line, why, trace))
                    else:
                        self.other.setdefault(p, set()).add(why)
            if len(self.samples) < 2:
                with open(trace) as f:
                    t = json.loads(f.readline())
                self.samples.append({"trace": t["id"], "events": len(t["ev"]), "first": t["ev"][:12]})
        if not any(v[3] == trace for v in self.viol):
            shutil.rmtree(d, ignore_errors=True)

    def model(self, name):
        """Check one of the models of the specification."""
        mod = MODELS[name]
        d = os.path.join(self.scratch, "model-" + name)
        os.mkdir(d)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, "model.cfg"), "w") as f:
            f.write(mod["cfg"])
        t0 = time.time()
        rc, out = java(mod.get("mem", "4g"), "-workers", str(mod.get("workers", 2)), "-nowarning", "-config", "model.cfg", *mod.get("args", []),
                       mod["module"], cwd=d, timeout=mod.get("timeout", 780))
        viols, gen, dist, ok = parse_tlc(out)
        expect = mod.get("expect", "ok")
        good = ok if expect == "ok" else (not ok and re.search(expect, out) and not ENVIRONMENT.search(out))
        if not good:
            raise CheckError(f"model {name}: unexpected answer of TLC\n" + out[-2500:])
        scripts = [x[8:-1].replace('\\"', '"') for x in out.splitlines() if x.startswith('"SCRIPT ')]
        scripts.sort()
        with open(os.path.join(d, "scripts.ndjson"), "w") as f:
            f.writelines(x + "\n" for x in scripts)
        with self.lock:
            self.stats["gen"] += gen
            self.stats["dist"] += dist
            r = {"model": name, "states": dist, "transitions": gen, "wall_s": round(time.time() - t0, 1),
                 "result": "no error" if expect == "ok" else "counterexample found as expected: " + expect}
            if scripts:
                r["scripts"] = len(scripts)
            self.models.append(r)
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        return os.path.join(d, "scripts.ndjson")

    def run(self):
        plan = PLAN[self.prop]
        fams = list(plan["quick"])
        if self.tier == "thorough":
            fams = plan.get("thorough") or [(f, n * plan.get("factor", 8)) for f, n in plan["quick"]]
        fams += plan.get("scripts", {}).get(self.tier, [])
        with ThreadPoolExecutor(JOBS) as ex:
            bf = ex.submit(build, self.scratch)
            mf = {m: ex.submit(self.model, m) for m in plan.get("models", {}).get(self.tier, [])}
            self.drv = bf.result()
            scripts = {}
            for fam, n in fams:
                if fam.startswith("@"):  # scripts generated by a model
                    name = fam[1:]
                    scripts[fam] = mf[name].result() if name in mf else self.model(name)
            bymod = {}
            for fam, n in fams:
                if fam.startswith("@"):
                    sf = MODELS[fam[1:]]["family"]
                    bymod.setdefault(FAMILY_MODULE[sf], []).append((sf, n, ["-script", scripts[fam]]))
                else:
                    bymod.setdefault(FAMILY_MODULE[fam], []).append((fam, n, []))
            jobs = []
            for mod, fl in sorted(bymod.items()):
                for j in range(JOBS):
                    jobs.append(ex.submit(self.shard, mod, fl, j))
            errs = []
            for f in list(mf.values()) + jobs:
                try:
                    f.result()
                except CheckError as e:
                    errs.append(str(e))
            if errs and not self.viol:
                raise CheckError("\n".join(errs[:3]))


def known():
    out = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            mm = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line)
            if mm:
                out.append(mm.groups())
    return out


def replay(run, tid, line, whys, trace):
    d = os.path.join(HERE, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (run.prop, tid.replace("/", "-")))
    ev = None
    if trace:
        with open(trace) as f:
            for l in f:
                if l.startswith('{"id":"%s",' % tid):
                    ev = json.loads(l)["ev"]
                    break
    fam, seed, idx = (tid.split("/") + ["", ""])[:3]
    with open(path, "w") as f:
        json.dump({"property": run.prop, "trace": tid, "event": line, "reasons": whys,
                   "reproduce": f"bash {HERE}/build_drv.sh /repo OUT && OUT/drv -family {fam} -seed {seed} -from {idx} -n 1 -show",
                   "events": ev}, f)
    return path


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    if args[0] == "--model":  # one model only, for work on the specification
        run = Run("", tier, seed)
        try:
            f = run.model(args[1])
            log(json.dumps(run.models), f)
            if len(args) > 2:
                shutil.copy(f, args[2])
        finally:
            shutil.rmtree(run.scratch, ignore_errors=True)
        return 0
    if args == ["--setup"]:
        scratch = tempfile.mkdtemp(prefix="vchk-")
        try:
            build(scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        log("setup: the driver builds")
        return 0
    prop = args[0]
    t0 = time.time()
    run = Run(prop, tier, seed)
    try:
        run.run()
        return report(run, t0)
    except CheckError as e:
        log("CHECK-ERROR property=%s %s" % (prop, e))
        return 2
    finally:
        shutil.rmtree(run.scratch, ignore_errors=True)


def report(run, t0):
    prop = run.prop
    vi = {}
    for tid, line, why, trace in run.viol:
        vi.setdefault(tid, (line, [], trace))[1].append(why)
    kf = [k for k in known() if k[0] == prop]
    real, hits = [], {}
    for tid, (line, whys, trace) in vi.items():
        k = next((k for k in kf if k[1] in whys or k[1] == tid), None)
        if k:
            hits[k] = hits.get(k, 0) + 1
        else:
            real.append((tid, line, whys, trace))
    n = len(real) + len(run.crashes)
    cov = {"states": run.stats["dist"], "transitions": run.stats["gen"], "traces_validated_against_impl": run.stats["traces"],
           "samples": run.samples or [{"none": True}], "executions": run.stats["runs"], "families": run.fams,
           "scheduling_points": run.stats["points"], "context_switches": run.stats["switches"], "models": run.models}
    ev = {"property": prop, "tier": run.tier, "seed": run.seed, "level": "model_checking", "coverage": cov,
          "assumptions": PLAN[prop].get("assumptions", []) , "wall_s": round(time.time() - t0, 1), "violations": n}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in kf:
        log("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    for c in run.crashes[:2]:
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-crash-%s-%d.json" % (prop, c["family"], c["from"]))
        with open(path, "w") as f:
            json.dump(c, f, indent=1)
        log("the process ended or never finished, or the behaviour is outside the specification: family %s" % c["family"])
        log("VIOLATION property=%s replay=%s" % (prop, path))
    real.sort(key=lambda x: x[1])
    for tid, line, whys, trace in real[:5]:
        log("  %s event %d: %s" % (tid, line, "; ".join(sorted(set(whys)))))
    for tid, line, whys, trace in real[:3]:
        log("VIOLATION property=%s replay=%s" % (prop, replay(run, tid, line, whys, trace)))
    for p in sorted(run.other):
        log("note: also seen, decided by the check of %s: %s" % (p, "; ".join(sorted(run.other[p]))[:300]))
    log("property=%s tier=%s seed=%d traces=%d states=%d violations=%d wall=%.1fs" %
        (prop, run.tier, run.seed, run.stats["traces"], run.stats["dist"], n, time.time() - t0))
    return 1 if n else 0


if __name__ == "__main__":
    sys.exit(main())

"""Runs TLC and the driver for check.py."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CORES = 8
CORE = {"MC", "Tree", "Gen", "Conc", "ConcTrace", "Convey"}  # modules that extend MockeyCore


class Broken(Exception):
    """The check itself cannot give an answer."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def go_env():
    env = dict(os.environ)
    out = sh(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"]).stdout.decode("utf8", "replace")
    for kv in out.split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            env[k] = v
    for k in ("MOCKEY_DEBUG", "GODEBUG", "GOGC"):
        env.pop(k, None)
    return env


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.env = go_env()
        self.drivers = {}
        self.generated = {}  # driver variant: further source files
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "steps_validated_against_impl": 0,
                    "samples": [], "model_checks": [], "behaviours": {}, "operations": {}, "target_kinds": {}, "unreproduced": []}
        self.lock = threading.Lock()
        self.traces = []
        self.pool = ThreadPoolExecutor(CORES)

    def close(self):
        self.pool.shutdown(wait=False)
        shutil.rmtree(self.dir, ignore_errors=True)

    def quick(self):
        return self.tier == "quick"

    def log(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- TLC

    def tlc(self, module, consts, inv, init="Init", nxt="Next", constraint=None, args=(), workers=1, timeout=600, extra_cfg="", name="", files=()):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        for f in os.listdir(VERIF + "/spec"):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        for f in files:
            shutil.copy(f, d)
        if module in CORE:
            consts = dict({"Sharing": '"none"'}, **consts)
        cfg = "CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in consts.items()) if consts else ""
        cfg += "INIT %s\nNEXT %s\n" % (init, nxt)
        if inv:
            cfg += "INVARIANTS %s\n" % " ".join(inv)
        if constraint:
            cfg += "CONSTRAINT %s\n" % constraint
        cfg += extra_cfg
        with open(d + "/M.cfg", "w") as f:
            f.write(cfg)
        env = dict(os.environ)
        env.setdefault("JAVA_TOOL_OPTIONS", "-Xmx3g -Xss64m")
        out = d + "/out.txt"
        try:
            with open(out, "w") as o:
                rc = subprocess.run(["tlc", "-deadlock", "-workers", str(workers), "-metadir", d + "/md", "-config", "M.cfg",
                                     *args, module + ".tla"], cwd=d, env=env, stdout=o, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on %s %s" % (module, name))
        text_tail = sh(["tail", "-c", "4000", out]).stdout.decode("utf8", "replace")
        return rc, out, text_tail

    def model_check(self, module, consts, inv, constraint=None, workers=CORES, timeout=600, extra_cfg="", name=""):
        """Exhaustive check of a specification: it must hold, whatever the code does."""
        rc, out, tail = self.tlc(module, consts, inv, constraint=constraint, workers=workers, timeout=timeout, extra_cfg=extra_cfg, name=name)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", tail)
        if rc != 0 or not m or "No error has been found" not in tail:
            raise Broken("model check of %s %s failed:\n%s" % (module, consts, tail[-3000:]))
        self.cov["states"] += int(m.group(2))
        self.cov["transitions"] += int(m.group(1))
        self.cov["model_checks"].append({"module": module, "constants": {k: str(v) for k, v in consts.items()}, "states": int(m.group(2)),
                                         "transitions": int(m.group(1)), "invariants": list(inv)})
        self.log("model check %s %s: %s states" % (module, name, m.group(2)))

    def behaviours(self, out, path):
        """Extracts the printed behaviours from TLC's output."""
        n = 0
        with open(path, "w") as o:
            for l in open(out, errors="replace"):
                if l.startswith(('"[', '"{')):
                    o.write(json.loads(l) + "\n")
                    n += 1
        return n

    def table(self, module, consts, inv, name="", timeout=800, **kw):
        """All cases of a specification, one JSON object per line."""
        rc, out, tail = self.tlc(module, consts, inv, workers=1, timeout=timeout, name=name, **kw)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", tail)
        if rc != 0 or not m or "No error has been found" not in tail:
            raise Broken("cases of %s failed:\n%s" % (module, tail[-3000:]))
        p = os.path.join(self.dir, "table-%s-%d.txt" % (module, len(os.listdir(self.dir))))
        n = self.behaviours(out, p)
        self.cov["states"] += int(m.group(2))
        self.cov["transitions"] += int(m.group(1))
        self.cov["behaviours"]["cases of %s %s" % (module, json.dumps(consts, sort_keys=True))] = n
        self.log("enumerated %d cases: %s %s" % (n, module, consts))
        return [(p, 0, n)]

    def tree(self, focus, consts, module="Tree"):
        c = {"NF": 4, "NV": 3, "NG": 3, "Focus": '"%s"' % focus}
        c.update(consts)
        rc, out, tail = self.tlc(module, c, ["Emit"], workers=1, timeout=800, name=focus)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", tail)
        if rc != 0 or not m:
            raise Broken("enumeration of behaviours %s failed:\n%s" % (focus, tail[-3000:]))
        p = os.path.join(self.dir, "tree-%s-%d.txt" % (focus, len(os.listdir(self.dir))))
        n = self.behaviours(out, p)
        self.cov["states"] += int(m.group(2))
        self.cov["transitions"] += int(m.group(1))
        self.cov["behaviours"]["all of %s %s" % (focus, json.dumps(consts, sort_keys=True))] = n
        self.log("enumerated %d behaviours: %s %s" % (n, focus, consts))
        return [(p, 0, n)]

    def generate(self, profile, num, depth, module="Gen", ng=3, sharing="none", consts={}, inv=["Emit"], **kw):
        """num random behaviours per core"""
        def one(i):
            seed = int(hashlib.sha256(("%s/%s/%d/%d%s" % (self.seed, profile, i, depth, "" if sharing == "none" else sharing)).encode()).hexdigest()[:12], 16)
            c = dict({"NF": 4, "NV": 3, "NG": ng, "D": depth, "Profile": '"%s"' % profile, "Sharing": '"%s"' % sharing}, **consts)
            rc, out, tail = self.tlc(module, c, inv, args=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(seed)], timeout=800, name=profile, **kw)
            p = os.path.join(self.dir, "gen-%s-%d-%d-%s.txt" % (profile, i, depth, sharing))
            n = self.behaviours(out, p)
            if rc != 0 or n < num * (1 if module == "Gen" else 0.8):
                raise Broken("generation of behaviours %s failed:\n%s" % (profile, tail[-3000:]))
            m = re.search(r"The number of states generated: (\d+)", open(out, errors="replace").read()[-3000:])
            return p, 0, n, int(m.group(1)) if m else 0
        rs = list(self.pool.map(one, range(CORES)))
        n, st = sum(r[2] for r in rs), sum(r[3] for r in rs)
        self.cov["behaviours"]["random %s, %d steps%s" % (profile, depth, "" if sharing == "none" else ", shared code: " + sharing)] = n
        self.cov["transitions"] += st
        self.log("generated %d random behaviours: %s" % (n, profile))
        return [r[:3] for r in rs]

    def simulate(self, module, consts, num, depth):
        """num things drawn at random from a specification, as lines"""
        rc, out, tail = self.tlc(module, consts, ["Emit"], args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)], name=module)
        lines = [json.loads(l) for l in open(out, errors="replace") if l.startswith(('"[', '"{'))]
        if rc != 0 or len(lines) < num:
            raise Broken("simulation of %s failed:\n%s" % (module, tail[-3000:]))
        return lines[:num]

    # ---- driver

    def driver(self, variant=""):
        if variant in self.drivers:
            return self.drivers[variant]
        ov = {"Replace": {REPO + "/zverif/" + os.path.basename(f): f for f in self.generated.get(variant, [])}}
        for sub in ("", "wk/", "n1/near/", "n2/near/", "at.v2/"):
            for f in sorted(os.listdir(VERIF + "/driver/" + sub)):
                if f.endswith((".go", ".s")):
                    ov["Replace"][REPO + "/zverif/" + sub + f] = VERIF + "/driver/" + sub + f
        ovf = os.path.join(self.dir, "overlay%s.json" % variant)
        with open(ovf, "w") as f:
            json.dump(ov, f)
        out = os.path.join(self.dir, "driver" + variant)
        cmd = ["go", "build", "-gcflags=all=-l -N", "-overlay", ovf, "-o", out]
        if "stw" in variant:
            cmd += ["-tags", "mockey_stw", "-ldflags=-checklinkname=0"]
        if "race" in variant:
            cmd += ["-race"]
        r = sh(cmd + ["./zverif"], cwd=REPO, env=self.env, timeout=600)
        if r.returncode != 0:
            raise Broken("the driver does not build:\n" + r.stderr.decode("utf8", "replace")[-4000:])
        self.drivers[variant] = out
        self.log("built driver " + variant)
        return out

    def program(self, name, gcflags, stw, out):
        """A small program of its own in driver/<name>, built with given flags."""
        d = VERIF + "/driver/" + name + "/"
        ovf = os.path.join(self.dir, "overlay-%s.json" % out)
        with open(ovf, "w") as f:
            json.dump({"Replace": {REPO + "/zverif/" + name + "/" + f: d + f for f in os.listdir(d)}}, f)
        cmd = ["go", "build", "-gcflags=" + gcflags, "-overlay", ovf, "-o", os.path.join(self.dir, out)]
        if stw:
            cmd += ["-tags", "mockey_stw", "-ldflags=-checklinkname=0"]
        r = sh(cmd + ["./zverif/" + name], cwd=REPO, env=self.env, timeout=800)
        if r.returncode != 0:
            raise Broken("%s does not build:\n%s" % (name, r.stderr.decode("utf8", "replace")[-4000:]))
        return os.path.join(self.dir, out)

    def violation(self, kind, data, what):
        d = os.path.join(VERIF, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        j = os.path.join(d, "%s-%s.json" % (kind, hashlib.sha256(json.dumps(data).encode()).hexdigest()[:10]))
        with open(j, "w") as o:
            json.dump({"property": self.prop, "what": what, kind: data}, o, indent=1)
        return Violation(what, j)

    def drive(self, exe, behaviours, lo, hi, args=(), env=None, timeout=850, tag=""):
        """One driver process; returns (report or None, failure or None). A failure is a dict with line, rep, what."""
        d = tempfile.mkdtemp(prefix="drv-", dir=self.dir)
        e = dict(self.env)
        e["GODEBUG"] = "gcshrinkstackoff=1,clobberfree=1"
        e["GOTRACEBACK"] = "all"
        e.update(env or {})
        cmd = [exe, "-in", behaviours, "-out", d + "/report", "-progress", d + "/progress", "-seed", str(self.seed),
               "-from", str(lo), "-to", str(hi), *args]
        with open(d + "/err", "w") as err:
            try:
                rc = subprocess.run(cmd, env=e, stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL, timeout=timeout, cwd=d).returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        rep = None
        if rc == 0 and os.path.exists(d + "/report"):
            rep = json.load(open(d + "/report"))
        fail = None
        if rep is None:
            where = open(d + "/progress").read().split() if os.path.exists(d + "/progress") else []
            errtext = open(d + "/err", errors="replace").read()
            first = [l for l in errtext.splitlines() if l.strip() and not l.startswith(("goroutine ", "\t"))][:3]
            what = "the process ended with %s: %s" % (rc, " | ".join(first)[:600])
            if rc == 3:
                what = "an operation does not end: " + " ".join(where)
            if len(where) < 3:
                raise Broken("driver: " + what + errtext[-2000:])
            fail = {"line": int(where[0]), "rep": int(where[1]), "step": int(where[2]), "what": what, "crash": True}
        elif rep.get("fail"):
            fail = rep["fail"]
        shutil.rmtree(d, ignore_errors=True)
        return rep, fail

    def account(self, rep):
      with self.lock:
        self.cov["traces_validated_against_impl"] += rep["behaviours"]
        self.cov["steps_validated_against_impl"] += rep["steps"]
        self.traces += rep.get("traces") or []
        for a, b in (("cover", "operations"), ("kinds", "target_kinds")):
            for k, v in rep[a].items():
                self.cov[b][k] = self.cov[b].get(k, 0) + v

    def replay(self, chunks, variant="", args=(), env=None, reps=1):
        """Replays behaviours [(file, lo, hi)] into the code with CORES processes."""
        exe = self.driver(variant)
        args = list(args) + ["-reps", str(reps)]
        jobs = []
        for (p, lo, hi) in chunks:
            n = max(1, min((hi - lo + 19) // 20, CORES if len(chunks) < CORES else 1))
            for i in range(n):
                a, b = lo + (hi - lo) * i // n, lo + (hi - lo) * (i + 1) // n
                if a < b:
                    jobs.append((p, a, b))

        def work(job):
            p, a, b = job
            flakes = 0
            while a < b:
                rep, fail = self.drive(exe, p, a, b, args, env)
                if rep:
                    self.account(rep)
                if not fail:
                    return
                self.reproduce(exe, p, a, fail, args, env, variant)
                flakes += 1
                self.log("not reproduced: line %s step %s: %s" % (fail.get("line"), fail.get("step"), fail["what"]))
                self.cov["unreproduced"].append({k: fail.get(k) for k in ("line", "step", "what")})
                if flakes > 5:
                    raise Broken("too many failures that do not reproduce, the last: %s" % fail["what"])
                a = fail["line"] + 1
        for _ in self.pool.map(work, jobs):
            pass
        self.log("replayed %d behaviours, %d steps" % (self.cov["traces_validated_against_impl"], self.cov["steps_validated_against_impl"]))

    def check_traces(self):
        """Windows of concurrent calls recorded by the driver must be behaviours of ConcTrace.tla."""
        ts, self.traces = self.traces, []
        for t in ts:
            for q in t["sq"]:
                q.setdefault("f", 0)
        parts = [ts[i::CORES] for i in range(CORES) if ts[i::CORES]]

        def one(ip):
            i, part = ip
            f = os.path.join(self.dir, "traces-%d-%d.json" % (i, len(os.listdir(self.dir))))
            with open(f, "w") as o:
                json.dump(part, o)
            rc, out, tail = self.tlc("ConcTrace", {"NF": 4, "NV": 1, "NG": 8, "File": '"%s"' % f}, ["Accepted"], workers=1, timeout=800, name="traces")
            m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", tail)
            if rc != 0 or not m:
                raise Broken("check of recorded traces failed:\n" + tail[-3000:])
            ok = {int(x) for x in re.findall(r'<<"accepted", (\d+)>>', open(out, errors="replace").read())}
            return [part[j] for j in range(len(part)) if j + 1 not in ok], int(m.group(2)), int(m.group(1))
        bad = []
        for b, s, n in self.pool.map(one, enumerate(parts)):
            bad += b
            self.cov["states"] += s
            self.cov["transitions"] += n
        self.cov["recorded_traces_accepted"] = self.cov.get("recorded_traces_accepted", 0) + len(ts) - len(bad)
        self.log("checked %d recorded traces, %d events" % (len(ts), sum(len(t["ev"]) for t in ts)))
        if bad:
            d = os.path.join(VERIF, "replays", self.prop)
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, "trace-%s.json" % hashlib.sha256(json.dumps(bad[0]).encode()).hexdigest()[:10])
            with open(f, "w") as o:
                json.dump({"property": self.prop, "what": "no order of the steps of these calls explains what they gave", "trace": bad[0]}, o)
            raise Violation("%d recorded windows of concurrent calls are not behaviours of the specification" % len(bad), f)

    def reproduce(self, exe, p, a, fail, args, env, variant):
        """Raises Violation if the failure appears again when its behaviour is run alone, or from the start of its process."""
        n = fail["line"]
        for lo, tries in ((n, 12), (a, 3)):
            again, last = 0, None
            for _ in range(tries):
                _, f = self.drive(exe, p, lo, n + 1, args, env, timeout=300)
                if f and f["line"] == n:
                    again, last = again + 1, f
                if again >= 2:
                    raise Violation(last["what"], self.save(p, lo, n, last, args, env, variant))
            if lo == a:
                break

    def save(self, p, lo, n, fail, args, env, variant):
        d = os.path.join(VERIF, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        lines = open(p).read().splitlines()[lo:n + 1]
        f = os.path.join(d, "behaviour-%s.txt" % hashlib.sha256("\n".join(lines).encode()).hexdigest()[:10])
        with open(f, "w") as o:
            o.write("\n".join(lines) + "\n")
        j = f.replace(".txt", ".json")
        with open(j, "w") as o:
            json.dump({"property": self.prop, "what": fail["what"], "behaviour": f, "step": fail.get("step"), "bound_to": fail.get("bound"),
                       "operations": fail.get("ops"), "seed": self.seed, "line_in_run": n, "driver_variant": variant,
                       "args": list(args), "env": env or {}}, o, indent=1)
        return j

    def scenarios(self, names, known, variant="", env=None, mode="scenario"):
        """Single programs, each in a process of its own: they hold, or fail in a known way."""
        exe = self.driver(variant)
        res = {}

        def one(name):
            d = tempfile.mkdtemp(prefix="scn-", dir=self.dir)
            e = dict(self.env)
            e["GODEBUG"] = "gcshrinkstackoff=1,clobberfree=1"
            e.update(env or {})
            try:
                r = subprocess.run([exe, "-mode", mode, "-name", name, "-out", d + "/report", "-seed", str(self.seed)], env=e,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=300, cwd=d)
                rc, err = r.returncode, r.stderr.decode("utf8", "replace")
            except subprocess.TimeoutExpired:
                rc, err = "timeout", ""
            if rc == 0 and os.path.exists(d + "/report"):
                rep = json.load(open(d + "/report"))
                return name, (rep.get("fail") or {}).get("what"), rep
            first = [l for l in err.splitlines() if l.strip()][:3]
            return name, "the process ended with %s: %s" % (rc, " | ".join(first)[:400]), None
        for name, what, rep in self.pool.map(one, names):
            res[name] = what
            if rep:
                self.account(rep)
            if what is None:
                continue
            if name in known:
                print("KNOWN-FINDING: property=%s %s (%s)" % (self.prop, known[name], name), flush=True)
                continue
            bad = 0
            for _ in range(12):
                bad += one(name)[1] is not None
                if bad == 2:
                    break
            if bad < 2:
                self.cov["unreproduced"].append({"scenario": name, "what": what})
                continue
            d = os.path.join(VERIF, "replays", self.prop)
            os.makedirs(d, exist_ok=True)
            j = os.path.join(d, "scenario-%s.json" % name)
            with open(j, "w") as o:
                json.dump({"property": self.prop, "scenario": name, "what": what, "driver_variant": variant, "env": env or {}}, o, indent=1)
            raise Violation("%s: %s" % (name, what), j)
        self.cov.setdefault("scenarios", {}).update({k: v or "holds" for k, v in res.items()})


def known_findings(prop):
    """known-findings.txt: lines `known: property=<id> scenario=<name> <what fails>` and `fixed: ...`."""
    res = {}
    for l in open(VERIF + "/known-findings.txt"):
        m = re.match(r"known: property=(\S+) scenario=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            res[m.group(2)] = m.group(3).strip()
    return res

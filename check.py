#!/usr/bin/env python3
"""check.py <PROPERTY> [--only SESSION] [--keep]

Decides one property: model-checks its specification, replays behaviours TLC
generates from it into the real code, records what the real code does and
validates the recording against the specification.  Exit 0: held; 1: VIOLATION;
anything else: the check itself failed.
"""
import sys, os, json, subprocess, hashlib, time, shutil, re, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, HERE)
from suites import SUITES  # noqa

class CheckError(Exception):
    pass

def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return -9, (x.stdout or b"").decode("utf-8", "replace") + "\nTIMEOUT"

def classes():
    src = os.path.join(HERE, "java", "Prims.java")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "classes-" + h)
    if not os.path.exists(os.path.join(out, "Prims.class")):
        tmp = tempfile.mkdtemp(dir=BUILD)
        rc, o = sh(["javac", "-cp", TLA, "-d", tmp, src], 300)
        if rc:
            raise CheckError("javac failed\n" + o)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp)
    return out

GOENV = {"HOME": "/root", "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": os.environ.get("GOCACHE", "/root/.cache/go-build"),
         "GOTOOLCHAIN": "local", "GOPROXY": "off", "GO111MODULE": "on", "GOFLAGS": "-mod=readonly", "CGO_ENABLED": "1"}

def driver(work, race=False):
    """Builds the driver inside /repo's module through an overlay (nothing is written there)."""
    rep = {}
    d = os.path.join(HERE, "driver")
    for f in sorted(os.listdir(d)):
        if f.endswith(".go"):
            rep[os.path.join(REPO, "verifdrv", f)] = os.path.join(d, f)
    if not os.path.exists(os.path.join(REPO, "go.mod")):
        for f in ("go.mod", "go.sum"):
            rep[os.path.join(REPO, f)] = os.path.join(d, "mod", f)
    ov = os.path.join(work, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    out = os.path.join(work, "verifdrv")
    rc, o = sh(["go", "build", "-overlay", ov, "-o", out] + (["-race"] if race else []) + ["./verifdrv"], 600, GOENV, REPO)
    if rc:
        raise CheckError("driver does not build\n" + o)
    return out

def tlc(work, module, cfg, env=None, out=None, workers=8, timeout=850, extra=None, heap="6g"):
    meta = tempfile.mkdtemp(dir=work)
    cmd = ["java", "-Xss512m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", ":".join([classes(), TLA, CM])]
    if out:
        cmd.append("-Dverif.out=" + out)
    cmd += ["tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + (extra or []) + [module + ".tla"]
    t0 = time.time()
    rc, o = sh(cmd, timeout, env, os.path.join(HERE, "spec"))
    o = "\n".join(l for l in o.split("\n") if not l.startswith("Loading "))
    r = {"rc": rc, "out": o, "wall": time.time() - t0, "states": 0, "generated": 0}
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", o)
    if m:
        r["generated"], r["states"] = int(m.group(1)), int(m.group(2))
    return r

def read_lines(p):
    if not os.path.exists(p):
        return []
    return [l for l in open(p, encoding="utf-8").read().split("\n") if l]

def short(x, n=700):
    s = x if isinstance(x, str) else json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."

def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]

class Run:
    def __init__(self, prop, tier, seed, only):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.viol = []           # {where, detail}
        self.states = self.transitions = self.traces = self.events = self.replayed = 0
        self.samples = []
        self.parts = []
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="run-" + prop + "-", dir=BUILD)

    def violation(self, where, detail, sig=None):
        self.viol.append({"where": where, "detail": detail, "sig": sig or where})

    # -- model checking of the specification itself, with case generation
    def model(self, m):
        cfg = m.get("cfg_" + self.tier) or m["cfg"]
        out = os.path.join(self.work, m["module"] + ".cases")
        r = tlc(self.work, m["module"], cfg, out=out, env={"VERIF_SEED": str(self.seed)}, extra=m.get("extra"), workers=m.get("workers", 8))
        ok = "Model checking completed. No error has been found" in r["out"] or (m.get("sim") and r["rc"] == 0)
        if not ok:
            raise CheckError("model %s: TLC failed (rc %d)\n%s" % (m["module"], r["rc"], r["out"][-4000:]))
        if r["states"] < m.get("min_states", 2):
            raise CheckError("model %s is vacuous: %d states" % (m["module"], r["states"]))
        self.states += r["states"]
        self.transitions += r["generated"]
        n = len(read_lines(out))
        self.parts.append({"model": m["module"], "config": cfg, "distinct_states": r["states"], "generated": r["generated"], "cases_emitted": n, "wall_s": round(r["wall"], 1)})
        return out if n else None

    def drive(self, binary, d, cases):
        tr = os.path.join(self.work, d["suite"] + ".ndjson")
        pend = os.path.join(self.work, d["suite"] + ".pending")
        cmd = [binary, "-suite", d["suite"], "-out", tr, "-seed", str(self.seed), "-tier", self.tier]
        if d.get("guard"):
            cmd += ["-pending", pend]
        if cases:
            cmd += ["-cases", cases]
        if self.only:
            cmd += ["-only", self.only]
        env = {"GORACE": "halt_on_error=1 exitcode=66"} if d.get("race") else {}
        env.update(d.get("env", {}))
        lim = d.get("vmem")
        pre = ["bash", "-c", "ulimit -v %d; exec \"$@\"" % lim, "x"] if lim else []
        for attempt in (1, 2):
            rc, o = sh(pre + cmd, 800, env)
            if rc == 0:
                break
            dead = self.died(rc, o, pend, d)
            if dead is None:
                raise CheckError("driver failed (rc %d)\n%s" % (rc, o[-4000:]))
            if attempt == 2:      # it happened twice: the real code brings the process down
                self.violation("driver/" + d["suite"], dead)
                return None
        m = re.search(r"^SUMMARY (.*)$", o, re.M)
        if not m:
            raise CheckError("driver printed no summary\n" + o[-2000:])
        summ = json.loads(m.group(1))
        bad = re.findall(r"^MISMATCH (.*)$", o, re.M)
        for b in bad[:5]:
            self.violation("replay/" + d["suite"], "generated behaviour not reproduced: " + short(b))
        m = re.search(r"^REPLAYED (\d+) BAD (\d+)$", o, re.M)
        if m:
            self.replayed += int(m.group(1))
            if int(m.group(2)) and not bad:
                self.violation("replay/" + d["suite"], "generated behaviours not reproduced")
        if cases and not m:
            raise CheckError("cases were generated but not replayed")
        return tr, summ

    def died(self, rc, o, pend, d):
        if rc == -9 and "TIMEOUT" in o:
            return None
        what = None
        m = re.search(r"WARNING: DATA RACE.*?={10,}", o, re.S)
        if m and re.search(r"github.com/keyfuse/tokucore/x|/repo/(x|network)", m.group(0)):
            what = m.group(0)
        m = re.search(r"^(fatal error|panic|unexpected fault|SIGSEGV)[^\n]*\n.*", o, re.S | re.M)
        if what is None and m and re.search(r"github.com/keyfuse/tokucore/(x|network)", m.group(0)):
            what = m.group(0)
        if what is None:
            return None
        if os.path.exists(pend):
            what = "during " + short(open(pend).read(), 400) + "\n" + what
        return what[:3000]

    def validate(self, d, tr, summ):
        out = os.path.join(self.work, d["suite"] + ".bad")
        mod = d["spec"]
        r = tlc(self.work, mod, d.get("cfg", mod + ".cfg"), env={"TRACE_FILE": tr, "VERIF_SEED": str(self.seed)}, out=out, heap="12g")
        want = summ["sessions"] + summ["events"]
        done = "Model checking completed. No error has been found" in r["out"]
        bad = [json.loads(l) for l in read_lines(out)]
        sessions = {}
        def load():
            if not sessions:
                for l in read_lines(tr):
                    s = json.loads(l)
                    sessions[s["name"]] = s
            return sessions
        for b in bad:
            s = load()[b["sess"]]
            e = s["ev"][b["pos"] - 1]
            self.violation(b["sess"], "event %d %s: observed %s, specified %s" % (b["pos"], short({"op": e["op"], "a": e["a"]}), short(e["r"]), short(b["expected"])),
                           sig=json.dumps({"op": e["op"], "a": e["a"]}, sort_keys=True))
        if not done and not bad:
            # TLC could not even evaluate the observation against the specification
            m = re.search(r"Error: .*", r["out"], re.S)
            err = m.group(0)[:3000] if m else r["out"][-3000:]
            if "sess = " in err and r["rc"] not in (-9, 137) and "OutOfMemory" not in err and "StackOverflow" not in err:
                mm = re.findall(r"sess = (\d+)", err)
                mp = re.findall(r"pos = (\d+)", err)
                names = [json.loads(l)["name"] for l in read_lines(tr)]
                nm = names[int(mm[-1]) - 1]
                p = int(mp[-1]) if mp else 0
                e = load()[nm]["ev"][p] if p < len(load()[nm]["ev"]) else {}
                self.violation(nm, "observation outside the specification's domain at event %d: %s\n%s" % (p + 1, short(e), err[:1200]))
            else:
                raise CheckError("trace validation failed (rc %d)\n%s" % (r["rc"], r["out"][-4000:]))
        elif done and r["states"] != want:
            raise CheckError("trace validation covered %d states, expected %d" % (r["states"], want))
        if summ["sessions"] == 0 or (summ["events"] < d.get("min_events", 1) and not self.only):
            raise CheckError("suite %s is vacuous: %s" % (d["suite"], summ))
        self.states += r["states"]
        self.transitions += summ["events"]
        self.traces += summ["sessions"]
        self.events += summ["events"]
        self.parts.append({"suite": d["suite"], "spec": mod, "sessions": summ["sessions"], "events": summ["events"], "ops": summ["ops"], "rejected": len(bad), "wall_s": round(r["wall"], 1)})
        n = 0
        for l in open(tr):
            if len(l) < 20000:
                s = json.loads(l)
                if s["ev"]:
                    self.samples.append(json.loads(json.dumps({"session": s["name"], "event": s["ev"][len(s["ev"]) // 2]})) if len(json.dumps(s["ev"][len(s["ev"]) // 2])) < 3000 else {"session": s["name"]})
                    n += 1
            if n >= 3:
                break

    def run(self):
        conf = SUITES[self.prop]
        cases = None
        for m in conf.get("models", []):
            if self.only:
                break
            c = self.model(m)
            if c:
                if cases is None:
                    cases = os.path.join(self.work, "cases.ndjson")
                with open(cases, "a") as f:
                    f.write(open(c).read())
        bins = {}
        first = True
        for d in conf["drive"]:
            race = bool(d.get("race"))
            if race not in bins:
                w = os.path.join(self.work, "race" if race else "plain")
                os.makedirs(w)
                bins[race] = driver(w, race)
            t = self.drive(bins[race], d, cases if first or d.get("cases") else None)
            first = False
            if t:
                self.validate(d, *t)

    def report(self, wall):
        conf = SUITES[self.prop]
        kf = known_findings(self.prop)
        real, seen = [], set()
        for v in self.viol:
            hit = next((k for k in kf if k["match"] in v["sig"]), None)
            if hit:
                if hit["id"] not in seen:
                    seen.add(hit["id"])
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, hit["what"]))
            else:
                real.append(v)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "events_validated": self.events, "generated_behaviours_replayed": self.replayed, "samples": self.samples[:8], "parts": self.parts},
              "assumptions": conf.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(real)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", self.prop + ".json"), "w"), indent=1)
        if not real:
            print("OK property=%s states=%d traces=%d events=%d replayed=%d wall=%.1fs" % (self.prop, self.states, self.traces, self.events, self.replayed, wall))
            return 0
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        rp = os.path.join(BUILD, "replay", "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
        json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "violations": real[:50],
                   "rerun": "VERIF_TIER=%s VERIF_SEED=%d ./check.py %s --only '%s'" % (self.tier, self.seed, self.prop, real[0]["where"])}, open(rp, "w"), indent=1)
        for v in real[:6]:
            print("  " + v["where"] + ": " + v["detail"])
        print("  (%d in all)" % len(real))
        print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        return 1

def main():
    prop = sys.argv[1]
    if prop == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        classes()
        w = tempfile.mkdtemp(dir=BUILD)
        try:
            driver(w)
            driver(w, True)
        finally:
            shutil.rmtree(w)
        return 0
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    r = Run(prop, tier, seed, only)
    try:
        r.run()
        rc = r.report(time.time() - t0)
    except CheckError as e:
        if r.viol:      # violations found before the failure are still violations
            return r.report(time.time() - t0)
        print("CHECK ERROR:", e)
        rc = 3
    finally:
        if "--keep" not in sys.argv:
            shutil.rmtree(r.work, ignore_errors=True)
        else:
            print("work:", r.work)
    return rc

if __name__ == "__main__":
    sys.exit(main())

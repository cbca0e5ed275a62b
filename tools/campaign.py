#!/usr/bin/env python3
"""campaign.py tests|checks DIR [FILTER...]: mutation campaign over /repo (scratch only).
tests: which mutants the repository's tests let through; checks: which of those the checks miss."""
import sys, os, json, random, subprocess, shutil, threading, queue, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
REPO = "/repo"
ENV = dict(os.environ, **check.GOENV)
MAP = [("xcore/transactionbuilder", "C08 C22"), ("xcore/transaction", "C05 C06 C07 C20 C22"), ("xcore/coinbuilder", "C08"), ("xcore/estimate", "C08"), ("xcore/script", "C04 C09 C07 C08"),
       ("xcore/address", "C09 C20"), ("xcore/bip32", "C10 C20 C22"), ("xcore/bip39", "C11 C22"), ("xbase/buffer", "C24 C19 C05 C20"), ("xbase/bech32", "C24 C09 C20"), ("xbase/witness", "C24 C09 C20"),
       ("xbase/base58", "C24 C09 C10 C20"), ("xbase/hash", "C24 C19 C05"), ("xvm/script", "C04 C01 C20"), ("xvm/stack", "C01 C02 C22"), ("xvm/engine", "C01 C02 C22"), ("xvm/instruction_crypto", "C03 C01"), ("xvm", "C01 C02 C04 C03 C20"),
       ("xcrypto/mpc_ecdsa", "C14"), ("xcrypto/scriptless_ecdsa", "C14"), ("xcrypto/mpc_schnorr", "C15"), ("xcrypto/schnorr", "C13 C15"), ("xcrypto/signature_schnorr", "C13 C15"), ("xcrypto/signature_ecdsa", "C12 C20"), ("xcrypto/ecdsa", "C12 C14"),
       ("xcrypto/secp256k1", "C21 C12"), ("xcrypto/pubkey", "C21 C20"), ("xcrypto/prvkey", "C21 C12"), ("xcrypto/paillier", "C16 C14"), ("xcrypto/merkle", "C17"), ("xcrypto/pbkdf2", "C11"), ("xcrypto/ripemd160", "C09 C01"), ("xcrypto/hash", "C24 C09"),
       ("xprotocol/stream", "C18"), ("xprotocol/connection", "C18"), ("xprotocol", "C19 C18 C20"), ("xrpc", "C23"), ("xerror", "C20"), ("network", "C09 C10")]
CAP = {"xcrypto/ripemd160/ripemd160block.go": 15, "xcrypto/ripemd160/ripemd160.go": 40, "xcore/transaction.go": 400}

def mutants(filt):
    rnd = random.Random(7)
    out = []
    files = subprocess.run("git ls-files '*.go' | grep -v '_test.go\\|examples\\|mock.go\\|words/\\|ripemd160/[a-z]*/'", shell=True, cwd=REPO, stdout=subprocess.PIPE).stdout.decode().split()
    for f in files:
        if filt and not any(x in f for x in filt):
            continue
        ms = [dict(json.loads(l), file=f) for l in subprocess.run(["/tmp/mutate", os.path.join(REPO, f)], stdout=subprocess.PIPE).stdout.decode().split("\n") if l]
        cap = CAP.get(f, 160)
        if len(ms) > cap:
            ms = rnd.sample(ms, cap)
        out += ms
    rnd.shuffle(out)
    return out

def text(m):
    s = open(os.path.join(REPO, m["file"]), "rb").read()
    return s[:m["off"]] + m["new"].encode() + s[m["end"]:]

def line(m):
    return open(os.path.join(REPO, m["file"])).read().split("\n")[m["line"] - 1].strip()

def go(cmd, timeout, cwd=REPO):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return -9, "timeout"

def rdeps():
    rc, o = go(["go", "list", "-e", "-f", "{{.ImportPath}} {{join .Deps \" \"}} {{join .TestImports \" \"}}", "./..."], 60)
    r = {}
    for l in o.split("\n"):
        w = l.split()
        for d in w[1:]:
            r.setdefault(d, set()).add(w[0])
    return r

def tests(d, filt):
    deps = rdeps()
    q = queue.Queue()
    done = set()
    res = os.path.join(d, "tests.jsonl")
    if os.path.exists(res):
        done = {(r["file"], r["off"], r["end"], r["new"]) for r in map(json.loads, open(res))}
    for m in mutants(filt):
        if (m["file"], m["off"], m["end"], m["new"]) not in done:
            q.put(m)
    lock = threading.Lock()
    def work(i):
        w = tempfile.mkdtemp(prefix="camp")
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            p, ov = os.path.join(w, "m.go"), os.path.join(w, "ov.json")
            open(p, "wb").write(text(m))
            json.dump({"Replace": {os.path.join(REPO, m["file"]): p}}, open(ov, "w"))
            pkg = "github.com/keyfuse/tokucore/" + os.path.dirname(m["file"])
            rc, o = go(["go", "build", "-overlay", ov, "./" + os.path.dirname(m["file"])], 120)
            if rc:
                v = "invalid"
            else:
                rc, o = go(["unshare", "-n", "bash", "-c", "ip link set lo up; exec \"$@\"", "x", "go", "test", "-vet=off", "-count=1", "-failfast", "-overlay", ov, pkg], 60)
                if rc == 0:
                    rest = sorted(x for x in deps.get(pkg, ()) if x != pkg and "/examples" not in x)
                    if rest:
                        rc, o = go(["unshare", "-n", "bash", "-c", "ip link set lo up; exec \"$@\"", "x", "go", "test", "-vet=off", "-count=1", "-failfast", "-overlay", ov] + rest, 120)
                v = "killed" if rc else "survived"
            with lock:
                open(res, "a").write(json.dumps(dict(m, verdict=v, src=line(m))) + "\n")
        shutil.rmtree(w)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(int(os.environ.get("JOBS", "4")))]
    [t.start() for t in ts]
    [t.join() for t in ts]

CACHE = {}
CLOCK = threading.Lock()
class CRun(check.Run):
    def model(self, m):
        c = os.path.join(self.cdir, m["module"] + ".cases")
        with CLOCK:
            if not os.path.exists(c):
                o = super().model(m)
                open(c, "w").write(open(o).read() if o else "")
        return c if os.path.getsize(c) else None

def props(f):
    for k, v in MAP:
        if f.startswith(k):
            return v.split()
    return ["C20"]

def checks(d, filt):
    res = os.path.join(d, "checks.jsonl")
    done = set()
    if os.path.exists(res):
        done = {(r["file"], r["off"], r["end"], r["new"]) for r in map(json.loads, open(res))}
    seen, lines = set(), set()
    lock = threading.Lock()
    JOBS = int(os.environ.get("JOBS", "2"))
    CRun.cdir = os.path.join(d, "cases")
    os.makedirs(CRun.cdir, exist_ok=True)
    os.makedirs(check.BUILD, exist_ok=True)
    check.classes()
    q = queue.Queue()
    stop = os.path.join(d, "stop")
    def feed():
        n = 0
        for l in open(os.path.join(d, "tests.jsonl")):
            r = json.loads(l)
            k = (r["file"], r["off"], r["end"], r["new"])
            if r["verdict"] == "survived" and not os.environ.get("ALL"):   # one mutant of a line
                if (r["file"], r["line"]) in lines and k not in seen:
                    continue
                lines.add((r["file"], r["line"]))
            if r["verdict"] == "survived" and k not in done and k not in seen and (not filt or any(x in r["file"] for x in filt)):
                seen.add(k)
                q.put(r)
                n += 1
        return n
    feed()
    def work(i):
        copy = "/tmp/camp-repo-%d" % i
        while not os.path.exists(stop):
            try:
                m = q.get_nowait()
            except queue.Empty:
                with lock:
                    if not feed():
                        break
                continue
            shutil.rmtree(copy, ignore_errors=True)
            subprocess.run(["cp", "-a", REPO, copy])
            open(os.path.join(copy, m["file"]), "wb").write(text(m))
            env = dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick")
            v, tried = "MISSED", []
            for p in props(m["file"]):
                e = subprocess.run([sys.executable, __file__, "one", d, p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                tried.append("%s:%d" % (p, e.returncode))
                o = e.stdout.decode("utf-8", "replace")
                if e.returncode == 1:
                    v = "caught " + p
                    break
                if e.returncode != 0:
                    v = "BROKE " + p + " " + o[-1500:]
            with lock:
                open(res, "a").write(json.dumps(dict(m, verdict=v, tried=tried)) + "\n")
        shutil.rmtree(copy, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(JOBS)]
    [t.start() for t in ts]
    [t.join() for t in ts]

def one(d, p):
    CRun.cdir = os.path.join(d, "cases")
    r = CRun(p, "quick", 1, None)
    try:
        r.run()
        rc = 1 if r.viol else 0
        if r.viol:
            print(r.viol[0]["where"], r.viol[0]["detail"][:500])
    except check.CheckError as e:
        rc = 1 if r.viol else 3
        print(e)
    finally:
        shutil.rmtree(r.work, ignore_errors=True)
    return rc

if __name__ == "__main__":
    d = sys.argv[2]
    os.makedirs(d, exist_ok=True)
    if sys.argv[1] == "one":
        sys.exit(one(d, sys.argv[3]))
    {"tests": tests, "checks": checks}[sys.argv[1]](d, sys.argv[3:])

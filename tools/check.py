#!/usr/bin/env python3
"""check.py ID quick|thorough      decide one property on /repo's working tree
check.py ID replay FILE         run one saved case
Exit 0: held on everything explored. 1: violation. 2: the check itself could not decide."""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.dont_write_bytecode = True
from props import PROPS

ASSUME = ["the simulated mysqld, Kubernetes API and object stores behave as DESIGN.md describes",
          "generated cases sample the space; absence of a failing case is not a proof"]
HANG = 300.0


def goenv(extra=None):
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            env[k.decode()] = v.decode()
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off")
    env.update(extra or {})
    return env


def build(prop, bdir):
    pkg = prop["test"].split("/")[0]
    env = goenv(dict(VERIF_BUILD=bdir))
    subprocess.run(["bash", os.path.join(ROOT, "tools", "gomod.sh")], env=env, check=True)
    out = os.path.join(bdir, pkg + ".test")
    r = subprocess.run(["go", "test", "-modfile=" + os.path.join(bdir, "go.mod"), "-vet=off", "-c", "-o", out, "./" + pkg],
                       cwd=os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        print("CHECK-ERROR: the harness does not compile against /repo")
        sys.exit(2)
    return out


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except Exception:
        return None


def main():
    if len(sys.argv) < 3:
        print(__doc__)
        sys.exit(2)
    pid, tier = sys.argv[1], sys.argv[2]
    prop = {p["id"]: p for p in PROPS}[pid]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    bdir = os.path.join(ROOT, ".build", "%s.%d" % (pid, os.getpid()))
    os.makedirs(bdir, exist_ok=True)
    try:
        sys.exit(run(pid, tier, prop, t0, seed, bdir))
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def run(pid, tier, prop, t0, seed, bdir):
    binary = build(prop, bdir)
    test = prop["test"].split("/")[1]
    cwd = os.path.join(ROOT, "harness", prop["test"].split("/")[0])
    if tier == "replay":
        env = goenv(dict(VERIF_REPLAY=os.path.abspath(sys.argv[3]), GOMAXPROCS="1", VERIF_OUT=bdir, VERIF_TIER="quick"))
        r = subprocess.run([binary, "-test.run", "^%s$" % test, "-test.v"], cwd=cwd, env=env)
        return 1 if r.returncode else 0
    budget = float(prop.get("thorough_s", 600) if tier == "thorough" else prop.get("quick_s", 30))
    nshard = int(prop.get("shards", 8))
    procs = []
    for i in range(nshard):
        out = os.path.join(bdir, "shard%d" % i)
        os.makedirs(out)
        tmp = os.path.join(out, "tmp")
        os.makedirs(tmp)
        env = goenv(dict(VERIF_OUT=out, TMPDIR=tmp, VERIF_BUDGET="%gs" % budget, VERIF_TIER=tier, VERIF_SHARD=str(i), VERIF_SHARDS=str(nshard),
                         VERIF_RSEED=str(seed * 1000003 + i * 7919 + 1), GOMAXPROCS=str(prop.get("maxprocs", 1)), GOGC="400", GOTRACEBACK="all"))
        if prop.get("cases"):
            env["VERIF_CASES"] = str(prop["cases"] * (20 if tier == "thorough" else 1))
        log = open(os.path.join(out, "log"), "wb")
        p = subprocess.Popen([binary, "-test.run", "^%s$" % test, "-test.timeout", "0"], cwd=cwd, env=env,
                             stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        procs.append([p, out, i])
    hung = None
    deadline = time.time() + budget + HANG + 60
    while True:
        alive = [x for x in procs if x[0].poll() is None]
        if not alive:
            break
        failed = [x for x in procs if x[0].poll() not in (None, 0)]
        if failed:
            # one shard has its answer: stop the others
            time.sleep(0.5)
            for x in alive:
                kill(x[0])
            break
        for x in alive:
            cur = os.path.join(x[1], "current.json")
            try:
                age = time.time() - os.stat(cur).st_mtime
            except OSError:
                age = 0
            if age > HANG:
                hung = x
        if hung or time.time() > deadline:
            if hung:
                os.kill(hung[0].pid, signal.SIGQUIT)
                time.sleep(2)
            for x in alive:
                kill(x[0])
            break
        time.sleep(0.2)
    for x in procs:
        x[0].wait()
    # merge
    ev = dict(evaluations=0)
    hashes, classes, known, samples, inconclusive, ninc = set(), {}, {}, [], "", 0
    viol, plan, vshard = None, None, None
    for p, out, i in procs:
        d = load(os.path.join(out, "shard.json"))
        if not d:
            continue
        ev["evaluations"] += d["evaluations"]
        hashes.update(d["hashes"])
        ninc += d.get("inconclusive_n", 0)
        inconclusive = inconclusive or d.get("inconclusive", "")
        for k, v in (d.get("classes") or {}).items():
            classes[k] = classes.get(k, 0) + v
        for k, v in (d.get("known") or {}).items():
            known[k] = known.get(k, 0) + v
        if len(samples) < 3:
            samples += (d.get("samples") or [])[:1]
        if d.get("violation") and viol is None:
            viol, plan, vshard = d["violation"], d.get("plan"), i
    problem = None
    if viol is None:
        for p, out, i in procs:
            if p.returncode in (0, None) or p.returncode in (-signal.SIGKILL, -signal.SIGTERM):
                continue
            with open(os.path.join(out, "log"), "rb") as f:
                log = f.read().decode("utf-8", "replace")
            cur = load(os.path.join(out, "current.json"))
            if cur is not None and hung is not None and hung[0] is p:
                viol, plan, vshard = "a single case does not end (hang)\n" + log[-6000:], cur, i
            elif cur is not None and ("panic:" in log or "fatal error:" in log) and "github.com/cybozu-go/moco" in crash_stack(log):
                k = max(log.find("panic:"), 0)
                if "panic:" not in log:
                    k = max(log.find("fatal error:"), 0)
                viol, plan, vshard = "the code under test panicked\n" + log[k:k + 6000], cur, i
            else:
                problem = problem or log[-4000:]
    listed = {}
    for e in (load(os.path.join(ROOT, "known_findings.json")) or {}).get("findings", []):
        if e["property"] == pid:
            listed[e["id"]] = e["what"]
    for k in known:
        if k not in listed and viol is None:
            viol, plan, vshard = "a case ran into the unlisted finding %s" % k, None, 0
    cov = dict(evaluations=ev["evaluations"], distinct_nontrivial=len(hashes), rule=prop.get("rule") or "see DESIGN.md", samples=samples, classes=classes)
    if ninc:
        cov["inconclusive"] = ninc
    if known:
        cov["known_findings_hit"] = known
    e = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=prop.get("level", "exploration"), coverage=cov,
             assumptions=prop.get("assume", ASSUME), wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s (classes: %s)" % (pid, tier, cov["evaluations"], len(hashes), e["wall_s"],
          ", ".join("%s=%d" % kv for kv in sorted(classes.items()))))
    for k, what in sorted(listed.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if viol:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        rep = os.path.join(ROOT, "replays", "%s-%s.json" % (pid, hashlib.sha1((json.dumps(plan, sort_keys=True) + str(vshard)).encode()).hexdigest()[:10]))
        with open(rep, "w") as f:
            json.dump(dict(property=pid, test=prop["test"], seed=seed, shard=vshard, violation=viol, plan=plan,
                           how="python3 tools/check.py %s replay %s" % (pid, rep)), f, indent=1)
        print(viol[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if problem:
        print(problem)
        print("CHECK-ERROR: a shard failed without a verdict")
        return 2
    if cov["evaluations"] == 0 or ninc > cov["evaluations"] // 2:
        print("CHECK-ERROR: no verdict: %s" % (inconclusive or "no cases ran"))
        return 2
    return 0


def crash_stack(log):
    """The stack of the goroutine that crashed."""
    m = re.search(r"goroutine \d+ \[running.*?(?:\n\n|\Z)", log, re.S)
    return m.group(0) if m else log


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


main()

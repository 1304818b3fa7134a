#!/usr/bin/env python3
"""C33: the workloads of all properties under AddressSanitizer/LeakSanitizer, ThreadSanitizer and
valgrind memcheck, and the concurrent workload (props/race.rs) in a plain build.
The reports of the sanitizers decide; what the monitors of the other properties say is left to them.
usage: c33.py quick|thorough SEED [--only CASE]"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
tier, seed = sys.argv[1], int(sys.argv[2])
extra = sys.argv[3:]
t0 = time.time()
EVID = os.path.join(HERE, "evidence", "C33.json")
REPLAY = os.path.join(HERE, "evidence", "replay")
KNOWN = os.path.join(HERE, "known_findings.json")
T = os.path.join(HERE, "harness", "target")
BIN = dict(plain=f"{T}/plain/debug/monitor", asan=f"{T}/asan/x86_64-unknown-linux-gnu/debug/monitor",
           tsan=f"{T}/tsan/x86_64-unknown-linux-gnu/debug/monitor")
os.makedirs(REPLAY, exist_ok=True)

# cases of each property per sanitizer at tier quick: about the same time each
ASAN = dict(C01=1500, C02=900, C03=1500, C04=3000, C05=120, C06=1200, C07=6000, C08=6000, C09=4000, C10=4000,
            C11=1200, C12=60, C13=5000, C14=4000, C15=8000, C16=8000, C17=300, C18=80, C19=60, C20=4000, C21=4000,
            C22=2000, C23=2400, C24=1500, C25=8000, C26=600, C27=200, C28=80, C29=64, C30=2000, C31=100, C33=120, C34=300,
            C35=120, C36=120)
TSAN = dict(C17=300, C18=30, C19=60, C27=200, C28=80, C33=160, C31=60, C30=600, C36=60)
VG = dict(C01=24, C02=12, C05=9, C11=24, C15=60, C17=12, C20=60, C22=40, C23=40, C28=8, C33=12, C34=16, C35=8, C36=8)
FACTOR = 1 if tier == "quick" else 12
LIMIT = 420 if tier == "quick" else 3600

def listed():
    """how many cases a property has, to turn counts into --scale"""
    r = subprocess.run([BIN["plain"], "list"], capture_output=True, text=True)
    return {l.split()[0]: int(l.split()[1]) for l in r.stdout.splitlines() if l.startswith("C")}

def run(job):
    tool, prop, n, shard, shards, scratch = job
    tag = f"{tool}-{prop}-{shard}"
    log, out = f"{scratch}/log-{tag}", f"{scratch}/{tag}.json"
    d = f"{scratch}/d-{tag}"
    os.makedirs(d)
    quick = COUNTS[prop]
    cmd = [BIN["plain" if tool == "memcheck" else tool], prop, "--tier", "quick", "--seed", str(seed), "--worker", f"{shard}/{shards}",
           "--from", "0", "--scale", repr((n + 0.5) / quick), "--out", out, "--scratch", d]
    env = dict(os.environ, TMPDIR=d, MONITOR_SANITIZED=tool)
    sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""
    if tool == "asan":
        env["ASAN_OPTIONS"] = f"log_path={log}:detect_leaks=1:detect_stack_use_after_return=1:exitcode=66:external_symbolizer_path={sym}"
        env["LSAN_OPTIONS"] = "exitcode=66"
    elif tool == "tsan":
        env["TSAN_OPTIONS"] = f"log_path={log}:halt_on_error=0:exitcode=66:external_symbolizer_path={sym}"
    elif tool == "memcheck":
        cmd = ["valgrind", "-q", "--error-exitcode=66", "--leak-check=no", f"--log-file={log}.%p", "--num-callers=24"] + cmd
    t = time.time()
    try:
        p = subprocess.run(cmd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=LIMIT)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    text = ""
    for f in sorted(os.listdir(scratch)):
        if f.startswith(f"log-{tag}."):
            text += open(os.path.join(scratch, f), errors="replace").read()
    try:
        res = json.load(open(out))
    except Exception:
        res = None
    shutil.rmtree(d, ignore_errors=True)
    return dict(job=job[:5], rc=rc, text=text, res=res, wall=time.time() - t, cmd=cmd)

def reports(tool, text):
    """the reports in a sanitizer log, one string each"""
    if tool in ("asan", "tsan"):
        parts = re.split(r"(?m)^(?==+\d+==ERROR: |WARNING: ThreadSanitizer|==\d+==ERROR: )", text)
        return [p.strip() for p in parts if re.search(r"(ERROR: (Address|Leak)Sanitizer|WARNING: ThreadSanitizer)", p)]
    blocks, cur = [], []
    for l in text.splitlines():
        body = re.sub(r"^==\d+== ?", "", l)
        if not body.strip():
            if cur: blocks.append("\n".join(cur))
            cur = []
        else:
            cur.append(body)
    if cur: blocks.append("\n".join(cur))
    pat = r"Invalid (read|write|free)|uninitialised|Mismatched free|overlap in|points to un|Process terminating|Jump to the invalid"
    return [b for b in blocks if re.search(pat, b)]

def signature(tool, rep):
    """kind of report and the library functions on its stacks, without line numbers"""
    head = re.search(r"(?:ERROR|WARNING): (\w+Sanitizer: [\w -]+)", rep)
    head = head.group(1).strip() if head else rep.splitlines()[0]
    head = re.sub(r"\b(on|of|at|in|from) (unknown )?address.*|\(pid.*|0x[0-9a-f]+.*|\d+ byte.*", "", head).strip()
    fr = []
    for m in re.finditer(r"(?:#\d+ |at 0x[0-9A-F]+: |by 0x[0-9A-F]+: )(?:0x[0-9a-f]+ in )?([^\n]*)", rep):
        if "/repo/src" in m.group(1) or "llamapun" in m.group(1):
            f = re.sub(r"\s*[(/].*", "", m.group(1))
            if f not in fr: fr.append(f)
    return f"{tool}: {head} | " + " < ".join(fr[:4])

def finish(code): 
    shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)

b = subprocess.run(["bash", os.path.join(HERE, "build.sh"), "plain"], text=True)
if b.returncode: sys.exit(2)
scratch = tempfile.mkdtemp(prefix="llamapun-c33.", dir="/tmp")

# 1. the concurrent workload, uninstrumented: results must be those of one thread
plain_ev = f"{scratch}/plain.json"
p = subprocess.run([BIN["plain"], "C33", "--tier", tier, "--seed", str(seed), "--evidence", plain_ev, "--replay-dir", REPLAY,
                    "--known", KNOWN, "--scratch", scratch] + extra, env=dict(os.environ, TMPDIR=scratch))
plain = json.load(open(plain_ev)) if os.path.exists(plain_ev) else dict(coverage={})
if extra: finish(p.returncode)
cov = plain["coverage"]

# 2. instrumented builds
jobs, bad_build = [], []
if p.returncode == 0:
    for kind in ("asan", "tsan"):
        b = subprocess.run(["bash", os.path.join(HERE, "build.sh"), kind], text=True)
        if b.returncode: bad_build.append(kind)
    COUNTS = listed()
    def add(tool, table, shards_of):
        for prop, n in table.items():
            k = shards_of(prop)
            for s in range(k): jobs.append((tool, prop, n * FACTOR, s, k, scratch))
    add("memcheck", VG, lambda p: 1 if tier == "quick" else 2)
    if "tsan" not in bad_build: add("tsan", TSAN, lambda p: 2 if p in ("C33", "C18") else 1)
    if "asan" not in bad_build: add("asan", ASAN, lambda p: 2)
results = []
if jobs:
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        results = list(ex.map(run, jobs))

known = {}
try:
    for f in json.load(open(KNOWN)).get("findings", []):
        if f.get("property") == "C33": known[f["key"]] = f["what"]
except FileNotFoundError:
    pass
fresh, hits, incon, tools = {}, set(), [], {}
for r in results:
    tool, prop = r["job"][0], r["job"][1]
    t = tools.setdefault(tool, dict(runs=0, cases=0, evaluations=0, properties={}, reports=0))
    t["runs"] += 1
    if r["res"]:
        t["cases"] += r["res"]["cases"]; t["evaluations"] += r["res"]["evaluations"]
        t["properties"][prop] = t["properties"].get(prop, 0) + r["res"]["cases"]
    reps = reports(tool, r["text"])
    t["reports"] += len(reps)
    for rep in reps:
        s = signature(tool, rep)
        if s in known: hits.add(s)
        elif s not in fresh: fresh[s] = (r, rep)
    if not reps and (r["rc"] != 0 or not r["res"]):
        incon.append(f"{tool} {prop}: ended with {r['rc']} and no report")
for k in bad_build: incon.append(f"the {k} build failed")

cov["rule"] = "one case = a generated document set, rule file or word list processed with the sanitizer watching (or, in the plain build, by several threads at once); " + str(cov.get("rule", ""))
cov["evaluations"] = cov.get("evaluations", 0) + sum(t["cases"] for t in tools.values())
cov["instrumented"] = tools
cov["sanitizer_inconclusive"] = incon
cov["reports_by_signature"] = sorted(fresh)
n = len(fresh) + plain.get("violations", 0)
ev = dict(property="C33", tier=tier, seed=seed, level="exploration", coverage=cov,
          assumptions=["libxml2 itself is not instrumented by AddressSanitizer and ThreadSanitizer (its allocations are intercepted; memcheck sees its accesses)",
                       "stand-ins replace crates that cannot be fetched offline; the unsafe code of those crates is not observed"],
          wall_s=round(time.time() - t0, 3), violations=n)
os.makedirs(os.path.dirname(EVID), exist_ok=True)
json.dump(ev, open(EVID, "w"), indent=1)
for s in sorted(hits): print(f"KNOWN-FINDING: property=C33 {known[s]}")
for k, t in tools.items():
    print(f"C33 {k}: {t['runs']} runs, {t['cases']} cases of {len(t['properties'])} properties, {t['reports']} reports")
if p.returncode == 1: finish(1)
if fresh:
    s, (r, rep) = sorted(fresh.items())[0]
    path = os.path.join(REPLAY, f"C33-{seed}-{r['job'][0]}-{r['job'][1]}.json")
    json.dump(dict(property="C33", tier=tier, seed=seed, signature=s, command=r["cmd"], report=rep[:20000], others=sorted(fresh)[1:20]), open(path, "w"), indent=1)
    print(rep[:1500])
    print(f"VIOLATION property=C33 replay={path}")
    finish(1)
if p.returncode or incon:
    for i in incon[:6]: print("C33: inconclusive:", i)
    print("C33: no verdict")
    finish(3)
finish(0)

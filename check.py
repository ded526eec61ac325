#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: decides a property of hedzr/store.

TLC generates behaviours of the specification in spec/ (exhaustively up to a
depth over small pools of keys, and at random over larger ones), checking the
laws on the way; the Go harness replays them against /repo's current tree and
compares every answer.  See DESIGN.md.

exit 0: held; 1: violated (VIOLATION line); 2: the check itself failed.
"""
import sys, os, json, subprocess, tempfile, shutil, time, hashlib, re, random
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
NCPU = 8

from profiles import CHECKS

class Infra(Exception):
    pass

def run(cmd, env=None, cwd=None, timeout=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra(f"timeout: {' '.join(cmd)[:200]}")

def go_env(scratch):
    return dict(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOWORK=f"{scratch}/go.work", GOSUMDB="off")

def build(scratch):
    """Builds the harness against the working tree of /repo."""
    uses, inside = [], False
    for line in open(f"{REPO}/go.work"):
        line = line.split("//")[0].strip()
        if line.startswith("use ("): inside = True
        elif inside and line == ")": inside = False
        elif inside and line: uses.append(line)
        elif line.startswith("use "): uses.append(line[4:].strip())
    with open(f"{scratch}/go.work", "w") as f:
        f.write("go 1.26\nuse (\n\t%s/harness\n" % HERE)
        for u in uses:
            f.write("\t" + os.path.normpath(os.path.join(REPO, u)) + "\n")
        f.write(")\n")
    if os.path.exists(f"{REPO}/go.work.sum"):
        shutil.copy(f"{REPO}/go.work.sum", f"{scratch}/go.work.sum")
    r = run(["go", "test", "-c", "-o", f"{scratch}/check.test", "."], env=go_env(scratch), cwd=f"{HERE}/harness", timeout=600)
    if r.returncode != 0:
        raise Infra("the harness does not build:\n" + r.stdout[-4000:])

def tlc(scratch, job, n, module="Gen"):
    """One TLC run; returns statistics."""
    d = f"{scratch}/tlc{n}"
    shutil.copytree(f"{HERE}/spec", d)
    out = f"{scratch}/hist{n}.jsonl"
    env = dict(VP_PROF=job["prof"], VP_GEN=job["gen"], VP_POOL=str(job["pool"]), VP_DEPTH=str(job["depth"]),
               VP_PART=str(job.get("part", 0)), VP_NPART=str(job.get("nparts", 1)), VP_HIST=out)
    env.update(job.get("env", {}))
    if os.path.exists(out):
        os.remove(out)
    cmd = ["java", "-Xmx%s" % job.get("mem", "3g"), "-Xss64m", f"-Djava.io.tmpdir={d}", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=%d" % job.get("tier", 4),
           "-cp", CP, "tlc2.TLC", "-workers", "1", "-metadir", f"{d}/states", "-config", f"{job.get('module', module)}.cfg"]
    if job["gen"] == "sim":
        cmd += ["-simulate", f"num={job['num']}", "-depth", str(3 * job["depth"] + 40), "-seed", str(job["seed"])]
    cmd += [f"{job.get('module', module)}.tla"]
    r = run(cmd, env=env, cwd=d, timeout=job.get("timeout", 600 if job["tier_"] == "quick" else 7200))
    shutil.rmtree(d)
    if r.returncode != 0:
        i = r.stdout.find("Error:")
        raise Infra(f"TLC failed ({r.returncode}) for {job}:\n" + (r.stdout[i:i + 1500] + "\n...\n" if i >= 0 else "") + r.stdout[-1500:])
    m = re.search(r"(\d+) states generated, (\d+) distinct", r.stdout)
    if m:
        states, trans = int(m.group(2)), int(m.group(1))
    else:
        m = re.search(r"(\d+) states checked", r.stdout.replace(",", ""))
        states = trans = int(m.group(1)) if m else 0
    return dict(out=out, states=states, transitions=trans)

def harness(scratch, mode, files, env, timeout=1800):
    rep = f"{scratch}/report{os.getpid()}_{random.random()}.json"
    e = dict(VP_MODE=mode, VP_FILES=",".join(files), VP_OUT=rep)
    e.update(env)
    r = run([f"{scratch}/check.test", "-test.run", "^TestRe%s$" % mode[2:], "-test.timeout", "0"], env=e, cwd=scratch, timeout=timeout)
    if not os.path.exists(rep):
        # the process died: a fatal error of the Go runtime, for instance
        return dict(histories=0, steps=0, failures=None, crashed=r.stdout[-6000:], infra="")
    with open(rep) as f:
        x = json.load(f)
    os.remove(rep)
    x["failures"] = x.get("failures") or []
    return x

def traces(prop, tier, seed, chk, scratch, env, tot):
    """Records long executions of the real code and validates them with TLC."""
    files, runs, length = chk["trace"][tier]
    names = [f"{scratch}/trace{i}.jsonl" for i in range(files)]
    h = hashlib.sha256(f"{prop}/{tier}/{seed}".encode()).digest()
    e = dict(env, VP_PROF=prop, VP_SEED=str(int.from_bytes(h[:4], "big") * 100), VP_RUNS=str(runs), VP_LEN=str(length))
    rep = harness(scratch, "record", names, e)
    if rep["failures"] is None:
        again = harness(scratch, "record", names, dict(e, VP_FLUSH="1"))
        if again["failures"] is not None:
            raise Infra("recording died, but not reproducibly:\n" + rep["crashed"])
        last = [n for n in names if os.path.exists(n)][-1]
        steps = []
        for line in open(last):
            x = json.loads(line)
            if x["c"]["op"] == "reset":
                steps = []
            elif "pending" in x["r"]:
                steps.append(dict(c=x["c"], r={}))
            else:
                steps[-1]["r"] = x["r"]
        return [dict(history=dict(h=steps, p=[]), where=f"call {len(steps)}", diff="the process dies: " + again["crashed"][-1500:], got={})]
    if rep.get("infra"):
        raise Infra(rep["infra"])
    if rep["failures"]:
        return rep["failures"]
    failures = []
    def one(i):
        job = dict(prof=prop, gen="trace", pool=0, depth=length, tier_=tier, module="Trace", env=dict(VP_TRACE=names[i], VP_ONLY=chk.get("only", "*")))
        s = tlc(scratch, job, f"t{i}")
        out = []
        for line in open(s["out"]):
            x = json.loads(line)
            out.append(json.loads(x) if isinstance(x, str) else x)
        return s, out
    with ThreadPoolExecutor(NCPU) as ex:
        for i, (s, out) in enumerate(ex.map(one, range(files))):
            tot["states"] += s["states"]
            tot["transitions"] += s["transitions"]
            done = [x for x in out if x["what"] == "compared"]
            if len(done) != 1:
                raise Infra("a trace was not validated to its end")
            tot["trace_calls_validated"] = tot.get("trace_calls_validated", 0) + done[0]["n"]
            tot["traces_cut"] = tot.get("traces_cut", 0) + len([x for x in out if x["what"] == "cut"])
            for x in out:
                if x["what"] != "differ" or len(failures) >= 3:
                    continue
                lines = [json.loads(l) for l in open(names[i]).readlines()[:x["line"]]]
                a = max(j for j, l in enumerate(lines) if l["c"]["op"] == "reset")
                steps, got = lines[a + 1:], lines[-1]["r"]
                steps[-1] = dict(c=lines[-1]["c"], r=x["r"])
                failures.append(dict(history=dict(h=steps, p=[]), where=f"call {len(steps)} of a recorded execution: " + json.dumps(x["c"], ensure_ascii=False),
                                     diff=f"the specification says {json.dumps(x['r'], ensure_ascii=False)}, the code {json.dumps(got, ensure_ascii=False)}", got=got))
            os.remove(names[i])
    tot["traces_recorded"] = files * runs
    return failures

def jobs_of(chk, tier, seed, prop):
    js = []
    for spec in chk[tier]:
        spec = dict(spec)
        spec.setdefault("prof", prop)
        spec["tier_"] = tier
        if spec["gen"] == "bfs":
            n = spec.pop("parts", 1)
            for i in range(n):
                js.append(dict(spec, part=i, nparts=n))
        else:
            n = spec.pop("runs", 1)
            for i in range(n):
                h = hashlib.sha256(f"{prop}/{tier}/{seed}/{spec['pool']}/{i}".encode()).digest()
                js.append(dict(spec, seed=int.from_bytes(h[:5], "big")))
    return js

def known():
    out = []
    for line in open(f"{HERE}/known-findings.jsonl"):
        line = line.strip()
        if line and not line.startswith("#") and not line.startswith("fixed:"):
            out.append(json.loads(line))
    return out

def is_known(prop, fl):
    key = json.dumps([s["c"] for s in fl["history"]["h"]], sort_keys=True, ensure_ascii=False)
    for k in known():
        if k["property"] == prop and k["calls"] == key and k["where"] == fl["where"]:
            return k
    return None

def main():
    if sys.argv[1] == "--setup":   # warms the build cache, nothing more
        scratch = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            build(scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return 0
    prop, tier = sys.argv[1], sys.argv[2]
    replay_file = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    chk = CHECKS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        return decide(prop, tier, seed, chk, scratch, t0, replay_file)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def decide(prop, tier, seed, chk, scratch, t0, replay_file):
    env = dict(VP_ONLY=chk.get("only", "*"), VP_BUBBLE="1" if chk.get("bubble") else "0", VP_SERIAL="1" if chk.get("serial") else "0")
    tot = dict(states=0, transitions=0, histories=0, steps=0)
    samples, failures = [], []
    if replay_file:
        build(scratch)
        with open(replay_file) as f:
            h = json.load(f)["history"]
        with open(f"{scratch}/one.jsonl", "w") as f:
            f.write(json.dumps(h) + "\n")
        rep = harness(scratch, "replay", [f"{scratch}/one.jsonl"], env)
        print(json.dumps(rep, ensure_ascii=False, indent=1)[:4000])
        return 1 if rep["failures"] or rep["failures"] is None else 0
    jobs = jobs_of(chk, tier, seed, prop)
    with ThreadPoolExecutor(NCPU) as ex:
        b = ex.submit(build, scratch)
        pending = [ex.submit(tlc, scratch, j, i) for i, j in enumerate(jobs)]
        b.result()
        batch, k = [], 0
        while k < len(pending) and not failures:
            batch = []
            while k < len(pending) and (len(batch) < NCPU):
                s = pending[k].result()
                k += 1
                tot["states"] += s["states"]
                tot["transitions"] += s["transitions"]
                if os.path.exists(s["out"]):
                    batch.append(s["out"])
                elif not chk.get("nohist"):
                    raise Infra("TLC wrote no behaviours")
            if not batch:
                continue
            rep = harness(scratch, "replay", batch, env)
            if rep["failures"] is None:
                rep = blame(scratch, batch, env, rep)
            if rep.get("infra"):
                raise Infra(rep["infra"])
            tot["histories"] += rep["histories"]
            tot["steps"] += rep["steps"]
            samples += rep.get("samples") or []
            failures += rep["failures"]
            for f in batch:
                os.remove(f)
        for p in pending[k:]:
            p.cancel()
    if not failures and chk.get("trace"):
        failures += traces(prop, tier, seed, chk, scratch, env, tot)
    if not failures and chk.get("extra"):
        from extra import EXTRA
        for fn in chk["extra"]:
            f, info = EXTRA[fn](prop, tier, seed, scratch, sys.modules[__name__])
            failures += f
            for a, v in info.items():
                tot[a] = tot.get(a, 0) + v
    new = []
    for fl in failures:
        kf = is_known(prop, fl)
        if kf:
            print(f"KNOWN-FINDING: property={prop} {kf['what']}")
        else:
            new.append(fl)
    evidence(prop, tier, seed, chk, tot, samples, len(new), time.time() - t0, jobs)
    if new:
        os.makedirs(f"{HERE}/replays", exist_ok=True)
        fl = min(new, key=lambda f: len((f.get("history") or {}).get("h") or []))
        name = f"{HERE}/replays/{prop}-{hashlib.sha256(json.dumps(fl['history'], sort_keys=True).encode()).hexdigest()[:12]}.json"
        with open(name, "w") as f:
            json.dump(fl, f, ensure_ascii=False, indent=1)
        print(f"{prop}: {fl['where']}: {fl['diff']}"[:2000])
        print(f"  to replay it: python3 {HERE}/check.py {prop} {tier} {name}")
        print(f"VIOLATION property={prop} replay={name}")
        return 1
    print(f"{prop} {tier}: held on {tot['histories']} behaviours ({tot['steps']} calls compared), {tot.get('traces_recorded', 0)} recorded executions ({tot.get('trace_calls_validated', 0)} calls validated), {tot['states']} states, {time.time()-t0:.1f} s")
    return 0

def blame(scratch, batch, env, rep):
    """The harness process died: find the history that kills it."""
    for f in batch:
        r = harness(scratch, "replay", [f], env)
        if r["failures"] is None:
            lines = open(f).readlines()
            lo, hi = 0, len(lines)       # bisect: the first prefix that dies
            def dies(part):
                p = f"{scratch}/part.jsonl"
                open(p, "w").writelines(part)
                return harness(scratch, "replay", [p], env)["failures"] is None
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if dies(lines[lo:mid]): hi = mid
                elif dies(lines[mid:hi]): lo = mid
                else: break
            if not dies(lines[lo:hi]):
                raise Infra("the harness died, but not reproducibly:\n" + rep["crashed"])
            x = json.loads(lines[lo])
            h = json.loads(x) if isinstance(x, str) else x
            return dict(histories=1, steps=0, infra="", failures=[dict(history=h, where="history", diff="the process dies: " + r["crashed"][-1500:], got={})])
    raise Infra("the harness died, but not reproducibly:\n" + rep["crashed"])

def evidence(prop, tier, seed, chk, tot, samples, violations, wall, jobs):
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    from evidence import record
    with open(f"{HERE}/evidence/{prop}.json", "w") as f:
        json.dump(record(prop, tier, seed, chk, tot, samples, violations, wall, jobs), f, indent=1, ensure_ascii=False)

if __name__ == "__main__":
    sys.path.insert(0, HERE)
    try:
        sys.exit(main())
    except Infra as e:
        print("CHECK FAILED:", e, file=sys.stderr)
        sys.exit(2)

#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]     run the check of a property
   run.py --replay <property> <file>             replay one recorded behaviour

The check of a property
  1. builds the replayer (harness/) against /repo/include as it is now, with
     address and undefined-behaviour sanitizers, while
  2. TLC explores the specification (spec/): it checks the laws of the property
     on every state it reaches and prints every step it takes, then
  3. replays every printed behaviour on the library and compares, after every
     step, every observable of every object with the state of the specification.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks as table

REPO = os.environ.get("MALG_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, min(8, os.cpu_count() or 2))
CXX = ["clang++", "-std=c++17", "-O0", "-g1", "-fsanitize=address,undefined",
       "-fno-sanitize-recover=undefined", "-I" + os.path.join(REPO, "include"),
       "-I" + os.path.join(HERE, "harness"), "-w"]
SAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:exitcode=99:detect_stack_use_after_return=1",
       "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98"}


class CheckError(Exception):
    """The check itself could not do its work (no verdict)."""


class Violation(Exception):
    def __init__(self, what, lines=None, kind="replay"):
        super().__init__(what)
        self.what, self.lines, self.kind = what, lines or [], kind


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        out = out if isinstance(out, str) else out.decode(errors="replace")
        return subprocess.CompletedProcess(cmd, -999, out + "\n(timeout)")


# ------------------------------------------------------------------ build ---
def build(units, work, log):
    """Compiles the replayer with the given translation units."""
    probe = os.path.join(work, "probe.cpp")
    with open(probe, "w") as f:
        f.write("#include <vector>\n#include <complex>\nint main(){std::vector<int> v(3);return (int)v.size()-3;}\n")
    objs = []

    def one(u):
        obj = os.path.join(work, u + ".o")
        objs.append(obj)
        r = run(CXX + ["-c", os.path.join(HERE, "harness", u + ".cpp"), "-o", obj], 600)
        return u, r

    units = sorted(units, key=lambda u: -os.path.getsize(os.path.join(HERE, "harness", u + ".cpp")))
    with ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(one, units))
    for u, r in res:
        if r.returncode != 0:
            t = run(CXX + [probe, "-o", os.path.join(work, "probe")], 300)
            if t.returncode != 0 or r.returncode == -999:
                raise CheckError("the compiler does not work:\n" + t.stdout + r.stdout[-2000:])
            raise Violation("a documented call does not compile any more (%s.cpp): %s" % (u, first_error(r.stdout)),
                            r.stdout.splitlines()[:200], "compile")
    exe = os.path.join(work, "replay")
    r = run(CXX + sorted(objs) + ["-o", exe], 300)
    if r.returncode != 0:
        raise Violation("the replayer does not link: " + first_error(r.stdout), r.stdout.splitlines()[:200], "compile")
    return exe


def first_error(txt):
    for l in txt.splitlines():
        if "error" in l or "undefined reference" in l or "multiple definition" in l:
            return l.strip()[:300]
    return txt.strip()[:300]


# -------------------------------------------------------------------- TLC ---
def tlc(job, work, idx, tier):
    """Runs TLC once; returns the printed records (strings) and statistics."""
    meta = tempfile.mkdtemp(prefix="tlc%d_" % idx, dir=work)
    config = os.path.join(HERE, "spec", "cfg", job["cfg"])
    if "config" in job:
        config = os.path.join(work, "%d_%s.cfg" % (idx, job["cfg"]))
        with open(config, "w") as f:
            f.write(job["config"])
    heap = job.get("heap", "1200m")
    cmd = ["java", "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(job.get("workers", 1)), "-metadir", meta, "-nowarning",
           "-config", config]
    if job["mode"] == "sim":
        cmd += ["-simulate", "num=%d" % job["num"], "-depth", str(job["depth"]), "-seed", str(job["seed"])]
    cmd.append(os.path.join(HERE, "spec", job.get("module", "Props.tla")))
    outf = os.path.join(meta, "out.txt")
    t0 = time.time()
    with open(outf, "w") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=meta)
        while p.poll() is None:
            try:
                p.wait(20)
            except subprocess.TimeoutExpired:
                why = "TLC did not finish" if time.time() - t0 > job.get("timeout", 800) else overflowed(outf)
                if why:
                    p.kill()
                    p.wait()
                    raise CheckError(why + ": " + " ".join(cmd))
    recs, other = [], []
    with open(outf, errors="replace") as f:
        for l in f:
            if l.startswith('"{') or l.startswith('"['):
                recs.append(json.loads(l))
            else:
                other.append(l)
    text = "".join(other)
    shutil.rmtree(meta, ignore_errors=True)
    if p.returncode != 0 or "Error:" in text:
        i = text.find("Error:")
        raise CheckError("TLC reports an error on the specification (%s, seed %s)\n%s" % (job["cfg"], job.get("seed"), text[max(0, i):i + 3000]))
    m = (re.findall(r"The number of states generated: ([\d,]+)", text) or re.findall(r"([\d,]+) states generated", text))
    states = int(m[-1].replace(",", "")) if m else 0
    d = re.findall(r"([\d,]+) distinct states found", text)
    return {"recs": recs, "states": states, "distinct": int(d[-1].replace(",", "")) if d else None,
            "wall": time.time() - t0, "cfg": job["cfg"], "mode": job["mode"]}


def overflowed(path):
    """TLC can hang after it ran out of stack."""
    with open(path, errors="replace") as f:
        for l in f:
            if "StackOverflowError" in l and not l.startswith('"'):
                return "TLC: " + l.strip()
    return None


def behaviours(recs, mode):
    """Splits printed records into behaviours (lists of record strings)."""
    bs = []
    for s in recs:
        if s.startswith("["):
            bs.append([json.dumps(r, separators=(",", ":")) for r in json.loads(s)])
            continue
        step = int(re.search(r'"step":(\d+)', s).group(1))
        if step == 1:
            bs.append([s])
        else:
            if not bs or int(re.search(r'"step":(\d+)', bs[-1][-1]).group(1)) != step - 1:
                raise CheckError("the printed steps do not form behaviours at: " + s[:300])
            bs[-1].append(s)
    return bs


# ----------------------------------------------------------------- replay ---
def replay(exe, bs, work, idx):
    path = os.path.join(work, "shard%d.jsonl" % idx)
    index = []
    with open(path, "w") as f:
        for b in bs:
            for k, l in enumerate(b):
                f.write(("@" if k == 0 else "") + l + "\n")
                index.append((b, k))
    env = dict(os.environ, HX_TRACE=os.path.join(work, "trace%d.ndjson" % idx), **SAN)
    scratch = tempfile.mkdtemp(prefix="cwd%d_" % idx, dir=work)
    r = run([exe, path], 700, env=env, cwd=scratch)
    shutil.rmtree(scratch, ignore_errors=True)
    os.unlink(path)
    if r.returncode == 0 and "\nOK " in "\n" + r.stdout:
        m = re.search(r"OK steps=(\d+) behaviours=(\d+) compared=(\d+) thrown=(\d+)", r.stdout)
        return tuple(int(x) for x in m.groups())
    if r.returncode == 3 or "HARNESS" in r.stdout:
        raise CheckError("replayer: " + r.stdout[-1500:])
    m = re.findall(r"(?:MISMATCH|DEATH) rec=(\d+)", r.stdout)
    n = int(m[0]) if m else 0
    lines = []
    if 1 <= n <= len(index):
        b, k = index[n - 1]
        lines = b[:k + 1]
    raise Violation(summary(r), lines)


def check_trace(path, module, work):
    """Checks a log of the replayer against a trace specification; returns the
    number of its lines."""
    meta = tempfile.mkdtemp(prefix="trace_", dir=work)
    r = run(["java", "-XX:+UseSerialGC", "-Xmx2g", "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", "1",
             "-metadir", meta, "-nowarning", "-config", os.path.join(HERE, "spec", "cfg", module + ".cfg"), os.path.join(HERE, "spec", module + ".tla")],
            700, env=dict(os.environ, TRACE=path), cwd=meta)
    shutil.rmtree(meta, ignore_errors=True)
    lines = [l.strip() for l in open(path)]
    if r.returncode == 0 and "No error has been found" in r.stdout:
        return len(lines)
    at = [int(x) for x in re.findall(r"^/\\ i = (\d+)", r.stdout, re.M)]
    if "Deadlock reached" in r.stdout and at:
        raise Violation("the recorded call is not one the specification allows (%s)" % module, [lines[at[-1] - 1]], "trace")
    if re.search(r"Invariant \w+ is violated", r.stdout):
        seen = r.stdout[r.stdout.rfind("seen ="):][:2000]
        raise Violation("the recorded calls together are not what the specification asks for (%s): %s" % (module, " ".join(seen.split())), lines, "trace")
    raise CheckError("TLC on the recorded trace:\n" + r.stdout[-2000:])


def summary(r):
    for pat in (r"MISMATCH rec=\d+ (.*)", r"(ERROR: AddressSanitizer: .*)", r"(.*runtime error: .*)", r"(SIGNAL .*)", r"(.*Assertion .*)"):
        m = re.search(pat, r.stdout)
        if m:
            return m.group(1)[:500]
    return "the program died (exit %d): %s" % (r.returncode, r.stdout[-400:].replace("\n", " | "))


# ------------------------------------------------------------------- main ---
def known_findings(pid):
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    for l in open(path) if os.path.exists(path) else []:
        m = re.match(r"known: property=(\w+) behaviour=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            out.append({"behaviour": os.path.join(HERE, m.group(2)), "what": m.group(3).strip()})
    return out


def main(argv):
    if argv and argv[0] == "--replay":
        return do_replay(argv[1], argv[2])
    pid = argv[0]
    tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = table.CHECKS[pid]
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "_", dir=os.path.join(HERE, "out"))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": {}, "violations": 0,
          "assumptions": table.ASSUMPTIONS + spec.get("assumptions", [])}
    rc = 3
    try:
        rc = check(pid, spec, tier, seed, work, ev)
    except Violation as v:
        rc = 1
        ev["violations"] = 1
        path = os.path.join(HERE, "out", "%s_%s_%d.%s" % (pid, tier, seed, "jsonl" if v.kind == "replay" else "log"))
        with open(path, "w") as f:
            f.write("# %s: %s\n" % (pid, v.what.replace("\n", " ")))
            for l in v.lines:
                f.write(l + "\n")
        print("%s: %s" % (pid, v.what))
        for l in v.lines[-3:]:
            print("    " + l[:600])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    except CheckError as e:
        print("ERROR %s: %s" % (pid, e))
        rc = 3
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev["wall_s"] = round(time.time() - t0, 2)
    c = ev["coverage"]
    for k in ("states", "transitions", "traces_validated_against_impl"):
        c.setdefault(k, 0)
    c.setdefault("samples", [])
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %s (%.1f s; %s states, %s steps replayed, %s behaviours)" %
          (pid, tier, seed, {0: "held", 1: "VIOLATED"}.get(rc, "no verdict"), ev["wall_s"], c["states"], c["transitions"],
           c["traces_validated_against_impl"]))
    return rc


def check(pid, spec, tier, seed, work, ev):
    jobs = table.jobs(pid, tier, seed, CORES)
    pool = ThreadPoolExecutor(CORES)
    bfut = ThreadPoolExecutor(1).submit(build, ["core"] + spec["units"], work, None)
    futs = [pool.submit(tlc, j, work, i, tier) for i, j in enumerate(jobs)]
    cov = ev["coverage"]
    cov.update({"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []})
    err, results = None, []
    for f in futs:
        try:
            results.append(f.result())
        except CheckError as e:
            err = err or e
    exe = bfut.result()  # a Violation of the build takes precedence
    if err:
        raise err
    bs, percfg, ops = [], {}, {}
    for r in results:
        b = behaviours(r["recs"], r["mode"])
        bs += b
        cov["states"] += r["states"]
        p = percfg.setdefault(r["cfg"], {"mode": r["mode"], "runs": 0, "states": 0, "behaviours": 0, "steps": 0})
        p["runs"] += 1
        p["states"] += r["states"]
        p["behaviours"] += len(b)
        p["steps"] += sum(len(x) for x in b)
        if r["distinct"] is not None:
            p["distinct_states"] = p.get("distinct_states", 0) + r["distinct"]
    for b in bs:
        for l in b:
            m = re.search(r'"op":"(\w+)"', l)
            ops[m.group(1)] = ops.get(m.group(1), 0) + 1
    if not bs:
        raise CheckError("the specification produced no behaviour")
    cov["configurations"] = percfg
    cov["steps_per_operation"] = dict(sorted(ops.items()))
    missing = [o for o in spec.get("expect_ops", []) if o not in ops]
    if missing:
        raise CheckError("never exercised: " + " ".join(missing))
    for b in (bs[0], bs[len(bs) // 2]):
        cov["samples"].append([json.loads(l) for l in b[:6]])
    shards = [[] for _ in range(CORES)]
    size = [0] * CORES
    for b in bs:
        i = size.index(min(size))
        shards[i].append(b)
        size[i] += len(b) + 2
    viol, err = None, None
    rf = [pool.submit(replay, exe, s, work, i) for i, s in enumerate(shards) if s]
    tot = [0, 0, 0, 0]
    for f in rf:
        try:
            tot = [x + y for x, y in zip(tot, f.result())]
        except Violation as v:
            viol = viol if viol and len(viol.lines) and len(viol.lines) <= len(v.lines) else v
        except CheckError as e:
            err = e
    cov["transitions"] = tot[0]
    cov["traces_validated_against_impl"] = tot[1]
    cov["object_states_compared"] = tot[2]
    cov["rejections_replayed"] = tot[3]
    if viol:
        raise viol
    if err:
        raise err
    for extra in spec.get("extra", []):
        getattr(table, extra)(sys.modules[__name__], pid, tier, seed, work, exe, ev)
    for e in known_findings(pid):
        lines = [l.strip() for l in open(e["behaviour"]) if l.startswith("{")]
        try:
            replay(exe, [lines], work, 99)
        except Violation as v:
            print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    return 0


def do_replay(pid, path):
    work = tempfile.mkdtemp(prefix="replay_", dir=os.path.join(HERE, "out"))
    try:
        exe = build(["core"] + table.CHECKS[pid]["units"], work, None)
        lines = [l.rstrip("\n").lstrip("@") for l in open(path) if l.strip() and not l.startswith("#")]
        print(replay(exe, behaviours(lines, "sim"), work, 0))
        return 0
    except Violation as v:
        print(v.what)
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

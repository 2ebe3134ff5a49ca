#!/usr/bin/env python3
"""Driver of the simulation checks:  check.py <property>        (VERIF_SEED, VERIF_TIER)
                                     check.py --replay FILE     (re-execute a replay file and print its event log)

Exit 0: the property held on every simulated run.  Exit 1 with a VIOLATION line: it is broken.  Exit 2: the check failed.
"""
import os, sys, subprocess, json, time, struct, shutil, re, tempfile, threading, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")
JOBS = min(8, os.cpu_count() or 8)
WALL_CAP = 420          # seconds of exploration, whatever the machine (quick)
sys.path.insert(0, VERIF)
from props import PROPS, COMPONENTS  # noqa


DROPPED = []            # build variants that did not compile


class CheckError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(pid):
    """Compile the harness from /repo's current tree: one executable per build variant."""
    p = PROPS[pid]
    d = os.path.join(BUILD, pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    jobs, outs = [], []
    for v in p["builds"]:
        exe = os.path.join(d, v["name"])
        outs.append((v["name"], exe))
        for step in v["steps"](SIM, REPO, d, exe):
            jobs.append(dict(step, exe=exe))
    # A build variant that one compiler rejects is left out (and named in the evidence) as long as enough others are built: an
    # executable, and at least "min_parts" of its parts (replicas).
    stages = sorted({j["stage"] for j in jobs})
    failed, parts = {}, {}
    for st in stages:
        todo = [j for j in jobs if j["stage"] == st and not (j["exe"] in failed and not j.get("part"))]
        with ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(lambda j: (j, run(j["cmd"])), todo))
        for j, r in rs:
            key = (j["exe"], j.get("part"))
            if r.returncode == 0:
                if j.get("part"):
                    parts[j["exe"]] = parts.get(j["exe"], 0) + 1
                continue
            msg = "build failed: %s\n%s" % (" ".join(j["cmd"]), r.stdout[-6000:])
            DROPPED.append("%s%s" % (os.path.basename(j["exe"]), "/" + j["part"] if j.get("part") else ""))
            if j.get("part"):
                failed.setdefault(key, msg)
            else:
                failed[j["exe"]] = msg
    kept = [(n, e) for n, e in outs if e not in failed and
            (e not in {j["exe"] for j in jobs if j.get("part")} or parts.get(e, 0) >= p.get("min_parts", 1))]
    if not kept:
        raise CheckError(next(iter(failed.values()), "nothing was built"))
    for n in DROPPED:
        print("%s: build %s does not compile and is left out" % (pid, n), flush=True)
    return kept


def sigclass(rc, state):
    import signal
    name = {signal.SIGPROF: "hang", signal.SIGABRT: "crash:SIGABRT", signal.SIGSEGV: "crash:SIGSEGV", signal.SIGFPE: "crash:SIGFPE",
            signal.SIGBUS: "crash:SIGBUS", signal.SIGILL: "crash:SIGILL", signal.SIGKILL: "killed"}.get(-rc, "crash:%d" % rc)
    return "%s@%s" % (name, state)


def read_state(path):
    try:
        b = open(path, "rb").read()
        seed, done = struct.unpack("<QQ", b[:16])
        return seed, done, b[16:].split(b"\0")[0].decode("latin1")
    except Exception:
        return 0, 0, "?"


def execute(pid, exe, script_lines, tmp, verbose=False, timeout=120):
    """One fresh process. Returns (class, hash, detail, log)."""
    f = os.path.join(tmp, "s%d.script" % threading.get_ident())
    st = f + ".state"
    with open(f, "w") as h:
        h.write("\n".join(script_lines) + "\n")
    if os.path.exists(st):
        os.unlink(st)
    cmd = [exe, PROPS[pid].get("mode", pid), "exec", f, st] + (["-v"] if verbose else [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=tmp)
    except subprocess.TimeoutExpired:
        return ("stall@" + read_state(st)[2], "-", "no progress (wall clock)", "")
    out = r.stdout.decode("latin1")
    if r.returncode < 0:
        return (sigclass(r.returncode, read_state(st)[2]), "-", "process died: " + sigclass(r.returncode, read_state(st)[2]), out)
    m = re.search(r"^RESULT\t(\w+)\t([^\t\n]*)\t(.*)$", out, re.M)
    if r.returncode != 0 or not m:
        raise CheckError("executor failed rc=%s out=%s err=%s" % (r.returncode, out[-500:], r.stderr.decode("latin1")[-500:]))
    return (m.group(2), m.group(1), m.group(3), out)


class Batch:
    def __init__(self, pid, name, exe, tmp):
        self.pid, self.name, self.exe, self.tmp = pid, name, exe, tmp
        self.viol, self.stats, self.hashes, self.runs, self.first, self.starts = [], {}, {}, 0, {}, []
        self.lock = threading.Lock()

    def go(self, start, count, limit):
        """Run seeds [start, start+count), surviving crashes of the process under test."""
        mode = PROPS[self.pid].get("mode", self.pid)
        t0 = time.time()
        pos, end, crashes = start, start + count, 0
        while pos < end and time.time() - t0 < limit:
            out = os.path.join(self.tmp, "%s.%d" % (self.name, pos))
            st = out + ".state"
            left = max(1.0, limit - (time.time() - t0))
            try:
                r = subprocess.run([self.exe, mode, "batch", str(pos), str(end - pos), out, st, "%.1f" % left],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=self.tmp, timeout=left + 300)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = None
            seed, done, op = read_state(st)
            v, s, ended = [], {}, False
            if os.path.exists(out):
                for ln in open(out, errors="replace"):
                    a = ln.rstrip("\n").split("\t")
                    if a[0] == "V":
                        v.append((int(a[1]), a[2], a[3] if len(a) > 3 else ""))
                    elif a[0] == "S":
                        s[a[1]] = int(a[2])
                    elif a[0] == "END":
                        ended = True
            recs = open(out + ".h", "rb").read() if os.path.exists(out + ".h") else b""
            with self.lock:
                self.viol += v
                self.starts.append(pos)
                self.first.update({x[0]: pos for x in v})
                for k, x in s.items():
                    self.stats[k] = self.stats.get(k, 0) + x
                n = len(recs) // 16
                for i in range(n):
                    self.hashes[pos + i] = struct.unpack_from("<QQ", recs, 16 * i)
                self.runs += n
            for q in (out, out + ".h", st):
                if os.path.exists(q):
                    os.unlink(q)
            if ended:
                break
            if rc is not None and rc >= 0:
                raise CheckError("batch process failed rc=%s: %s" % (rc, r.stderr.decode("latin1")[-2000:]))
            cls = "stall@" + op if rc is None else sigclass(rc, op)
            with self.lock:
                self.first[seed] = pos
                self.viol.append((seed, cls, "process died at seed %d: %s" % (seed, cls)))
                self.runs += 1
            crashes += 1
            if crashes >= 3:
                break
            pos = seed + 1


def join_runs(parts):
    r = []
    for i, q in enumerate(parts):
        if i:
            r.append("!!")
        r += q
    return r


def reproduce(pid, b, seed, cls, tmp):
    """Fresh-process re-execution, twice. Falls back to the runs that preceded this one in its process, for code under test
    that carries state from one run into the next. Returns (script, result) or None."""
    mode = PROPS[pid].get("mode", pid)

    def gen(s):
        return run([b.exe, mode, "gen", str(s)]).stdout.strip().split("\n")
    first = b.first.get(seed, seed)
    tried = set()
    for back in (0, 1, 8, 64, 512, 4096):
        s0 = max(first, seed - back)
        if s0 in tried:
            continue
        tried.add(s0)
        script = join_runs([gen(s) for s in range(s0, seed + 1)])
        r1 = execute(pid, b.exe, script, tmp)
        r2 = execute(pid, b.exe, script, tmp)
        if r1[:2] == r2[:2] and r1[0] != "ok" and (back or r1[0] == cls):
            return script, r1
        print("not reproduced from %d preceding runs: seed %d build %s: %r then %r then %r" % (seed - s0, seed, b.name, cls, r1[:3], r2[:3]))
    return None


def minimise(pid, exe, script, cls, tmp, budget):
    """ddmin over script lines, then shrink numbers; the violation class must persist."""
    t0 = time.time()
    n_exec = [0]

    def fails(lines):
        if time.time() - t0 > budget or n_exec[0] > 4000:
            return False
        n_exec[0] += 1
        try:
            return execute(pid, exe, lines, tmp)[0] == cls
        except CheckError:
            return False
    cur = list(script)
    if "!!" in cur:  # several runs of one process: drop whole runs first
        parts, one = [], []
        for l in cur + ["!!"]:
            if l == "!!":
                parts.append(one)
                one = []
            else:
                one.append(l)
        step = max(1, (len(parts) - 1) // 2)
        while step >= 1:
            i = 0
            while i < len(parts) - 1:
                cand = parts[:i] + parts[min(i + step, len(parts) - 1):]
                if fails(join_runs(cand)):
                    parts = cand
                else:
                    i += step
            step //= 2
        cur = join_runs(parts)
    chunk = max(1, len(cur) // 2)
    while chunk >= 1:
        i, changed = 0, False
        while i < len(cur):
            if all(l.startswith("!") for l in cur[i:i + chunk]):
                i += chunk
                continue
            cand = cur[:i] + [l for l in cur[i:i + chunk] if l.startswith("!")] + cur[i + chunk:]
            if len(cand) < len(cur) and fails(cand):
                cur, changed = cand, True
            else:
                i += chunk
        if chunk == 1 and not changed:
            break
        chunk = chunk if (chunk == 1 and changed) else max(1, chunk // 2) if chunk > 1 else 0
    # header lines that are not needed
    for i in range(len(cur) - 1, -1, -1):
        if cur[i].startswith("!"):
            cand = cur[:i] + cur[i + 1:]
            if fails(cand):
                cur = cand
    # shrink integer tokens
    for i in range(len(cur)):
        toks = cur[i].split(" ")
        for k in range(1, len(toks)):
            if re.fullmatch(r"-?\d+", toks[k]) and abs(int(toks[k])) > 1:
                v = int(toks[k])
                for nv in (0, 1, v // 16, v // 2, v - 1 if v > 0 else v + 1):
                    if abs(nv) < abs(v):
                        cand = list(cur)
                        t2 = list(toks)
                        t2[k] = str(nv)
                        cand[i] = " ".join(t2)
                        if fails(cand):
                            cur, toks, v = cand, t2, nv
            elif len(toks[k]) > 4 and "%" not in toks[k] and toks[0] in ("D", "B", "T"):
                s = toks[k]
                j = 0
                while j < len(s) and len(s) > 1:
                    cand = list(cur)
                    t2 = list(toks)
                    t2[k] = s[:j] + s[j + 1:]
                    cand[i] = " ".join(t2)
                    if fails(cand):
                        cur, toks, s = cand, t2, t2[k]
                    else:
                        j += 1
    return cur, n_exec[0]


def known_findings(pid):
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=\"([^\"]*)\" (.*)", ln)
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3), m.group(4).strip()))
    return r


def check(pid):
    t_begin = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    vseed = int(os.environ.get("VERIF_SEED", "1") or "1")
    p = PROPS[pid]
    print("%s: seed %d tier %s" % (pid, vseed, tier), flush=True)
    outs = build(pid)
    t_build = time.time() - t_begin
    tmp = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        return explore(pid, p, tier, vseed, outs, tmp, t_begin, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def explore(pid, p, tier, vseed, outs, tmp, t_begin, t_build):
    base = (vseed & 0xFFFFFF) << 36
    total = p["runs"][tier]
    cap = WALL_CAP if tier == "quick" else int(os.environ.get("VERIF_THOROUGH_SECONDS", "1500"))
    batches = []
    jobs = []
    per = total // len(outs)
    nw = max(1, JOBS // len(outs))
    t0 = time.time()
    for vi, (name, exe) in enumerate(outs):
        b = Batch(pid, name, exe, tmp)
        batches.append(b)
        share = per // nw + 1
        for w in range(nw):
            # half of the seeds are shared between build variants, half are their own
            off = w * share + (0 if w % 2 == 0 else (vi + 1) * (1 << 30))
            jobs.append((b, base + off, share))
    with ThreadPoolExecutor(len(jobs)) as ex:
        for f in [ex.submit(b.go, s, n, cap) for b, s, n in jobs]:
            f.result()
    wall_explore = time.time() - t0
    runs = sum(b.runs for b in batches)
    # determinism: the same seeds again, in other processes. From the start of a batch every log must be the same. From the
    # middle it is compared too, but code under test may keep harmless caches (buffers, tables) across runs of one process.
    re_n, re_bad, hist_n, hist_bad = 0, [], 0, []
    sample = p.get("recheck", 400)
    for b in batches:
        seeds = sorted(b.hashes)
        if not seeds:
            continue
        starts = sorted(set(b.starts))
        for part in range(2):
            s0 = starts[(part * (len(starts) - 1)) % len(starts)]
            b2 = Batch(pid, b.name + "-re", b.exe, tmp)
            b2.go(s0, sample // 4, 120)
            for s, h in b2.hashes.items():
                if s in b.hashes:
                    re_n += 1
                    if b.hashes[s] != h:
                        re_bad.append((b.name, s))
            s0 = seeds[(len(seeds) // 3) * (part + 1) - 1]
            b2 = Batch(pid, b.name + "-re", b.exe, tmp)
            b2.go(s0, sample // 4, 120)
            for s, h in b2.hashes.items():
                if s in b.hashes:
                    hist_n += 1
                    if b.hashes[s] != h:
                        hist_bad.append((b.name, s))
    viol = [(s, c, d, b) for b in batches for s, c, d in b.viol]
    stats = {}
    for b in batches:
        for k, v in b.stats.items():
            stats[k] = stats.get(k, 0) + v
    distinct = len({h[0] for b in batches for h in b.hashes.values() if h[1] & 1})
    samples = []
    for b in batches[:1]:
        for s in sorted(b.hashes)[:40]:
            if b.hashes[s][1] & 1:
                sc = run([b.exe, p.get("mode", pid), "gen", str(s)]).stdout.strip().split("\n")
                if len(sc) < 60:
                    samples.append({"seed": s, "build": b.name, "script": sc})
            if len(samples) >= 2:
                break
    reported, known = None, []
    if viol:
        viol.sort(key=lambda v: (v[1].startswith("killed"), v[0]))
        seen = set()
        for s, c, d, b in viol:
            if (c, b.name) in seen or len(seen) > 6:
                continue
            seen.add((c, b.name))
            got = reproduce(pid, b, s, c, tmp)
            if not got:
                continue
            script, r1 = got
            c = r1[0]
            kf = [k for k in known_findings(pid) if k[0] == c and k[1] in r1[2]]
            if kf:
                known.append(kf[0])
                continue
            print("seed %d (%s): %s: %s  -- minimising" % (s, b.name, c, r1[2]), flush=True)
            small, nx = minimise(pid, b.exe, script, c, tmp, 60)
            m1 = execute(pid, b.exe, small, tmp)
            m2 = execute(pid, b.exe, small, tmp)
            if m1[:2] != m2[:2] or m1[0] != c:
                small, m1 = script, r1
            rep = os.path.join(VERIF, "replays", "%s-%s-%d.script" % (pid, b.name, s))
            os.makedirs(os.path.dirname(rep), exist_ok=True)
            with open(rep, "w") as h:
                h.write("# replay: python3 %s --replay %s\n" % (os.path.join(VERIF, "check.py"), rep))
                h.write("# property=%s build=%s seed=%d class=%s hash=%s\n# %s\n# minimised from %d to %d lines in %d executions\n" %
                        (pid, b.name, s, c, m1[1], m1[2].replace("\n", " "), len(script), len(small), nx))
                h.write("\n".join(small) + "\n")
            reported = (s, c, m1[2], rep)
            break
    faults = {k[6:]: v for k, v in stats.items() if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in stats.items() if k.startswith("probe.")}
    missing = [f for f in p.get("must_fire", []) if not faults.get(f) and not probes.get(f)]
    wall = time.time() - t_begin
    ev = {
        "property": pid, "tier": tier, "seed": vseed, "level": p["level"],
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": distinct,
            "rule": p["rule"] + " Distinct = distinct hash of the whole event log; non-trivial = at least one fault, preemption or "
                    "chunk boundary actually fired inside the run.",
            "samples": samples,
            "simulated_runs": runs, "runs_per_hour": int(runs / max(wall_explore, 1e-9) * 3600),
            "seeds_per_hour": int(len({s for b in batches for s in b.hashes}) / max(wall_explore, 1e-9) * 3600),
            "simulated_time_ticks": stats.get("ticks", 0), "events_logged": stats.get("events", 0),
            "faults_fired": faults, "probes_hit": probes, "expected_but_never_fired": missing,
            "builds": [b.name for b in batches],
            "builds_left_out_because_they_do_not_compile": DROPPED,
            "runs_per_build": {b.name: b.runs for b in batches},
            "determinism_rechecks": re_n, "determinism_mismatches": len(re_bad),
            "rechecks_with_other_history": hist_n, "logs_that_depend_on_earlier_runs": len(hist_bad),
            "components": COMPONENTS[pid],
            "build_seconds": round(t_build, 1), "explore_seconds": round(wall_explore, 1),
        },
        "assumptions": p["assumptions"], "wall_s": round(wall, 2), "violations": 1 if reported else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    print("%s: %d runs (%d distinct non-trivial), %d rechecked, %.1f s" % (pid, runs, distinct, re_n + hist_n, wall))
    if hist_bad:
        print("note: the logs of %d runs depend on earlier runs in the process" % len(hist_bad))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    if reported:
        print("violation %s: %s" % (reported[1], reported[2]))
        print("VIOLATION property=%s replay=%s" % (pid, reported[3]))
        return 1
    if viol and not known:
        print("error: violations seen but none reproduced: %r" % [(v[0], v[1], v[2]) for v in viol[:5]])
        return 2
    if re_bad:
        print("error: not deterministic: %r" % re_bad[:10])
        return 2
    if runs == 0 or distinct < 2:
        print("error: nothing explored")
        return 2
    if missing:
        # recorded, not an error: whether some of them can fire depends on how the code under test is written
        print("warning: fault kinds or probes that never fired: %r" % missing)
    return 0


def replay(path):
    lines, meta = [], {}
    for ln in open(path):
        ln = ln.rstrip("\n")
        if ln.startswith("#"):
            meta.update(dict(re.findall(r"(\w+)=(\S+)", ln)))
        elif ln:
            lines.append(ln)
    pid = meta["property"]
    outs = dict(build(pid))
    tmp = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        r = execute(pid, outs[meta["build"]], lines, tmp, verbose=True)
        print(r[3])
        print("class=%s hash=%s %s" % (r[0], r[1], r[2]))
        same = r[0] == meta["class"] and r[1] == meta["hash"]
        print("reproduced exactly" if same else "NOT reproduced (recorded class=%s hash=%s)" % (meta["class"], meta["hash"]))
        if r[0] != "ok":
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    if pid == "--setup":
        for tool in ("g++", "clang++-18", "python3"):
            if not shutil.which(tool):
                raise CheckError("missing " + tool)
        os.makedirs(BUILD, exist_ok=True)
        return 0
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock-" + pid), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return check(pid)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("error:", e)
        sys.exit(2)

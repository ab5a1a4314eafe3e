#!/usr/bin/env python3
"""Driver: builds libraries and harnesses from /repo's working tree, runs generated cases, writes evidence.

  check.py PROP [quick|thorough]      decide one property
  check.py --replay FILE              re-run a saved failure
  check.py --setup                    compile the harnesses once (sanity check of the tool chain)
"""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CI = os.path.join(REPO, "c-impl")
SRC = os.path.join(CI, "PQCrypto-SIDH", "src")
EVID = os.path.join(HERE, "evidence")
BUILD = os.path.join(HERE, "build")
NCPU = os.cpu_count() or 8
SIZES = [434, 503, 610, 751]

sys.path.insert(0, HERE)

class Inconclusive(Exception):
    pass

# ------------------------------------------------------------------------------------------------ build
_locks, _lk = {}, threading.Lock()
_tree = {}

def tree_hash(*roots):
    key = roots
    with _lk:
        if key in _tree:
            return _tree[key]
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            h.update(root.encode() + open(root, "rb").read()); continue
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".h", ".S", ".s", ".hpp", ".cpp", ".inc")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode() + b"\0" + open(p, "rb").read())
    with _lk:
        _tree[key] = h.hexdigest()
    return _tree[key]

def locked(key):
    with _lk:
        return _locks.setdefault(key, threading.Lock())

def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)

def build(key_parts, out_name, make_cmds):
    """content-addressed build product"""
    key = hashlib.sha256(repr(key_parts).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, key); out = os.path.join(d, out_name)
    with locked(key):
        if os.path.exists(out):
            try: os.utime(d)
            except OSError: pass
            return out
        tmp = d + ".tmp%d" % os.getpid(); shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        err = ""
        for cmds in make_cmds(os.path.join(tmp, out_name)):      # alternatives (clang, then gcc)
            for cmd in cmds:
                r = run(cmd)
                if r.returncode:
                    err += " ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-3000:]; break
            else:
                break
        else:
            shutil.rmtree(tmp, ignore_errors=True)
            raise Inconclusive("build of %s failed:\n%s" % (out_name, err))
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
        return out

SAN = {"": [], "asan": ["-fsanitize=address,undefined", "-fno-sanitize=alignment,function", "-fno-sanitize-recover=all", "-g", "-fno-omit-frame-pointer"],
       "tsan": ["-fsanitize=thread", "-g"],
       "ct": ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores", "-g"]}
OPTLEVEL = {"": "-O3", "asan": "-O1", "tsan": "-O1", "ct": "-O1"}

def lib_sources(kind, size, backend):
    if kind == "random": return []
    S = os.path.join(SRC, "P%d" % size)
    main = {"poik": "P%d_poik.c", "sidh": "P%d.c", "comp": "P%d_compressed.c"}[kind] % size
    src = [os.path.join(S, main)]
    if backend != "generic":
        src += [os.path.join(S, "AMD64", "fp_x64.c"), os.path.join(S, "AMD64", "fp_x64_asm.S")]
    else:
        src += [os.path.join(S, "generic", "fp_generic.c")]
    return src + [os.path.join(SRC, "sha3", "fips202.c")]

def base_flags(backend):
    f = ["-std=gnu11", "-march=x86-64-v3", "-madx", "-maes", "-D", "_AMD64_", "-D", "__NIX__", "-w"]
    # "mulx" and "plain": assembly without ADX, and without MULX (USE_ADX=FALSE / USE_MULX=FALSE; the 751-bit code has both)
    return f + {"fast": ["-D", "_FAST_", "-D", "_MULX_", "-D", "_ADX_"], "mulx": ["-D", "_FAST_", "-D", "_MULX_"], "plain": ["-D", "_FAST_"], "generic": ["-D", "_GENERIC_"]}[backend]

def lib(kind, size, backend="fast", reps=None, threads=False, san="", extra=(), system_entropy=False):
    """shared library with the code under test (entropy and main left to the harness)"""
    flags = base_flags(backend) + ["-fPIC", OPTLEVEL[san], "-DNDEBUG"] + SAN[san] + list(extra)
    if threads: flags += ["-DTHREADING", "-pthread"]
    if reps: flags += ["-DPOIK_VERIF_REPS=%d" % reps]
    src = lib_sources(kind, size, backend)
    if system_entropy: src = src + [os.path.join(SRC, "random", "random.c")]; flags += ["-DVG_SYSTEM_ENTROPY"]
    if kind == "poik":
        flags += ["-DPOIK_BITS=%d" % size, "-I", SRC]; src += [os.path.join(HERE, "lib", "glue_poik.c")]
    if kind in ("sidh", "comp"):
        hdr = os.path.join(SRC, "P%d" % size, "P%d%s_api.h" % (size, "_compressed" if kind == "comp" else ""))
        flags += ['-DVG_API_HEADER="%s"' % hdr]; src += [os.path.join(HERE, "lib", "glue_api.c")]
    if kind == "random":
        flags += ["-Dopen=vg_open", "-Dread=vg_read", "-Dsleep=vg_sleep", "-Dusleep=vg_usleep", "-Dclose=vg_close"]; src = [os.path.join(SRC, "random", "random.c")]
    def cmds(out):
        for cc in (["clang"] if san else ["clang", "gcc"]):
            yield [[cc] + flags + ["-shared", "-Wl,-Bsymbolic", "-Wl,-z,noexecstack", "-o", out] + src + ["-lm"]]
    return build(("lib", kind, size, flags, tree_hash(SRC), tree_hash(os.path.join(HERE, "lib"))), "lib.so", cmds)

def harness(name, san="", extra=()):
    src = [os.path.join(HERE, "harness", name + ".cpp"), os.path.join(HERE, "lib", "pbt.cpp")]
    hs = san if san != "ct" else ""
    flags = ["-std=gnu++17", "-O2", "-w", "-I", os.path.join(HERE, "lib"), "-rdynamic", "-pthread"] + SAN[hs] + list(extra)
    def cmds(out):
        for cc in (["clang++"] if hs else ["clang++", "g++"]):
            yield [[cc] + flags + src + ["-o", out, "-ldl", "-lgmp", "-lm"]]
    return build(("harness", name, flags, tree_hash(os.path.join(HERE, "lib"), os.path.join(HERE, "harness"))), name, cmds)

def tool(name, size, reps=None, san="", extra=(), libs=()):
    """command-line tool (prove/verify) from /repo/c-impl with its own entropy source, optionally fewer repetitions"""
    flags = base_flags("fast") + ["-fPIE", OPTLEVEL[san], "-DNDEBUG", "-DTHREADING", "-pthread", "-DPOIK_BITS=%d" % size, "-I", SRC] + SAN[san] + list(extra)
    if reps: flags += ["-DPOIK_VERIF_REPS=%d" % reps]
    src = [os.path.join(CI, name + ".c")] + lib_sources("poik", size, "fast") + [os.path.join(SRC, "random", "random.c"), os.path.join(HERE, "lib", "glue_stdout.c")] + list(libs)
    def cmds(out):
        for cc in (["clang"] if san else ["clang", "gcc"]):
            yield [[cc] + flags + ["-Wl,-z,noexecstack", "-o", out] + src + ["-lm"]]
    return build(("tool", name, size, flags, tree_hash(SRC), tree_hash(os.path.join(CI, name + ".c")), tree_hash(os.path.join(HERE, "lib"))), name, cmds)

def prune_cache():
    try:
        ds = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD))
        for _, d in ds[:-260]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    except OSError:
        pass

# ------------------------------------------------------------------------------------------------ jobs
class Job:
    """group of a harness with a parameter size; libs: option -> (kind, kwargs); args: extra key=value"""
    def __init__(self, harness, group, size, cases, libs=None, chunk=None, san="", variant="", args=None, tools=None, cost=1.0, shrink=45):
        self.harness, self.group, self.size, self.cases = harness, group, size, cases
        self.libs, self.chunk, self.san, self.variant = libs or {}, chunk or cases, san, variant
        self.args, self.tools, self.cost, self.shrink = args or {}, tools or {}, cost, shrink
    def spec(self):
        return dict(harness=self.harness, group=self.group, size=self.size, libs=self.libs, san=self.san, variant=self.variant, args=self.args, tools=self.tools)

def job_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1:halt_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:report_thread_leaks=1"
    e["LC_ALL"] = "C"
    return e

_aslr = []
def no_aslr():
    """fixed address layout for ThreadSanitizer, where the sandbox allows it"""
    if not _aslr:
        try: ok = subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
        except OSError: ok = False
        _aslr.append(["setarch", "-R"] if ok else [])
    return _aslr[0]

def job_cmd(spec, scratch):
    exe = harness(spec["harness"], spec.get("san", ""))
    a = ["%s=%s" % (k, lib(v[0], spec["size"] if "size" not in v[1] else v[1]["size"], **{x: y for x, y in v[1].items() if x != "size"})) for k, v in spec["libs"].items()]
    a += ["%s=%s" % (k, tool(v[0], spec["size"], **v[1])) for k, v in spec.get("tools", {}).items()]
    a += ["%s=%s" % (k, str(v).replace("@SIZE@", str(spec["size"]))) for k, v in spec.get("args", {}).items()]
    pre = no_aslr() if spec.get("san") in ("tsan",) else []
    return pre + [exe, "group=" + spec["group"], "size=%d" % spec["size"], "variant=" + spec.get("variant", ""), "scratch=" + scratch] + a

HANG = 60       # seconds without a runnable thread
def session_load(sid):
    """(is some thread of the session runnable, processor seconds used so far by its living processes)"""
    busy = False; cpu = 0.0; tick = os.sysconf("SC_CLK_TCK")
    def fields(path):
        with open(path) as f: return f.read().rpartition(")")[2].split()
    for d in os.listdir("/proc"):
        if not d.isdigit(): continue
        try:
            f = fields("/proc/%s/stat" % d)
            if int(f[3]) != sid: continue
            cpu += (int(f[11]) + int(f[12])) / tick
            for t in os.listdir("/proc/%s/task" % d): busy = busy or fields("/proc/%s/task/%s/stat" % (d, t))[0] in "RD"
        except (OSError, ValueError, IndexError): busy = True         # it came or went while we looked: progress
    return busy, cpu

class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.stop = threading.Event(); self.procs = set(); self.mx = threading.Lock(); self.n = 0
        self.viol = None; self.results = []; self.errors = []; self.notes = []
        self.findings = []; self.known = set()          # lines "finding: property=ID group=G match=REGEX :: TEXT"
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) group=(\S+) match=(.*?) :: (.*)", l)
            if m and m[1] == prop: self.findings.append((m[2], m[3], m[4]))

    def exec(self, cmd, errpath, timeout):
        with open(errpath, "wb") as ef:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=job_env(), cwd=self.scratch, start_new_session=True)
            with self.mx: self.procs.add(p)
            try:
                rc = self.watch(p, timeout)
            finally:
                with self.mx: self.procs.discard(p)
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
        return rc

    def watch(self, p, timeout):
        """wait for p. A process whose threads all sleep for a long time without progress hangs (a slow or starved one
        has runnable threads, so a busy machine is not taken for a hang): it is ended with SIGALRM. A case that computes
        for too long ends itself with SIGPROF (processor time, see lib/pbt.cpp)."""
        t0 = time.time(); hist = []
        while True:
            try: return p.wait(timeout=3)
            except subprocess.TimeoutExpired: pass
            t = time.time()
            if t - t0 > timeout:
                os.killpg(p.pid, signal.SIGKILL); p.wait(); return "timeout"
            hist.append((t,) + session_load(p.pid)); hist = [h for h in hist if t - h[0] <= HANG + 5]
            if t - hist[0][0] >= HANG and sum(h[1] for h in hist) <= len(hist) // 10 and hist[-1][2] - hist[0][2] < 0.08 * (t - hist[0][0]):
                try: os.killpg(p.pid, signal.SIGALRM)
                except OSError: pass
                try: p.wait(timeout=5)
                except subprocess.TimeoutExpired: os.killpg(p.pid, signal.SIGKILL); p.wait()
                return -signal.SIGALRM

    def kill_all(self):
        self.stop.set()
        with self.mx:
            for p in list(self.procs):
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass

    def limit(self):
        """quick tier: a single case that computes for this long does not end (ordinary ones take seconds)"""
        return ["limit=240"] if self.tier == "quick" else []

    def uniq(self):
        with self.mx:
            self.n += 1; return self.n

    def replay_tape(self, spec, tape, timeout=700):
        """-> (failed, message)"""
        u = self.uniq(); tf = os.path.join(self.scratch, "tape%d" % u); of = tf + ".out"; ef = tf + ".err"; sc = tf + ".d"; os.makedirs(sc, exist_ok=True)
        with open(tf, "w") as f: f.write("\n".join(str(x) for x in tape) + "\n")
        rc = self.exec(job_cmd(spec, sc) + ["replay=" + tf, "out=" + of] + self.limit(), ef, timeout)
        shutil.rmtree(sc, ignore_errors=True)
        err = open(ef, errors="replace").read()
        if rc == 0: return False, ""
        if rc == 1:
            try: m = json.load(open(of)); return True, m["fail"] + " | " + m.get("desc", "")
            except Exception: return True, err[-1500:]
        if rc == 3 or rc == "timeout": return None, "harness error rc=%s %s" % (rc, err[-500:])
        return True, "process ended with status %s (%s)\n%s" % (rc, "signal %s" % signal.Signals(-rc).name if isinstance(rc, int) and rc < 0 else "exit", summarise(err))

    def shrink_crash(self, spec, tape, budget=60):
        t0 = time.time(); best = list(tape); changed = True; fails = lambda t: self.replay_tape(spec, t, 120)[0] is True
        while changed and time.time() - t0 < budget:
            changed = False
            w = max(1, len(best) // 2)
            while w >= 1 and time.time() - t0 < budget:
                i = 0
                while i + w <= len(best) and time.time() - t0 < budget:
                    c = best[:i] + best[i + w:]
                    if fails(c): best = c; changed = True
                    else: i += w
                w //= 2
            for i in range(len(best)):
                if time.time() - t0 > budget: break
                for q in (0, best[i] >> 32, best[i] // 2):
                    if q < best[i]:
                        c = list(best); c[i] = q
                        if fails(c): best = c; changed = True; break
        return best

    def violation(self, spec, tape, msg):
        for g, rx, text in self.findings:
            if spec["group"] == g and re.search(rx, msg):       # recorded in known_findings.txt: reported, not an alarm
                with self.mx: self.known.add(text)
                return
        with self.mx:
            if self.viol: return
            d = os.path.join(EVID, "replay"); os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-%s.json" % (self.prop, spec["group"], spec["size"]))
            json.dump({"property": self.prop, "spec": spec, "tape": [str(x) for x in tape], "message": msg, "seed": self.seed, "tier": self.tier,
                       "how": "python3 %s --replay %s" % (os.path.join(HERE, "check.py"), path)}, open(path, "w"), indent=1)
            self.viol = (path, msg)
        self.kill_all()

    def one(self, job, first, count, cap):
        if self.stop.is_set(): return
        spec = job.spec(); failed = []          # attempts of this chunk that failed but whose case did not fail again at once
        for attempt in range(3):
            if self.stop.is_set(): return
            if len(failed) >= 2: return self.violation(spec, failed[-1][0], failed[-1][1] + " (recurs on some schedules)")
            u = self.uniq(); base = os.path.join(self.scratch, "j%d" % u); of, ef, sf, sc = base + ".out", base + ".err", base + ".state", base + ".d"
            os.makedirs(sc, exist_ok=True)
            cmd = job_cmd(spec, sc) + ["seed=%d" % self.seed, "cases=%d" % count, "first=%d" % first, "cap=%s" % cap, "out=" + of, "state=" + sf, "shrink=%d" % job.shrink] + self.limit()
            rc = self.exec(cmd, ef, cap + (250 if self.tier == 'quick' else 1500))
            shutil.rmtree(sc, ignore_errors=True)
            if self.stop.is_set(): return
            err = open(ef, errors="replace").read()
            if rc == 0:
                r = json.load(open(of)); r["group"], r["size"], r["variant"] = job.group, job.size, job.variant
                with self.mx: self.results.append(r)
                os.unlink(sf); return
            if rc == 1:
                try: r = json.load(open(of))
                except Exception: r = None
                if r and "tape" in r:
                    tape = [int(x) for x in r["tape"].split()]
                    if r.get("reproduced", 3) >= 3:
                        return self.violation(spec, tape, r["fail"] + " | " + r.get("desc", ""))
                    bad = [self.replay_tape(spec, tape) for _ in range(4)]     # schedule dependent: has to recur
                    if sum(b[0] is True for b in bad) >= 1 and r.get("reproduced", 0) >= 1:
                        return self.violation(spec, tape, r["fail"] + " | " + r.get("desc", "") + " (recurs on some schedules)")
                    failed.append((tape, r["fail"] + " | " + r.get("desc", "")))
                self.notes.append("unstable failure in %s/%d: %s" % (job.group, job.size, (r or {}).get("fail", err[-300:])))
                continue
            if rc == 4:
                try: m = json.load(open(of))["flaky"]
                except Exception: m = "?"
                self.notes.append("flaky in %s/%d: %s" % (job.group, job.size, m)); continue
            if rc == 3:
                self.notes.append("harness error in %s/%d: %s" % (job.group, job.size, err[-300:])); continue
            if rc == "timeout":
                self.notes.append("time-out of %s/%d" % (job.group, job.size)); continue
            # crash, sanitizer report or hang (SIGALRM): the tape of the running case is in the state file
            tape = []
            try:
                b = open(sf, "rb").read(); n = struct.unpack_from("<Q", b)[0]; tape = list(struct.unpack_from("<%dQ" % n, b, 8))
            except Exception:
                pass
            if rc == -signal.SIGKILL:
                self.notes.append("killed: %s/%d" % (job.group, job.size)); continue
            if rc in (-signal.SIGALRM, -signal.SIGPROF):                   # a hang costs its full time limit: confirm three times at once
                with ThreadPoolExecutor(3) as ex: rep = list(ex.map(lambda _: self.replay_tape(spec, tape), range(3)))
            else: rep = [self.replay_tape(spec, tape) for _ in range(3)]
            k = sum(r[0] is True for r in rep)
            if k == 3 or (job.san == "tsan" and (k >= 1 or "ThreadSanitizer" in err)):
                hang = rc in (-signal.SIGALRM, -signal.SIGPROF)
                small = tape if hang or k < 3 else self.shrink_crash(spec, tape)
                msg = next((r[1] for r in rep if r[0]), "") or summarise(err)
                return self.violation(spec, small, ("hang: " if hang else "") + msg)
            if k >= 1: return self.violation(spec, tape, next(r[1] for r in rep if r[0]) + " (recurs on some schedules)")
            failed.append((tape, "crash rc=%s: %s" % (rc, summarise(err)[:400])))
            self.notes.append("unreproduced crash rc=%s in %s/%d: %s" % (rc, job.group, job.size, summarise(err)[:300]))
        if len(failed) >= 2: return self.violation(spec, failed[-1][0], failed[-1][1] + " (recurs on some schedules)")
        with self.mx: self.errors.append("%s/%d did not complete" % (job.group, job.size))

    def run(self, jobs, cap):
        tasks = []
        for j in jobs:
            f = 0
            while f < j.cases:
                n = min(j.chunk, j.cases - f); tasks.append((j, f, n)); f += n
        tasks.sort(key=lambda t: -t[0].cost * t[2])
        # build everything first, in parallel
        t0 = time.time()
        todo, seen = [], set()
        for j in jobs:
            for k, v in j.libs.items():
                key = repr((v, j.size));
                if key not in seen: seen.add(key); todo.append(lambda v=v, j=j: lib(v[0], v[1].get("size", j.size), **{x: y for x, y in v[1].items() if x != "size"}))
            for k, v in j.tools.items():
                key = repr((v, j.size, "tool"))
                if key not in seen: seen.add(key); todo.append(lambda v=v, j=j: tool(v[0], j.size, **v[1]))
            key = repr((j.harness, j.san))
            if key not in seen: seen.add(key); todo.append(lambda j=j: harness(j.harness, j.san))
        with ThreadPoolExecutor(NCPU) as ex:
            for f in [ex.submit(t) for t in todo]: f.result()
        self.build_s = time.time() - t0
        with ThreadPoolExecutor(NCPU) as ex:
            for f in [ex.submit(self.one, j, a, n, cap) for j, a, n in tasks]: f.result()

def summarise(err):
    lines = [l for l in err.splitlines() if re.search(r"ERROR|SUMMARY|runtime error|WARNING: ThreadSanitizer|^\s+#[0-6] ", l)]
    return ("\n".join(lines[:25]) or err[-800:])

# ------------------------------------------------------------------------------------------------ main
def evidence(prop, tier, seed, level, rule, runner, wall, viol, assumptions):
    rs = runner.results; labels = {}
    for r in rs:
        for k, v in r.get("labels", {}).items(): labels[k] = labels.get(k, 0) + v
    per = {}
    for r in rs:
        p = per.setdefault("%s/%s%s" % (r["group"], r["size"], "/" + r["variant"] if r["variant"] else ""), {"cases": 0, "evaluations": 0, "nontrivial": 0, "wall": 0, "cpu_max": 0})
        p["wall"] = round(p["wall"] + r["wall"], 1); p["cpu_max"] = max(p["cpu_max"], r.get("cpu_max", 0)); p["cases"] += r["cases"]; p["evaluations"] += r["evals"]; p["nontrivial"] += r["nontrivial"]
    samples = []
    seen = set()
    for r in rs:
        for s in r.get("samples", []):
            if s and r["group"] not in seen or len(samples) < 4:
                samples.append("%s/%s: %s" % (r["group"], r["size"], s)); seen.add(r["group"])
    doc = {"property": prop, "tier": tier, "seed": seed, "level": level,
           "coverage": {"evaluations": sum(r["evals"] for r in rs), "cases": sum(r["cases"] for r in rs), "distinct_nontrivial": sum(r["nontrivial"] for r in rs), "rule": rule,
                        "samples": samples[:16] or ["(run ended by a violation before the first sample)"], "classes": labels, "per_group": per, "notes": runner.notes[:20], "known_findings": sorted(runner.known), "build_s": round(getattr(runner, "build_s", 0), 1)},
           "assumptions": assumptions, "wall_s": round(wall, 1), "violations": 1 if viol else 0}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, ".%s.tmp" % prop)
    json.dump(doc, open(tmp, "w"), indent=1); os.replace(tmp, os.path.join(EVID, prop + ".json"))

def manifest(J):
    """rewrite MANIFEST.json from texts.py and jobs.py"""
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
    doc = {"version": 1, "setup_cmd": "python3 check.py --setup",
           "hooks": {"guard": "POIK_VERIF_REPS", "enable": "-DPOIK_VERIF_REPS=N (number of proof repetitions; undefined: published value)", "source_commits": ["78dfcdb"]},
           "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p, "technique": J.PROPS[p]["technique"],
                       "level": J.PROPS[p].get("level", "exploration"), "level_note": J.PROPS[p]["note"]} for p in ids if p in J.PROPS],
           "not_applicable": [{"property": p, "reason": "check under construction"} for p in ids if p not in J.PROPS]}
    json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1); open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
    return 0

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2])); R = Runner(r["property"], "quick", 0)
        try: bad, msg = R.replay_tape(r["spec"], [int(x) for x in r["tape"]])
        finally: shutil.rmtree(R.scratch, ignore_errors=True)
        print("FAILS: " + msg if bad else "does not fail" if bad is False else msg); return 1 if bad else 0
    import jobs as J
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        hs = sorted({(j.harness, j.san) for p in J.PROPS for t in ("quick",) for j in J.jobs(p, t)})
        with ThreadPoolExecutor(NCPU) as ex: list(ex.map(lambda a: harness(*a), hs))
        print("setup ok: %d harnesses" % len(hs)); return 0
    if len(sys.argv) >= 2 and sys.argv[1] == "--manifest":
        return manifest(J)
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time(); R = Runner(prop, tier, seed); rc = 0
    try:
        meta = J.PROPS[prop]
        try:
            R.run(J.jobs(prop, tier), cap=300 if tier == "quick" else 3000)
        except Inconclusive as e:
            print("ERROR: " + str(e)); R.errors.append(str(e))
        for n in R.notes: print("note: " + n)
        evidence(prop, tier, seed, meta.get("level", "exploration"), meta["rule"], R, time.time() - t0, R.viol, meta.get("assumptions", []))
        for k in sorted(R.known): print("KNOWN-FINDING: property=%s %s" % (prop, k))
        if R.viol:
            print("violated: " + R.viol[1]); print("VIOLATION property=%s replay=%s" % (prop, R.viol[0])); rc = 1
        elif R.errors:
            for e in R.errors: print("ERROR: " + e)
            rc = 2
        elif not sum(r["nontrivial"] for r in R.results):
            print("ERROR: nothing non-trivial was generated"); rc = 2
        else:
            print("%s %s: %d evaluations in %d cases, %d distinct non-trivial, %.1fs (build %.1fs)" % (prop, tier, sum(r["evals"] for r in R.results), sum(r["cases"] for r in R.results), sum(r["nontrivial"] for r in R.results), time.time() - t0, R.build_s))
    finally:
        R.kill_all(); shutil.rmtree(R.scratch, ignore_errors=True)
    prune_cache()
    return rc

if __name__ == "__main__":
    sys.exit(main())

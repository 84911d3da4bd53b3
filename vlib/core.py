"""Machinery shared by all checks: build, script replay, TLC, evidence.

The only oracle is TLC: traces recorded from the real library are accepted or
rejected by the Trace_*.tla specifications, and the specifications themselves
are model checked through their MC_*.tla instances.
"""
import concurrent.futures as cf, copy, glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
CXX = ["g++", "-std=c++14", "-O1", "-g0", "-w", "-include", "stdint.h", "-fsanitize=address",
       "-fno-omit-frame-pointer", "-fwrapv", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-ftrivial-auto-var-init=pattern"]
ASAN = ("exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:"
        "max_allocation_size_mb=3000:hard_rss_limit_mb=6000:detect_stack_use_after_return=1:"
        "malloc_fill_byte=190:max_malloc_fill_size=4096")
# the second run: released blocks are handed out again at once, fresh ones hold something else
ASAN2 = ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0:malloc_fill_byte=1"


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ scripts ---
class Ep(list):
    """An episode: list of (op, a, b, c, flag). The leading reset is implicit."""
    def do(self, op, a=(), b=(), c=(), may=False):
        self.append((op, tuple(a), tuple(b), tuple(c), may))
        return self


def line(o):
    f = lambda v: " ".join(str(int(x)) for x in v)
    return "%s|%s|%s|%s|%s" % (o[0], f(o[1]), f(o[2]), f(o[3]), "?" if o[4] else "")


RESET = ("reset", (), (), (), False)


def deep_stack():
    """recursion in the code under test is no defect in itself: give it room"""
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    want = 1 << 30
    try: resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))
    except (ValueError, OSError): pass

class Suite:
    """A harness binary, the trace specification its traces must satisfy and the episodes to replay."""
    def __init__(self, name, harness, trace, episodes, defs=(), cxx=(), consts=None, env=None, repeat=1,
                 srcs=True, timeout=900, weight=None, cfg=None, optional=False):
        self.asan = ""
        self.optional = optional     # an instantiation the library does not promise to support: skipped if it does not compile
        self.cfg = cfg or trace + ".cfg"
        self.name, self.harness, self.trace, self.episodes = name, harness, trace, episodes
        self.defs, self.cxx, self.env, self.srcs, self.timeout = tuple(defs), tuple(cxx), env or {}, srcs, timeout
        self.weight = weight or (lambda e: 1 + sum(12 if o[4] else 1 for o in e))


class MC:
    """A model-checking run of a specification; emit=True turns its transitions into episodes."""
    def __init__(self, module, cfg=None, emit=None, workers="auto", timeout=800, heap="6g", simulate=None, expect_violation=False):
        self.module, self.cfg = module, cfg or module + ".cfg"
        self.emit, self.workers, self.timeout, self.heap = emit, workers, timeout, heap
        self.simulate = simulate


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.skipped = set()
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.mcruns, self.assumptions = [], [], [], []
        self.known = []
        self._lib = {}
        self.pool = cf.ThreadPoolExecutor(NCPU)
        import threading
        self._lk = threading.Lock()
        threading.Thread(target=self.prebuild, daemon=True).start()

    def prebuild(self):
        try:
            self.lib(hashlib.sha1(repr(((),)).encode()).hexdigest()[:10], ())
        except CheckError:
            pass

    def close(self):
        self.pool.shutdown(wait=True)
        shutil.rmtree(self.tmp, ignore_errors=True)

    def stamp(self, what):
        if os.environ.get("VERIF_DEBUG"):
            log("[%6.1fs] %s" % (time.time() - self.t0, what))

    def scale(self, q, t):
        return q if self.quick else t

    # ---------------------------------------------------------------- build ---
    def lib(self, key, extra=()):
        """Compile every source file of the working tree into an archive."""
        with self._lk:
            return self._libl(key, extra)

    def _libl(self, key, extra):
        if key in self._lib:
            return self._lib[key]
        d = tempfile.mkdtemp(prefix="lib-", dir=self.tmp)
        srcs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
        def one(i_s):
            i, s = i_s
            o = os.path.join(d, "%d.o" % i)
            p = subprocess.run(CXX + list(extra) + ["-I", REPO + "/src/include", "-c", s, "-o", o],
                               capture_output=True, text=True)
            if p.returncode:
                raise CheckError("cannot compile %s:\n%s" % (s, p.stderr[:4000]))
            return o
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(one, enumerate(srcs)))
        a = os.path.join(d, "lib.a")
        subprocess.run(["ar", "crs", a] + objs, check=True)
        self._lib[key] = a
        return a

    def build(self, suite):
        key = hashlib.sha1(repr((suite.cxx,)).encode()).hexdigest()[:10]
        exe = os.path.join(self.tmp, "h-" + hashlib.sha1(repr((suite.harness, suite.defs, suite.cxx)).encode()).hexdigest()[:10])
        if os.path.exists(exe):
            return exe
        fl = CXX + list(suite.cxx) + ["-I", REPO + "/src/include", "-I", VERIF + "/harness"]
        lib = self.lib(key, suite.cxx)
        p = subprocess.run(fl + ["-D" + x for x in suite.defs] +
                           ["-c", os.path.join(VERIF, "harness", suite.harness), "-o", exe + ".o"],
                           capture_output=True, text=True)
        if p.returncode:
            if suite.optional:
                self.notes.append("suite %s does not compile and was skipped" % suite.name)
                self.skipped.add(suite.name)
                return None
            # the library itself compiles, so its public interface no longer accepts documented calls
            raise Violation(suite, [], None, {"op": "compile", "out": "the documented interface does not compile"}, p.stderr[:6000])
        p = subprocess.run(fl + [exe + ".o", lib, "-o", exe], capture_output=True, text=True)
        if p.returncode:
            raise Violation(suite, [], None, {"op": "link", "out": "the documented interface does not link"}, p.stderr[:6000])
        return exe

    # --------------------------------------------------------------- replay ---
    def replay(self, exe, suite, lines, trace, op_cpu=None, maxcrash=3):
        """Run the script lines in the real code; write the trace. Returns #events."""
        script = trace + ".script"
        with open(script, "w") as f:
            f.write("\n".join(map(line, lines)) + "\n")
        open(trace, "w").close()
        start, crashes = 0, 0
        env = dict(os.environ, ASAN_OPTIONS=ASAN + suite.asan, VF_OP_CPU=str(op_cpu or 5), **suite.env)
        skipped = []
        while start < len(lines):
            try:
                p = subprocess.run([exe, script, trace, str(start)], env=env, stdout=subprocess.DEVNULL,
                                   stderr=subprocess.PIPE, timeout=suite.timeout, cwd=self.tmp, preexec_fn=deep_stack)
                rc, err = p.returncode, p.stderr
            except subprocess.TimeoutExpired:
                rc, err = "timeout", b""
            n = sum(1 for _ in open(trace))
            done = n + len(skipped)
            if done >= len(lines) and rc == 0:
                break
            if rc == 97:
                break
            if rc == 98:
                raise CheckError("harness cannot open its files")
            if rc == 0:
                raise CheckError("harness ended early: %d of %d lines" % (done, len(lines)))
            # the line after the last event killed the process, unless it was logged as error/exit0
            lastev = None
            if n:
                with open(trace, "rb") as f:
                    lastev = json.loads(f.read().rstrip(b"\n").rsplit(b"\n", 1)[-1])
            if lastev and done > start and lastev["out"] in ("error", "exit0") and not isinstance(rc, str) and rc >= 0 and rc not in (99,):
                nxt = done
            elif done >= len(lines):
                break   # died in the final clean-up: every event is there
            else:
                o = lines[done]
                out = "hang" if rc == "timeout" or rc == -signal.SIGPROF else "crash"
                with open(trace, "a") as f:
                    f.write(json.dumps({"op": o[0], "a": o[1], "b": o[2], "c": o[3], "out": out, "r": []}) + "\n")
                with open(trace + ".stderr", "ab") as f:
                    f.write(err[-6000:])
                nxt = done + 1
                crashes += 1
            while nxt < len(lines) and lines[nxt][0] != "reset":
                skipped.append(nxt)
                nxt += 1
            start = nxt
            if crashes >= maxcrash:
                break
        return sum(1 for _ in open(trace))

    # ------------------------------------------------------------------ TLC ---
    def tlc(self, module, cfg, env=None, workers="1", timeout=900, heap="2g", extra=(), fast=True, out=None):
        md = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        jopts = ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"] if fast else ["-XX:+UseParallelGC"]
        cmd = ["java"] + jopts + ["-Xmx" + heap, "-Xss64m", "-XX:-UsePerfData", "-Djava.io.tmpdir=" + self.tmp, "-cp", CP, "tlc2.TLC",
               "-metadir", md, "-workers", str(workers), "-config", os.path.join(SPEC, cfg), "-noGenerateSpecTE"] + list(extra) + \
              [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ, **(env or {}))
        try:
            p = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout, cwd=SPEC)
            rc, o = p.returncode, p.stdout + p.stderr
        except subprocess.TimeoutExpired as t:
            rc, o = "timeout", (t.stdout or b"").decode() if isinstance(t.stdout, bytes) else (t.stdout or "")
        shutil.rmtree(md, ignore_errors=True)
        o = "\n".join(x for x in o.splitlines() if not x.startswith(("Parsing file", "Semantic processing", "Warning: Please run", "(Use the -nowarning")))
        return rc, o

    def legal(self, suite, trace, n):
        """Is the last call of the trace one the specification allows (whatever its result)?"""
        t = trace + ".legal"
        with open(trace) as f, open(t, "w") as g:
            g.writelines(f.readlines()[:n])
        return self.validate(suite, t, n, {"FREE": "1"}) is None

    def validate(self, suite, trace, n, env=None):
        """-> None if TLC accepts the trace, else (line index of first rejected event, tlc output)."""
        rc, o = self.tlc(suite.trace, suite.cfg, env=dict(env or {}, TRACE=trace), timeout=suite.timeout)
        m = re.findall(r'<<"REACHED", (\d+), (\d+)>>', o)
        if rc == "timeout":
            raise CheckError("TLC timed out on a trace of %s (%d events)" % (suite.name, n))
        if m:
            done, total = int(m[-1][0]), int(m[-1][1])
            if total != n:
                raise CheckError("TLC saw %d of %d events" % (total, n))
            if done == total and rc == 0:
                return None
            if done < total:
                return (done, o)
        # an evaluation error inside an action is a rejection of that event, provided
        # that the error is not one of the model itself (parse errors, missing file ...)
        e = re.search(r"^\d+\. Line|The error occurred when TLC was evaluating the nested|The behavior up to this point is", o, re.M)
        l = re.findall(r"/\\ l = (\d+)", o) or re.findall(r"^l = (\d+)", o, re.M)
        if l and ("Error:" in o):
            return (int(l[-1]) - 1, o)
        raise CheckError("TLC failed on %s (rc %s):\n%s" % (suite.trace, rc, o[-1800:]))

    # ----------------------------------------------------------- conformance ---
    def chunks(self, eps, k, weight):
        eps = sorted(eps, key=weight, reverse=True)
        b = [[0, []] for _ in range(max(1, min(k, len(eps))))]
        for e in eps:
            m = min(b, key=lambda x: x[0])
            m[0] += weight(e)
            m[1].append(e)
        return [x[1] for x in b if x[1]]

    def conform(self, *suites):
        """Replay every suite's episodes in the real code and validate the traces."""
        jobs = []
        for s in suites:
            self.lib(hashlib.sha1(repr((s.cxx,)).encode()).hexdigest()[:10], s.cxx)
        uniq = {}
        for s in suites:
            uniq.setdefault((s.harness, s.defs, s.cxx), s)
        list(self.pool.map(self.build, uniq.values()))
        grand = sum(s.weight(e) for s in suites for e in s.episodes) or 1
        self.stamp("built")
        for s in suites:
            if not s.episodes:
                raise CheckError("suite %s has no episodes" % s.name)
            if s.name in self.skipped:
                continue
            exe = self.build(s)
            tot = sum(s.weight(e) for e in s.episodes)
            k = max(1, min(NCPU, tot // 1500 + 1, int(round(12.0 * tot / grand))))
            for i, ch in enumerate(self.chunks(s.episodes, k, s.weight)):
                jobs.append((s, exe, ch, os.path.join(self.tmp, "%s-%d.ndjson" % (s.name, i))))
        bad = []
        def run(j):
            s, exe, ch, tr = j
            lines = []
            for e in ch:
                lines.append(RESET)
                lines += list(e)
            n = self.replay(exe, s, lines, tr)
            v = self.validate(s, tr, n)
            if v is None:
                # once more: the other way round, with a memory that is reused at once. What a call returns
                # may not depend on that; where it does differ, TLC judges the second trace as well
                t0 = time.time()
                s2, tr2 = copy.copy(s), tr + ".second"
                s2.asan = ASAN2
                back = [o for e in reversed(ch) for o in [RESET] + list(e)]
                n2 = self.replay(exe, s2, back, tr2)
                cut = lambda f: open(f, "rb").read().split(b'{"op":"reset"')[1:]
                if cut(tr) != cut(tr2)[::-1]:
                    self.stamp("%s: the second run differs" % os.path.basename(tr))
                    v = self.validate(s2, tr2, n2)
                    if v is not None:
                        return (s2, exe, ch, tr2), back, n2, v
                else:
                    os.unlink(tr2)
                self.stamp("%s: second run %.1f s" % (os.path.basename(tr), time.time() - t0))
            return j, lines, n, v
        futs = [self.pool.submit(run, j) for j in jobs]
        err = None
        for f in cf.as_completed(futs):
            try:
                j, lines, n, v = f.result()
            except CheckError as x:
                err = x
                continue
            self.stamp("%s: %d events" % (os.path.basename(j[3]), n))
            if v is None:
                self.traces += len(j[2])
                self.events += n
                if len(self.samples) < 6:
                    with open(j[3]) as fh:
                        L = fh.read().splitlines()
                    self.samples.append({"suite": j[0].name, "events": [json.loads(x) for x in L[:4]]})
            else:
                bad.append((j, lines, n, v))
        if bad:
            bad.sort(key=lambda x: (x[0][0].name, x[3][0]))
            for b in bad:
                r = self.confirm(*b)
                if r:
                    raise Violation(*r)
            self.notes.append("a rejected trace could not be reproduced")
            log("note: rejected trace not reproducible; treated as check error")
            raise CheckError("rejected trace not reproducible")
        if err:
            raise err

    def probe(self, harness, script, defs=(), cxx=()):
        """Does this raw script make the library crash? (used for known findings only)"""
        exe = self.build(Suite("probe", harness, "", [], defs=defs, cxx=cxx))
        f = os.path.join(self.tmp, "probe.script")
        with open(f, "w") as h:
            h.write("\n".join(["reset||||"] + list(script)) + "\n")
        p = subprocess.run([exe, f, f + ".trace"], env=dict(os.environ, ASAN_OPTIONS=ASAN), capture_output=True, timeout=60, cwd=self.tmp)
        return p.returncode not in (0, 97)

    def events_to_lines(self, trace, upto):
        with open(trace) as f:
            return [json.loads(x) for x in f.read().splitlines()[:upto]]

    def confirm(self, job, lines, n, v):
        s, exe, ch, tr = job
        idx, out = v
        evs = self.events_to_lines(tr, idx + 1)
        # find the episode of the rejected event
        k = idx
        while k > 0 and evs[k]["op"] != "reset":
            k -= 1
        ep = [(e["op"], tuple(e["a"]), tuple(e["b"]), tuple(e["c"]), self.flag_of(lines, e)) for e in evs[k:]]
        t2 = tr + ".confirm"
        m = self.replay(exe, s, ep, t2, op_cpu=8)
        v2 = self.validate(s, t2, m)
        if v2 is not None:
            if not self.legal(s, t2, v2[0] + 1):
                raise CheckError("the script leaves the specified domain at: %s" % json.dumps(self.events_to_lines(t2, v2[0] + 1)[-1]))
            ep, t2 = self.shrink(s, exe, ep, t2, v2)
            return s, ep, t2, evs[idx], out
        if evs[idx]["out"] == "hang":
            return None
        t3 = tr + ".again"
        m = self.replay(exe, s, lines, t3, op_cpu=8)
        v3 = self.validate(s, t3, m)
        if v3 is not None:
            return s, lines[:v3[0] + 1], t3, self.events_to_lines(t3, v3[0] + 1)[-1], v3[1]
        # not reproducible (the code reads memory it did not write, say), but it did happen
        if evs[idx]["out"] == "crash" or self.legal(s, tr, idx + 1):
            return s, lines, tr, evs[idx], out
        return None

    def flag_of(self, lines, e):
        key = (e["op"], tuple(e["a"]), tuple(e["b"]), tuple(e["c"]))
        if not hasattr(self, "_flags"):
            self._flags = {}
        d = self._flags.setdefault(id(lines), None)
        if d is None:
            d = self._flags[id(lines)] = {l[:4]: l[4] for l in lines}
        return d.get(key, e["out"] == "error")

    def shrink(self, s, exe, ep, tr, v, budget=25.0):
        """Greedy removal of operations while TLC still rejects the episode."""
        t0 = time.time()
        best, btr = ep[:v[0] + 1], tr
        def lastev(t, i):
            e = self.events_to_lines(t, i + 1)[i]
            return (e["op"], tuple(e["a"]), tuple(e["b"]), tuple(e["c"]), e["out"])
        goal = lastev(tr, v[0])
        size = max(1, (len(best) - 2) // 2)
        k = 0
        while size >= 1 and time.time() - t0 < budget:
            i = 1
            progressed = False
            while i < len(best) - 1 and time.time() - t0 < budget:
                cand = best[:i] + best[min(i + size, len(best) - 1):]
                if len(cand) == len(best):
                    break
                k += 1
                t = "%s.s%d" % (tr, k)
                try:
                    n = self.replay(exe, s, cand, t)
                    w = self.validate(s, t, n)
                except CheckError:
                    w = None
                if w is not None and w[0] == len(cand) - 1 and lastev(t, w[0]) == goal and self.legal(s, t, w[0] + 1):
                    best, btr, progressed = cand[:w[0] + 1], t, True
                else:
                    i += size
            if size == 1 and not progressed:
                break
            size = size // 2 if size > 1 else (1 if progressed else 0)
        return best, btr

    # --------------------------------------------------------- model checking ---
    def model(self, *mcs):
        """Model check; returns {module: emitted transitions}."""
        res = {}
        def one(m):
            extra = ["-deadlock"]
            w = 1 if m.emit else m.workers
            if m.simulate:
                extra += ["-simulate", m.simulate, "-seed", str(self.seed)]
            rc, o = self.tlc(m.module, m.cfg, workers=w, timeout=m.timeout, heap=m.heap, extra=extra, fast=self.quick)
            if rc != 0:
                raise CheckError("model checking of %s failed (rc %s): the specification is inconsistent\n%s" % (m.cfg, rc, o[-1800:]))
            g = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", o)
            if g:
                gen, dis = (int(x.replace(",", "")) for x in g[-1])
            else:
                gg = re.findall(r"(?:The number of states generated: |Progress: )(\d[\d,]*)", o)
                gen = dis = int(gg[-1].replace(",", "")) if gg else 0
            em = []
            if m.emit:
                for ln in o.splitlines():
                    if ln.startswith('"{'):
                        em.append(json.loads(json.loads(ln)))
            return m, gen, dis, em
        for m, gen, dis, em in self.pool.map(one, mcs):
            self.states += dis
            self.transitions += gen
            self.mcruns.append({"spec": m.module, "cfg": m.cfg, "distinct_states": dis, "states_generated": gen,
                                "emitted_transitions": len(em)})
            res[m.cfg] = em
        self.stamp("model checked")
        return res


class Violation(Exception):
    def __init__(self, suite, lines, trace, event, out):
        self.suite, self.lines, self.trace, self.event, self.out = suite, lines, trace, event, out


# ------------------------------------------------- behaviours from transitions ---
def walks(em, rng, maxlen=60, maxeps=None, init=None):
    """Episodes (paths from the initial state of the emitted state graph) that
    together contain every emitted transition."""
    succ, key = {}, (lambda x: json.dumps(x, sort_keys=True))
    for t in em:
        s, d = key(t["s"]), key(t["t"])
        op = (t["e"]["op"], tuple(t["e"]["a"]), tuple(t["e"]["b"]), tuple(t["e"]["c"]), t["e"]["out"] != "ok")
        succ.setdefault(s, []).append((op, d))
        succ.setdefault(d, [])
    if init is None:
        dst = {key(t["t"]) for t in em if key(t["t"]) != key(t["s"])}
        init = key(em[0]["s"])
    else:
        init = key(init)
    todo = {s: [i for i in range(len(v))] for s, v in succ.items()}
    for v in todo.values():
        rng.shuffle(v)
    left = sum(len(v) for v in todo.values())
    # distance-to-uncovered is found by BFS on demand
    eps = []
    def bfs(src):
        from collections import deque
        q, seen = deque([src]), {src: None}
        while q:
            x = q.popleft()
            if todo[x]:
                path = []
                while seen[x] is not None:
                    px, o = seen[x]
                    path.append((o, x))
                    x = px
                return path[::-1]
            for o, d in succ[x]:
                if d not in seen:
                    seen[d] = (x, o)
                    q.append(d)
        return None
    while left and (maxeps is None or len(eps) < maxeps):
        e, cur = Ep(), init
        while left and len(e) < maxlen:
            if not todo[cur]:
                p = bfs(cur)
                if p is None or (len(e) and len(e) + len(p) >= maxlen):
                    break
                for o, d in p:
                    e.append(o)
                    cur = d
                continue
            i = todo[cur].pop()
            left -= 1
            o, d = succ[cur][i]
            e.append(o)
            cur = d
        if not e:
            break
        eps.append(e)
    return eps


# ------------------------------------------------------------------- frontend ---
def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def brief(x, n=40):
    """the same value with long lists and texts cut, for evidence and logs"""
    if isinstance(x, dict):
        return {k: brief(v, n) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [brief(v, n) for v in x[:n]] + (["... %d in all" % len(x)] if len(x) > n else [])
    if isinstance(x, str) and len(x) > 400:
        return x[:400] + "... %d characters in all" % len(x)
    return x


def evidence(ctx, level, violations, extra=None):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
           "events_validated": ctx.events, "samples": brief(ctx.samples[:6]), "model_checking_runs": ctx.mcruns}
    if extra:
        cov.update(extra)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": violations,
          "assumptions": ctx.assumptions + ["TLC, g++ and AddressSanitizer are correct",
                                            "the replayed scripts are a sample of the property's domain; within the MC bounds they cover every transition"]}
    p = os.path.join(d, ctx.pid + ".json")
    with open(p + ".new", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".new", p)


def main(pid, mod, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(pid, tier, seed)
    rc = 2
    try:
        mod.run(ctx)
        for k, d in ctx.known:
            print("KNOWN-FINDING: property=%s %s" % (pid, d))
        evidence(ctx, "model_checking", 0)
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
            pid, tier, ctx.states, ctx.transitions, ctx.traces, ctx.events, time.time() - ctx.t0))
        rc = 0
    except Violation as v:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % pid)
        tr = []
        if v.trace and os.path.exists(v.trace):
            with open(v.trace) as f:
                tr = [json.loads(x) for x in f.read().splitlines()[:len(v.lines)]][-200:]
        se = ""
        for p in glob.glob((v.trace or "") + ".stderr"):
            se = open(p, errors="replace").read()[-3000:]
        with open(path, "w") as f:
            json.dump({"property": pid, "suite": v.suite.name if v.suite else "", "harness": v.suite.harness if v.suite else "",
                       "spec": v.suite.trace if v.suite else "", "script": [line(l) for l in v.lines], "trace": tr,
                       "rejected_event": v.event, "stderr": se, "tlc": v.out[-2500:]}, f, indent=1)
        log("rejected event:", json.dumps(brief(v.event, 200)))
        log("script (%d lines, tail):" % len(v.lines))
        for l in v.lines[-12:]:
            log("   ", brief(line(l)))
        if tr:
            log("observed last event:", json.dumps(brief(tr[-1], 200)))
        evidence(ctx, "model_checking", 1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    except CheckError as e:
        log("CHECK ERROR:", e)
        evidence(ctx, "model_checking", 0)
        rc = 2
    finally:
        ctx.close()
    return rc

"""Shared machinery: run TLC, execute the real code in sandboxed workers, validate
recorded executions against a TLA+ specification, write evidence and report.

A check is a module in /verif/checks with run(ctx).  See DESIGN.md."""
import importlib, json, os, pickle, random, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 4))


class InfraError(Exception):
    """The check itself could not do its work: exit 2, never a verdict."""


class CaseTimeout(BaseException):
    pass


# --------------------------------------------------------------------------- real code
def import_repo():
    """Make `import pybgl` load /repo's working tree."""
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if sys.path[0] != src:
        sys.path.insert(0, src)


class Trace:
    """What was observed of one execution: an initial value and events."""
    def __init__(self):
        self.init = {}
        self.ev = []

    def e(self, op, **kw):
        kw["op"] = op
        self.ev.append(kw)
        return kw

    def bits(self, b):
        return 1 if b is True else 0 if b is False else 2


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for f in reversed(tb):
        if "pybgl" in f.filename:
            where = " at %s" % os.path.basename(f.filename)
            break
    return ("%s%s" % (type(e).__name__, where))[:200]


class ObsError(Exception):
    """The recorder could not read an answer of the code (not of the expected kind)."""


def run_one(fn, case, timeout):
    t = Trace()

    def on_alarm(*_):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    status = "ok"
    try:
        fn(case, t)
    except CaseTimeout:
        status = "timeout"
        t.e("exc", what="no answer within %gs" % timeout)
    except MemoryError:
        status = "memory"
        t.e("exc", what="MemoryError")
    except Exception as e:
        status = "exc"
        t.e("exc", what=describe_exc(e), detail=traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return status, t.init, t.ev


def run_cases(fn, cases, timeout=10.0, nproc=NPROC, deadline=600.0):
    """Run fn(case, trace) for every case in forked workers.  Returns a list of
    (status, init, events); status 'skipped' if the worker gave up after repeated hangs."""
    if not cases:
        return []
    sys.stdout.flush()
    sys.stderr.flush()
    tmp = tempfile.mkdtemp(prefix="vcases")
    n = min(nproc, len(cases))
    pids = {}
    try:
        for w in range(n):
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    signal.signal(signal.SIGINT, signal.SIG_DFL)
                    lim = 3 << 30
                    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(devnull, 1)
                    os.dup2(devnull, 2)
                    hangs = 0
                    out = open(os.path.join(tmp, "%d" % w), "wb")
                    for i in range(w, len(cases), n):
                        if hangs >= 3:
                            r = ("skipped", {}, [])
                        else:
                            r = run_one(fn, cases[i], timeout)
                            if r[0] in ("timeout", "memory"):
                                hangs += 1
                        pickle.dump((i, r), out)
                        out.flush()
                    rc = 0
                finally:
                    os._exit(rc)
            pids[pid] = w
        t0 = time.time()
        left = set(pids)
        while left:
            for pid in list(left):
                p, _ = os.waitpid(pid, os.WNOHANG)
                if p:
                    left.discard(pid)
            if left:
                if time.time() - t0 > deadline:
                    for pid in left:
                        os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                    break
                time.sleep(0.005)
        res = [None] * len(cases)
        for w in range(n):
            try:
                with open(os.path.join(tmp, "%d" % w), "rb") as f:
                    while True:
                        i, r = pickle.load(f)
                        res[i] = r
            except (EOFError, FileNotFoundError, pickle.UnpicklingError):
                pass
        crashed = set()
        for i in range(len(cases)):
            if res[i] is None:
                w = i % n
                if w in crashed:
                    res[i] = ("skipped", {}, [])
                else:
                    crashed.add(w)
                    res[i] = ("crash", {}, [dict(op="exc", what="worker crashed or hung")])
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# --------------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
            pass
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        self.ok = "Model checking completed. No error has been found." in out or \
            "Finished in" in out and "Error:" not in out and rc == 0

    def printed(self):
        for line in self.out.splitlines():
            if line.startswith('"') and line.endswith('"'):
                try:
                    yield json.loads(json.loads(line))
                except ValueError:
                    pass


def brief(out):
    return "\n".join(x for x in out.splitlines() if not re.match(r"Parsing file|Semantic proc|Linting|Computed \d", x))[-3000:]


def tlc_cmd(module, cfg_path, workers, metadir, extra=(), heap="3g"):
    return ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-XX:ParallelGCThreads=%d" % max(2, workers), "-cp", JARS,
            "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", metadir,
            "-config", cfg_path] + list(extra) + [os.path.join(SPEC, module + ".tla")]


def cfg_text(constants=None, spec="Spec", invariants=(), properties=(), view=None, action_constraint=None,
             constraint=None, deadlock=False, symmetry=None):
    s = "SPECIFICATION %s\n" % spec
    for k, v in (constants or {}).items():
        s += "CONSTANT %s = %s\n" % (k, v)
    for i in invariants:
        s += "INVARIANT %s\n" % i
    for i in properties:
        s += "PROPERTY %s\n" % i
    if view:
        s += "VIEW %s\n" % view
    if constraint:
        s += "CONSTRAINT %s\n" % constraint
    if action_constraint:
        s += "ACTION_CONSTRAINT %s\n" % action_constraint
    s += "CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE")
    return s


def run_tlc_many(jobs, timeout):
    """jobs: list of (module, cfg text, env, workers, extra).  Run them at the same time."""
    tmp = tempfile.mkdtemp(prefix="vtlc")
    procs = []
    try:
        for i, (module, cfg, env, workers, extra) in enumerate(jobs):
            d = os.path.join(tmp, str(i))
            os.mkdir(d)
            c = os.path.join(d, "m.cfg")
            with open(c, "w") as f:
                f.write(cfg)
            e = dict(os.environ)
            e.update(env or {})
            out = open(os.path.join(d, "out"), "w")
            procs.append((subprocess.Popen(tlc_cmd(module, c, workers, os.path.join(d, "md"), extra), cwd=d, env=e,
                                           stdout=out, stderr=subprocess.STDOUT), d, out))
        t0 = time.time()
        res = []
        for p, d, out in procs:
            try:
                p.wait(max(1, timeout - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                for q, _, _ in procs:
                    if q.poll() is None:
                        q.kill()
                        q.wait()
                raise InfraError("TLC ran out of its %ds" % timeout)
            out.close()
            with open(os.path.join(d, "out"), errors="replace") as f:
                res.append(TlcResult(p.returncode, f.read()))
        return res
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(tmp, ignore_errors=True)


# --------------------------------------------------------------------------- context
class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.samples = []
        self.models = []
        self.batches = []
        self.violations = []      # dicts
        self.known_hits = {}
        self.assumptions = []
        self.known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "finding"]
        self.exhaustive_notes = []

    def scale(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    # -- exhaustive check of the specification itself
    def model(self, module, constants=None, timeout=600, workers=4, emit=False, **kw):
        t = time.time()
        r = run_tlc_many([(module, cfg_text(constants, **kw), {}, workers, ())], timeout)[0]
        if not r.ok:
            raise InfraError("model %s: TLC did not complete\n%s" % (module, brief(r.out)))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append(dict(module=module, constants=constants or {}, invariants=list(kw.get("invariants", ())),
                                properties=list(kw.get("properties", ())), distinct_states=r.distinct,
                                states_generated=r.generated, wall_s=round(time.time() - t, 2)))
        return r

    def models_parallel(self, specs, timeout=600):
        """specs: list of dicts (module, constants, workers, cfg kw)."""
        jobs = []
        for s in specs:
            s = dict(s)
            m = s.pop("module"); c = s.pop("constants", None); w = s.pop("workers", 2)
            jobs.append((m, cfg_text(c, **s), {}, w, ()))
        t = time.time()
        rs = run_tlc_many(jobs, timeout)
        for s, r in zip(specs, rs):
            if not r.ok:
                raise InfraError("model %s: TLC did not complete\n%s" % (s["module"], brief(r.out)))
            self.states += r.distinct
            self.transitions += r.generated
            self.models.append(dict(module=s["module"], constants=s.get("constants") or {}, invariants=list(s.get("invariants", ())),
                                    properties=list(s.get("properties", ())), distinct_states=r.distinct,
                                    states_generated=r.generated, wall_s=round(time.time() - t, 2)))
        return rs

    # -- bind the specification to the code
    def conform(self, spec, fn, cases, label, timeout=10.0, tlc_timeout=800, batch_events=60000, what=None):
        """Execute the real code on every case (fn records a trace), then have TLC decide each
        recorded trace against the trace specification `spec`."""
        t = time.time()
        res = run_cases(fn, cases, timeout)
        t_exec = time.time() - t
        idx, traces = [], []
        skipped = 0
        for i, (status, init, ev) in enumerate(res):
            if status == "skipped":
                skipped += 1
                continue
            if not ev:
                raise InfraError("%s: case %d recorded no event" % (label, i))
            idx.append(i)
            traces.append(dict(init=init, ev=ev))
        verdicts = self.validate(spec, traces, tlc_timeout, batch_events)
        nrej = 0
        for j, v in enumerate(verdicts):
            i = idx[j]
            if v is None:
                continue
            nrej += 1
            l, clauses = v
            ev = traces[j]["ev"]
            self._reject(spec, fn, cases[i], traces[j], l, clauses, label)
        self.traces += len(traces)
        nev = sum(len(t["ev"]) for t in traces)
        self.events += nev
        b = dict(label=label, spec=spec, traces=len(traces), events=nev, rejected=nrej, skipped=skipped,
                 exec_s=round(t_exec, 2), wall_s=round(time.time() - t, 2))
        if what:
            b["cases"] = what
        self.batches.append(b)
        if traces and len(self.samples) < 6:
            k = self.rng.randrange(len(traces))
            self.samples.append(dict(label=label, spec=spec, init=traces[k]["init"], events=traces[k]["ev"][:4],
                                     of_events=len(traces[k]["ev"])))
        return verdicts

    def validate(self, spec, traces, timeout=800, batch_events=60000):
        """None for an accepted trace, (event index, clauses) for a rejected one."""
        if not traces:
            return []
        nev = sum(len(t["ev"]) for t in traces)
        k = max(1, min(4, -(-nev // 4000), len(traces)))
        while -(-nev // k) > batch_events and k < len(traces):
            k += 1
        shards = [list(range(i, len(traces), k)) for i in range(k)]
        verdicts = [("missing",)] * len(traces)
        tmp = tempfile.mkdtemp(prefix="vtr")
        try:
            pending = shards
            rounds = 0
            while pending:
                rounds += 1
                jobs = []
                for s_i, s in enumerate(pending[:4]):
                    f = os.path.join(tmp, "t%d_%d.json" % (rounds, s_i))
                    with open(f, "w") as h:
                        json.dump([traces[i] for i in s], h)
                    jobs.append((spec, cfg_text(view="KitView"), {"VT_TRACES": f}, 2, ()))
                rs = run_tlc_many(jobs, timeout)
                nxt = pending[4:]
                for s, r in zip(pending[:4], rs):
                    for p in r.printed():
                        if isinstance(p, list) and p and p[0] == "ACCEPT":
                            verdicts[s[p[1] - 1]] = None
                        elif isinstance(p, list) and p and p[0] == "REJECT":
                            verdicts[s[p[1] - 1]] = (p[2], p[3])
                    self.states += r.distinct
                    self.transitions += r.generated
                    miss = [i for i in s if verdicts[i] == ("missing",)]
                    if miss:
                        if len(s) == 1:
                            # TLC cannot evaluate the specification on this observation
                            msg = [x for x in r.out.splitlines() if "Error" in x or "rror:" in x][:3]
                            if "java.lang.OutOfMemoryError" in r.out or "Parsing or semantic analysis failed" in r.out \
                                    or "StackOverflow" in r.out or not r.out or "TLC2" not in r.out:
                                raise InfraError("TLC failed on %s\n%s" % (spec, r.out[-3000:]))
                            i = s[0]
                            self._last_tlc_error = r.out[-3000:]
                            verdicts[i] = (0, ["observation-outside-the-domain-of-the-specification"] + msg)
                        elif len(miss) < len(s):
                            h = max(1, len(miss) // 2)
                            nxt = [miss[:h]] + ([miss[h:]] if miss[h:] else []) + nxt
                        else:
                            if "Parsing or semantic analysis failed" in r.out:
                                raise InfraError("TLC failed on %s\n%s" % (spec, r.out[-3000:]))
                            h = max(1, len(s) // 2)
                            nxt = [s[:h], s[h:]] + nxt      # depth first: an offending trace is singled out soon
                            if rounds > 60:
                                raise InfraError("TLC failed on %s\n%s" % (spec, r.out[-3000:]))
                pending = nxt
                if rounds > 12 and any(v is not None and v != ("missing",) for v in verdicts):
                    # enough evidence; leave the rest undecided rather than bisect for ever
                    break
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return [None if v is None else (v if v != ("missing",) else None) for v in verdicts]

    def _reject(self, spec, fn, case, trace, l, clauses, label):
        for k in self.known:
            if matches_known(k, case, clauses, label):
                self.known_hits[k["id"]] = k
                return
        ev = trace["ev"][l - 1] if 0 < l <= len(trace["ev"]) else None
        self.violations.append(dict(property=self.prop, label=label, spec=spec, recorder="%s:%s" % (fn.__module__, fn.__name__),
                                    case=case, event_index=l, event=ev, clauses=clauses, trace=trace,
                                    seed=self.seed, tier=self.tier))

    def finish(self):
        ev_dir = os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_validated=self.events, models=self.models, batches=self.batches, samples=self.samples or ["none"])
        if self.exhaustive_notes:
            cov["exhaustive_parts"] = self.exhaustive_notes
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(ev_dir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hits.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for b in self.batches:
            print("  %-34s %6d traces %8d events  rejected %d  (%.1fs)" % (b["label"], b["traces"], b["events"], b["rejected"], b["wall_s"]))
        print("%s %s: %d states, %d traces, %d events, %.1fs" % (self.prop, self.tier, self.states, self.traces, self.events, time.time() - self.t0))
        if not self.violations:
            return 0
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        self.violations.sort(key=lambda v: len(json.dumps(v["trace"], default=str)))
        for n, v in enumerate(self.violations[:5]):
            path = os.path.join(d, "%s-%d.json" % (self.prop, n))
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=str)
            e = v["event"]
            print("  %s: event %s breaks %s: %s" % (v["label"], v["event_index"], v["clauses"], json.dumps(e, default=str)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


def load_known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    out.append(json.loads(line))
    return out


def matches_known(k, case, clauses, label):
    """A finding names the exact case (as JSON) and the clauses it breaks."""
    if k.get("label") != label:
        return False
    if sorted(k.get("clauses", [])) != sorted(clauses):
        return False
    return json.dumps(k.get("case"), sort_keys=True) == json.dumps(case, sort_keys=True, default=str)


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import_repo()
    ctx = Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module("checks." + prop.lower())
        mod.run(ctx)
        rc = ctx.finish()
    except InfraError as e:
        print("CHECK-ERROR property=%s: %s" % (prop, e), file=sys.stderr)
        rc = 2
    return rc

"""Common machinery: run TLC, execute cases against /repo, validate recorded traces with TLC, write evidence."""
import json, os, pickle, random, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(1, min(8, os.cpu_count() or 1))


class MachineryError(Exception):
    pass


class TLCResult:
    def __init__(self):
        self.out = ""
        self.rc = None
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.violated = None
        self.error = None
        self.prints = []


def run_tlc(module, cfg_text, env=None, workers=1, timeout=600, simulate=None, extra=(), mem="4g", keep=None):
    """Run TLC on specs/<module>.tla with the given cfg text. Returns a TLCResult."""
    work = tempfile.mkdtemp(prefix="vtlc_")
    try:
        cfg = os.path.join(work, "run.cfg")
        with open(cfg, "w") as f:
            f.write(cfg_text)
        cmd = ["java", f"-Xmx{mem}", "-Xss16m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={work}", f"-DTLA-Library={SPECS}", "-cp", JARS, "tlc2.TLC",
               "-config", cfg, "-metadir", os.path.join(work, "meta"), "-noGenerateSpecTE", "-workers", str(workers)]
        if simulate:
            cmd += ["-simulate", simulate[0]] + list(simulate[1:])
        cmd += list(extra) + [os.path.join(SPECS, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        outf = os.path.join(work, "out")
        with open(outf, "w") as fo:
            try:
                p = subprocess.run(cmd, cwd=work, env=e, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -999
        r = TLCResult()
        r.rc = rc
        with open(outf, errors="replace") as fi:
            r.out = fi.read()
        if keep:
            shutil.copy(outf, keep)
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", r.out)
        if m:
            r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
        m = re.search(r"depth of the complete state graph search is (\d+)", r.out)
        if m:
            r.depth = int(m.group(1))
        m = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|property (\S+) (?:is|was) violated", r.out)
        if m:
            r.violated = next(g for g in m.groups() if g)
        elif "Temporal properties were violated" in r.out:
            r.violated = "temporal property"
        if rc != 0 and not r.violated:
            r.error = f"TLC exit {rc}"
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _prints(out, tag):
    """Strings printed with PrintT("TAG ..."): TLC prints them quoted with escapes."""
    res = []
    pre = '"' + tag + " "
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('"'):
            s = line[len(pre):-1]
            res.append(s.replace('\\"', '"').replace("\\\\", "\\"))
    return res


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.stalled = False
        self.states = 0
        self.transitions = 0
        self.ntraces = 0
        self.nevents = 0
        self.samples = []
        self.models = []
        self.validations = []
        self.violations = []
        self.assumptions = []
        self.extra = {}
        self.rng = random.Random(f"{prop}-{seed}")
        self.verbose = bool(os.environ.get("VERIF_VERBOSE"))

    def log(self, *a):
        print(f"[{self.prop} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    def q(self, quick, thorough):
        return quick if self.quick else thorough

    # ------------------------------------------------------------------
    def model(self, module, constants=None, invariants=(), properties=(), emit=True, view=None, spec=None,
              constraint=None, workers=1, timeout=600, simulate=None, tag="EDGE", must_states=1, data=None):
        """Exhaustive (or simulated) TLC run of a closed model; returns the emitted histories (list of JSON values)."""
        cfg = []
        if spec:
            cfg.append(f"SPECIFICATION {spec}")
        else:
            cfg += ["INIT Init", "NEXT Next"]
        for k, v in (constants or {}).items():
            cfg.append(f"CONSTANT {k} = {v}")
        for i in invariants:
            cfg.append(f"INVARIANT {i}")
        for i in properties:
            cfg.append(f"PROPERTY {i}")
        if view:
            cfg.append(f"VIEW {view}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if emit:
            cfg.append("ACTION_CONSTRAINT " + (emit if isinstance(emit, str) else "Emit"))
        cfg.append("CHECK_DEADLOCK FALSE")
        t = time.time()
        sim = None
        if simulate:
            sim = (f"num={simulate[0]}", "-depth", str(simulate[1]), "-seed", str(self.seed))
        env = {}
        tmp = None
        if data is not None:
            fd, tmp = tempfile.mkstemp(suffix=".json")
            with os.fdopen(fd, "w") as f:
                json.dump(data, f)
            env["CFGFILE"] = tmp
        r = run_tlc(module, "\n".join(cfg) + "\n", workers=workers, timeout=timeout, simulate=sim, env=env)
        if tmp:
            os.remove(tmp)
        if r.violated:
            raise MachineryError(f"the specification {module} itself violates {r.violated}:\n" + r.out[-4000:])
        if r.error:
            raise MachineryError(f"{module}: {r.error}\n" + r.out[-4000:])
        hist = []
        seen = set()
        for s in _prints(r.out, tag):
            if s not in seen:
                seen.add(s)
                hist.append(json.loads(s))
        hist.sort(key=lambda h: json.dumps(h, sort_keys=True))
        if not simulate and r.distinct < must_states:
            raise MachineryError(f"{module}: vacuous model, {r.distinct} states")
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append(dict(module=module, constants={k: str(v) for k, v in (constants or {}).items()},
                                states=r.distinct, generated=r.generated, depth=r.depth,
                                invariants=list(invariants), properties=list(properties),
                                behaviours=len(hist), wall_s=round(time.time() - t, 1)))
        self.log(f"model {module} {constants or ''}: {r.distinct} states, {r.generated} generated, "
                 f"{len(hist)} behaviours, {time.time()-t:.1f}s")
        return hist

    # ------------------------------------------------------------------
    def execute(self, fn, cases, nproc=None, stall=180):
        """Run fn(case) -> trace for every case in forked children. Crashes become traces with a crash event.

        A case that gives no answer within `stall` seconds is a violation too; what its process had left to do is skipped."""
        cases = list(cases)
        if self.stalled:
            return [dict(skipped=True) for _ in cases]
        nproc = min(nproc or NPROC, max(1, len(cases)))
        results = [None] * len(cases)
        work = tempfile.mkdtemp(prefix="vexec_")
        t = time.time()
        try:
            chunks = [list(range(k, len(cases), nproc)) for k in range(nproc)]
            live, hung = {}, set()

            def spawn(k, todo):
                path = os.path.join(work, f"{k}_{time.time_ns()}")
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
                        scratch = os.path.join(work, f"cwd{k}")
                        os.makedirs(scratch, exist_ok=True)
                        os.chdir(scratch)
                        if not self.verbose:
                            dn = os.open(os.devnull, os.O_WRONLY)
                            os.dup2(dn, 1)
                            os.dup2(dn, 2)
                        with open(path, "wb") as f:
                            for idx in todo:
                                try:
                                    r = fn(cases[idx])
                                except BaseException as e:  # noqa
                                    if isinstance(e, KeyboardInterrupt):
                                        raise
                                    r = dict(crash=f"{type(e).__name__}: {e}",
                                             tb=traceback.format_exc()[-3000:])
                                pickle.dump((idx, r), f)
                                f.flush()
                    except BaseException:
                        traceback.print_exc()
                        code = 3
                    os._exit(code)
                live[pid] = [k, todo, path, time.time(), -1]

            def harvest(path):
                done = []
                try:
                    with open(path, "rb") as f:
                        while True:
                            try:
                                done.append(pickle.load(f))
                            except (EOFError, pickle.UnpicklingError):
                                break
                except FileNotFoundError:
                    pass
                return done

            for k, c in enumerate(chunks):
                if c:
                    spawn(k, c)
            while live:
                pid, status = os.waitpid(-1, os.WNOHANG)
                if pid == 0:
                    now = time.time()
                    for p, rec in list(live.items()):
                        try:
                            sz = os.path.getsize(rec[2])
                        except OSError:
                            sz = -1
                        if sz != rec[4]:
                            rec[3], rec[4] = now, sz
                        elif now - rec[3] > stall:
                            os.kill(p, signal.SIGKILL)
                            hung.add(p)
                            self.stalled = True
                            rec[3] = now
                    time.sleep(0.02)
                    continue
                if pid not in live:
                    continue
                k, todo, path, _, _ = live.pop(pid)
                done = harvest(path)
                for idx, r in done:
                    results[idx] = r
                got = {idx for idx, _ in done}
                rest = [i for i in todo if i not in got]
                if rest:
                    bad = rest[0]
                    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
                    results[bad] = dict(crash=f"no answer within {stall} s" if pid in hung else
                                        f"process died (signal {sig}, status {status})")
                    if pid in hung:
                        for i in rest[1:]:
                            results[i] = dict(skipped=True)
                    elif rest[1:]:
                        spawn(k, rest[1:])
        finally:
            shutil.rmtree(work, ignore_errors=True)
        self.log(f"executed {len(cases)} cases in {time.time()-t:.1f}s")
        return results

    # ------------------------------------------------------------------
    def validate(self, module, traces, cases=None, workers=None, timeout=1500, label=None, chunk=4000, constants=None):
        """Validate traces with specs/<module>.tla. Rejected traces become violations."""
        t = time.time()
        workers = workers or NPROC
        tot_states = 0
        label = label or module
        todo = []
        for k, tr in enumerate(traces):
            case = cases[k] if cases is not None else None
            if tr is None:
                raise MachineryError("missing trace")
            if "skipped" in tr:
                continue
            if "crash" in tr:
                self.violation(f"{label}: {tr['crash']}", dict(case=case, trace=tr, label=label))
            else:
                todo.append((k, tr))
        rejects = 0
        for c0 in range(0, len(todo), chunk):
            part = todo[c0:c0 + chunk]
            rej, st, gen = self._validate_part(module, [tr for _, tr in part], workers, timeout, constants)
            tot_states += st
            self.transitions += gen
            for tid, ev, clause in rej:
                k, tr = part[tid]
                rejects += 1
                self.violation(f"{label}: event {ev} ({tr['ev'][ev - 1].get('op', '?') if 0 < ev <= len(tr['ev']) else '?'})"
                               f" breaks clause '{clause}'",
                               dict(case=cases[k] if cases is not None else None, trace=tr, event=ev, clause=clause,
                                    module=module, label=label))
        self.states += tot_states
        nev = sum(len(tr["ev"]) for _, tr in todo)
        self.ntraces += len(todo)
        self.nevents += nev
        if todo:
            s = min((tr for _, tr in todo), key=lambda x: abs(len(json.dumps(x)) - 1500))
            txt = json.dumps(s)
            if len(self.samples) < 6:
                self.samples.append(dict(spec=module, label=label, trace=txt[:2500] + ("..." if len(txt) > 2500 else "")))
        self.validations.append(dict(module=module, label=label, traces=len(todo), events=nev, states=tot_states,
                                     rejected=rejects, wall_s=round(time.time() - t, 1)))
        self.log(f"validated {len(todo)} traces ({nev} events) with {module}: {rejects} rejected, {time.time()-t:.1f}s")

    def _validate_part(self, module, trs, workers, timeout, constants=None):
        work = tempfile.mkdtemp(prefix="vtrace_")
        try:
            path = os.path.join(work, "traces.json")
            with open(path, "w") as f:
                json.dump([dict(cfg=tr.get("cfg", {}), ev=tr["ev"]) for tr in trs], f)
            cfg = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n"
            for k, v in (constants or {}).items():
                cfg += f"CONSTANT {k} = {v}\n"
            r = run_tlc(module, cfg, env=dict(TRACEFILE=path), workers=workers, timeout=timeout)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        rej = []
        for s in _prints(r.out, "REJECT"):
            a = s.split(" ", 2)
            rej.append((int(a[0]) - 1, int(a[1]), a[2]))
        if "semantic analysis failed" in r.out or "Parsing or semantic" in r.out:
            raise MachineryError(r.out[-3000:])
        if r.error:
            # an evaluation error at some trace: attribute it, reject that trace, go on with the others
            m = re.findall(r"^/?\\? ?tid = (\d+)", r.out, re.M) or re.findall(r"tid = (\d+)", r.out)
            ii = re.findall(r"\bi = (\d+)", r.out)
            if "TRACEFILE" in r.out and not m:
                raise MachineryError(r.out[-3000:])
            if not m:
                if len(trs) == 1:
                    return [(0, 1, "evaluation error: " + _err(r.out))], r.distinct, r.generated
                h = len(trs) // 2
                a, sa, ga = self._validate_part(module, trs[:h], workers, timeout, constants)
                b, sb, gb = self._validate_part(module, trs[h:], workers, timeout, constants)
                return a + [(k + h, e, c) for k, e, c in b], sa + sb, ga + gb
            tid = int(m[-1]) - 1
            rej0 = [(tid, int(ii[-1]) if ii else 0, "evaluation error: " + _err(r.out))]
            rest = [k for k in range(len(trs)) if k != tid]
            if len(rest) == 0 or sum(1 for v in self.violations) > 3:
                return rej0 + [x for x in rej if x[0] != tid], r.distinct, r.generated
            if getattr(self, "_evalerrs", 0) >= 3:
                return rej0, r.distinct, r.generated
            self._evalerrs = getattr(self, "_evalerrs", 0) + 1
            b, sb, gb = self._validate_part(module, [trs[k] for k in rest], workers, timeout, constants)
            return rej0 + [(rest[k], e, c) for k, e, c in b], sb, gb
        # totality: each trace contributes len(ev)+1 states, a rejected one its prefix + 1
        want = 0
        bad = {}
        for tid, ev, c in rej:
            bad[tid] = ev
        for k, tr in enumerate(trs):
            want += (bad[k] + 1) if k in bad else len(tr["ev"]) + 1
        if r.distinct != want:
            raise MachineryError(f"{module}: {r.distinct} states for {want} expected; trace run incomplete\n" + r.out[-2000:])
        return sorted(set(rej)), r.distinct, r.generated

    # ------------------------------------------------------------------
    def violation(self, what, data):
        self.violations.append((what, data))

    def _known(self):
        path = os.path.join(VERIF, "known_findings.jsonl")
        res = []
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if line and not line.startswith("#"):
                    d = json.loads(line)
                    if d.get("status") == "known" and d.get("property") == self.prop:
                        res.append(d)
        return res

    def finish(self, level="model_checking", **cov):
        known = self._known()
        fresh = []
        hit = set()
        for what, data in self.violations:
            key = (data.get("case") or {}).get("finding") if isinstance(data.get("case"), dict) else None
            k = next((d for d in known if key is not None and d["finding"] == key and d.get("clause", "") in what), None)
            if k:
                hit.add(k["finding"])
            else:
                fresh.append((what, data))
        for d in known:
            if d["finding"] in hit:
                print(f"KNOWN-FINDING: property={self.prop} {d['what']}")
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        for f in os.listdir(os.path.join(VERIF, "evidence", "replay")):
            if f.startswith(self.prop + "-"):
                os.remove(os.path.join(VERIF, "evidence", "replay", f))
        coverage = dict(states=self.states, transitions=self.transitions,
                        traces_validated_against_impl=self.ntraces, events_validated=self.nevents,
                        models=self.models, validations=self.validations, samples=self.samples or ["none"])
        coverage.update(self.extra)
        coverage.update(cov)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=coverage,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for n, (what, data) in enumerate(fresh[:5]):
            path = os.path.join("evidence", "replay", f"{self.prop}-{n}.json")
            with open(os.path.join(VERIF, path), "w") as f:
                json.dump(dict(property=self.prop, what=what, seed=self.seed, tier=self.tier, **data), f, indent=1,
                          default=str)
            print(f"{what}")
            print(f"VIOLATION property={self.prop} replay={path}")
        if len(fresh) > 5:
            print(f"... and {len(fresh) - 5} more violations")
        if not fresh:
            print(f"OK property={self.prop} states={self.states} traces={self.ntraces} events={self.nevents} "
                  f"wall={time.time()-self.t0:.1f}s")
        return 1 if fresh else 0


def _err(out):
    m = re.search(r"Error: (.*(?:\n(?!Error|\d+ states).*){0,6})", out)
    return (m.group(1) if m else out[-300:]).replace("\n", " ")[:400]


def attempt(fn, *a, **k):
    """Run code under test: (value, None) or (None, exception name)."""
    try:
        return fn(*a, **k), None
    except Exception as e:  # noqa
        if os.environ.get("VERIF_TB"):
            traceback.print_exc()
        return None, type(e).__name__

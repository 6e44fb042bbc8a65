"""C05: the dispatcher's queue and parent loop driven through a scripted communicator."""
import inspect, os, random, shutil, sys, tempfile, types
from argparse import Namespace

import numpy as np
from astropy.io import fits

from vlib.core import attempt
from forcepho import superscene, dispatcher
from forcepho.superscene import sourcecat_dtype


class Runaway(Exception):
    pass


class MPIError(Exception):
    pass


class Req:
    def __init__(self, source, tag, t):
        self.source, self.tag, self.t = source, tag, t


class Status:
    def __init__(self):
        self.source, self.tag = -1, -1

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class World:
    """The communicator and the workers: decides which receives complete, records everything the parent does."""

    def __init__(self, n, sched, rng):
        self.n, self.sched, self.rng = n, list(sched), rng
        self.ev = []
        self.tasks = []        # (key, payload)
        self.held = {}         # worker: task last sent to it
        self.untagged = False
        self.reqs = []
        self.calls = 0
        world = self

        class Request:
            @staticmethod
            def waitall(requests, statuses=None):
                return world.complete(requests, statuses, "all")[1]

            @staticmethod
            def waitsome(requests, statuses=None):
                return world.complete(requests, statuses, True)

            @staticmethod
            def testsome(requests, statuses=None):
                return world.complete(requests, statuses, False)

        self.MPI = types.SimpleNamespace(Status=Status, Request=Request, ANY_TAG=-1, ANY_SOURCE=-2, COMM_WORLD=self)

    # communicator
    def Get_rank(self):
        return 0

    def Get_size(self):
        return self.n + 1

    def send(self, obj, dest, tag=0):
        if not 0 <= int(tag) < 2 ** 15:
            raise MPIError("invalid tag")     # only receives take MPI.ANY_TAG
        if obj is None:
            self.ev.append(dict(op="stop", dest=int(dest)))
            return
        t = self.identify(obj)
        self.held[int(dest)] = t
        self.ev.append(dict(op="send", t=t, dest=int(dest), tag=int(tag), free=self.untagged))

    def irecv(self, buf=None, source=-2, tag=-1):
        self.ev.append(dict(op="irecv", source=int(source), tag=int(tag)))
        return Req(int(source), int(tag), self.held.get(int(source), 0))

    def complete(self, requests, statuses, mode):
        self.calls += 1
        if self.calls > 4000:
            raise Runaway()
        reqs = list(requests)
        ts = [r.t for r in reqs]
        self.ev.append(dict(op="wait", ts=ts, blocking=bool(mode)))
        if not reqs:
            return (None, None) if mode != "all" else (None, [])
        k = len(reqs)
        if mode == "all":
            idx = list(range(k))
        else:
            if self.sched:
                s = self.sched.pop(0)
                idx = [j for j in range(k) if j < len(s["c"]) and s["c"][j]]
                if s["r"]:
                    idx.reverse()
            else:
                p = self.rng.choice([.1, .5, .9])
                idx = [j for j in range(k) if self.rng.random() < p]
                self.rng.shuffle(idx)
            if mode and not idx:
                idx = [self.rng.randrange(k)]
        if statuses is not None:
            # MPI fills the statuses of the completed requests in completion order
            for n, j in enumerate(idx):
                statuses[n].source, statuses[n].tag = reqs[j].source, reqs[j].tag
        self.ev.append(dict(op="deliver", ts=[ts[j] for j in idx]))
        return idx, [self.result(ts[j]) for j in idx]


class QueueWorld(World):
    def identify(self, obj):
        return obj["t"]

    def result(self, t):
        return dict(t=t)


class ParentWorld(World):
    def identify(self, obj):
        src = [int(v) + 1 for v in obj["active"]["source_index"]]
        for t, (s, payload) in reversed(list(enumerate(self.tasks, 1))):
            if s == src:
                self.tasks[t - 1] = (s, obj)
                return t
        return 0

    def result(self, t):
        obj = self.tasks[t - 1][1]
        final = obj["active"].copy()
        final["f1"] = 1000 + t
        n = len(obj["bands"]) + 6
        return dict(final=final, out=Namespace(fixed=obj["fixed"]), covs=np.array([np.eye(n) * t] * len(final)))


def install(world):
    m = types.ModuleType("mpi4py")
    m.MPI = world.MPI
    sys.modules["mpi4py"] = m
    dispatcher.MPI = world.MPI


def run_queue(case):
    rng = random.Random(case["rseed"])
    w = QueueWorld(case["n"], case.get("sched", []), rng)
    install(w)
    q = dispatcher.MPIQueue(w, case["n"])
    nt = 0
    for op in case["ops"]:
        if op == "submit":
            nt += 1
            mark = len(w.ev)
            w.ev.append(dict(op="make", src=[], fix=[], tag=-nt))
            w.untagged = bool(case.get("untagged")) and rng.random() < .5
            _, exc = attempt(q.submit, dict(t=nt), **({} if w.untagged else dict(tag=100 + 3 * nt)))
            if exc:
                sent = any(e["op"] == "send" for e in w.ev[mark:])
                del w.ev[mark:]
                nt -= 1
                w.ev.append(dict(op="refused", what="submit") if exc == "RuntimeError" and not sent else dict(op="exc", exc=exc))
                if exc != "RuntimeError":
                    break
        elif op == "close":
            mark = len(w.ev)
            _, exc = attempt(q.closeout)
            if exc:
                w.ev.append(dict(op="refused", what="closeout") if exc == "RuntimeError" and len(w.ev) == mark else dict(op="exc", exc=exc))
            else:
                break
        else:
            mode = dict(wait=True, test=False, all="all")[op]
            if op == "test" and not q.irecv_handles:
                continue
            r, exc = attempt(q.collect, blocking=mode)
            if exc:
                w.ev.append(dict(op="refused", what="collect") if exc == "RuntimeError" and op == "wait" else dict(op="exc", exc=exc))
                if exc != "RuntimeError":
                    break
            else:
                w.ev.append(dict(op="hand", ts=[int(x["t"]) for x in r], idle=[int(x) for x in q.idle]))
    return dict(cfg=dict(n=case["n"], nsrc=0, target=0, draws=0, mode="queue"), ev=w.ev)


def run_parent(case):
    rng = random.Random(case["rseed"])
    np.random.seed(case["rseed"] % (2 ** 31))
    w = ParentWorld(case["n"], case["sched"], rng)
    install(w)
    work = tempfile.mkdtemp(prefix="disp_")
    old = os.getcwd()
    S = superscene.SuperScene
    o_out, o_in = S.checkout_region, S.checkin_region
    sig = inspect.signature(o_in)
    seen = {}

    def checkout(self, *a, **k):
        seen["scene"] = self
        seen["n"] = seen.get("n", 0) + 1
        if seen["n"] > 20000:
            raise Runaway()
        r = o_out(self, *a, **k)
        if r[1] is not None:
            src = [int(v) + 1 for v in r[1]["source_index"]]
            fix = [] if r[2] is None else [int(v) + 1 for v in r[2]["source_index"]]
            w.tasks.append((src, None))
            w.ev.append(dict(op="make", src=src, fix=fix, tag=-len(w.tasks)))
        return r

    def checkin(self, *a, **k):
        seen["scene"] = self
        b = sig.bind(self, *a, **k).arguments
        act, fix = b["active"], b.get("fixed")
        ids = [int(v) for v in act["source_index"]]
        before = int(self.sourcecat["n_iter"][ids[0]])
        t = int(round(float(act["f1"][0]))) - 1000
        r = o_in(self, *a, **k)
        cov = self.covariance_matrices[ids[0]]
        w.ev.append(dict(op="checkin", t=t, ids=[i + 1 for i in ids], fix=[] if fix is None else [int(v) + 1 for v in fix["source_index"]],
                         cov=int(cov[0, 0]), task=str(self.patchlog[-1]) if self.patchlog else "",
                         niter=int(self.sourcecat["n_iter"][ids[0]]) - before))
        return r

    try:
        os.chdir(work)
        n = len(case["x"])
        cat = np.zeros(n, dtype=sourcecat_dtype(bands=["f1", "f2"]))
        cat["ra"], cat["dec"] = 53. + np.array(case["x"]) / 3600., np.array(case["y"]) / 3600.
        cat["rhalf"], cat["q"], cat["sersic"] = .1, .8, 2
        cat["f1"], cat["f2"] = 1 + np.arange(n), 3
        hdr = fits.Header()
        hdr["FILTERS"] = "f1,f2"
        fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU(cat, header=hdr)])
        cfg = Namespace(raw_catalog=(cat, hdr), maxactive_per_patch=case["maxactive"], patch_maxradius=case["maxr"],
                        target_draws=case["target"], scene_catalog=os.path.join(work, "scene.fits"),
                        sampling_draws=case["draws"], ntry_checkout=case["ntry"])
        S.checkout_region, S.checkin_region = checkout, checkin
        _, exc = attempt(dispatcher.do_parent, w, config=cfg)
        end = dict(op="end", nact=0, nfix=0, flags=0, niter=[], saved=False)
        if exc:
            end["exc"] = exc
        s = seen.get("scene")
        if s is not None:
            end.update(nact=int(s.n_active), nfix=int(s.n_fixed), flags=int(np.sum(s.sourcecat["is_active"] != 0)),
                       niter=[int(v) for v in s.sourcecat["n_iter"]])
            try:
                saved = fits.getdata(cfg.scene_catalog)
                end["saved"] = bool(np.array_equal(saved["n_iter"], s.sourcecat["n_iter"]) and np.allclose(saved["f1"], s.sourcecat["f1"]))
            except Exception:
                pass
        w.ev.append(end)
    finally:
        S.checkout_region, S.checkin_region = o_out, o_in
        os.chdir(old)
        shutil.rmtree(work, ignore_errors=True)
    return dict(cfg=dict(n=case["n"], nsrc=n, target=case["target"], draws=case["draws"], mode="parent"), ev=w.ev)


def run_case(case):
    return run_queue(case) if case["kind"] == "queue" else run_parent(case)


def run(c):
    rng = c.rng
    hist = []
    for n, s, lim in c.q([(1, 2, 50), (2, 2, 99), (2, 3, 99), (3, 2, 120)], [(1, 3, 50), (2, 3, 50), (2, 3, 99), (3, 3, 99), (3, 4, 99)]):
        hist += c.model("MCDispatch", dict(MaxTasks=c.q(6, 7), N=n, S=s, Target=2, Draws=1, Lim=lim), constraint="Bound", view="NoSched",
                        invariants=["OneTaskPerWorker", "IdleExact", "NeverWaitEmpty", "AlwaysIdleWorker", "Clean"], timeout=900)
    for n, s in c.q([(2, 3)], [(2, 3), (3, 4), (4, 4)]):
        c.model("MCDispatchLive", dict(N=n, S=s, Target=2, LimNum=1, LimDen=2), spec="FairSpec", emit=False,
                invariants=["NoWaitEmpty", "Progress"], properties=["Terminates"], timeout=900)
    c.extra["model_schedules"] = len(hist)
    if len(hist) > c.q(600, 4000):
        hist = rng.sample(hist, c.q(600, 4000))
    cases = []
    for h in hist:
        ns = h["s"]
        cases.append(dict(kind="parent", n=h["n"], sched=h["sched"], x=[12. * k for k in range(ns)], y=[0.] * ns, maxactive=5, maxr=3.,
                          target=h["target"], draws=h["draws"], ntry=rng.choice([1, 2, 50]), rseed=rng.randint(0, 2 ** 31)))
    for _ in range(c.q(250, 2500)):
        ns = rng.randint(2, 12)
        cases.append(dict(kind="parent", n=rng.randint(1, 6), sched=[], x=[rng.uniform(0, 60) for _ in range(ns)],
                          y=[rng.uniform(0, 30) for _ in range(ns)], maxactive=rng.choice([1, 2, 3, 10]), maxr=rng.choice([2., 4., 6.]),
                          target=rng.choice([1, 3, 10]), draws=rng.choice([1, 2, 5]), ntry=rng.choice([1, 3, 1000]),
                          rseed=rng.randint(0, 2 ** 31)))
    for _ in range(c.q(400, 4000)):
        ops = [rng.choice(["submit", "submit", "submit", "wait", "test", "all", "close"]) for _ in range(rng.randint(3, 30))]
        cases.append(dict(kind="queue", n=rng.randint(1, 5), ops=ops, untagged=rng.random() < .3, rseed=rng.randint(0, 2 ** 31)))
    tr = c.execute(run_case, cases)
    c.validate("DispatchTrace", tr, cases, label="schedules")
    c.assumptions += ["workers answer every task (a worker that dies is outside the protocol)",
                      "the child loop (do_child) needs a GPU patcher and is represented by the scripted communicator"]

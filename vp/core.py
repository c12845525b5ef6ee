"""Scenario registry, parallel runner, verdicts, evidence."""
import hashlib, itertools, json, os, pickle, random, re, select, shutil, signal, sys, time, traceback
from . import build
from .world import World, Violation, Inconclusive, CliTimeout, STATS, _worlds

VERIF = build.VERIF
SCN = {}      # name -> Scenario
CHECKS = {}   # property -> list of (scenario name, weight)


class Scenario:
    def __init__(self, fn, name, props, racy, n, limit, params):
        self.fn, self.name, self.props, self.racy, self.n, self.limit, self.params = fn, name, props, racy, n, limit, params


def scenario(props, racy=False, n=8, nt=None, limit=150, params=None):
    """Register a scenario generator for `props`. n: instances in a quick run (with seeds seed*1000+i); nt: thorough."""
    props = [props] if isinstance(props, str) else list(props)

    def deco(fn):
        name = fn.__module__.split(".")[-1] + "." + fn.__name__
        SCN[name] = s = Scenario(fn, name, props, racy, (n, nt if nt is not None else n * 12), limit, params)
        for p in props:
            CHECKS.setdefault(p, []).append(name)
        return fn

    return deco


class Ctx:
    """What a scenario instance gets."""

    def __init__(self, built, seed, tier, prop, idx):
        self.built, self.seed, self.tier, self.prop, self.idx = built, seed, tier, prop, idx
        self.rng = random.Random(seed)
        self.cases = []      # (signature, nontrivial)
        self.soft = []       # violations that did not end the run
        self.worlds = []
        self.notes = []
        self.known = []      # (key, regex): panics that a finding in known_findings.txt accounts for, in this scenario only

    def world(self, **kw):
        w = World(self.built, seed=self.rng.randrange(1 << 30), **kw)
        self.worlds.append(w)
        return w

    def case(self, sig, nontrivial=True):
        self.cases.append((sig if isinstance(sig, str) else repr(sig), nontrivial))

    def fail(self, props, msg):
        raise Violation(props, msg)

    def check(self, cond, props, msg):
        if not cond:
            raise Violation(props, msg() if callable(msg) else msg)


class _Alarm(BaseException):
    pass


def _on_alarm(*a):
    raise _Alarm()


def _attempt(s, built, seed, tier, prop, idx):
    c = Ctx(built, seed, tier, prop, idx)
    r = dict(scn=s.name, seed=seed, idx=idx, status="ok", props=[], msg="", trace=[], panics=[])
    STATS.d.clear()
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(s.limit)
    try:
        try:
            s.fn(c)
        finally:
            signal.alarm(0)
    except Violation as v:
        ps = list(v.props)
        if "*" in ps:  # whatever this scenario is about cannot be had from such a server
            ps = sorted(set(ps) - {"*"} | set(s.props))
        r.update(status="violation", props=ps, msg=v.msg)
    except Inconclusive as e:
        r.update(status="inconclusive", msg=str(e)[:2000])
    except CliTimeout as e:
        r.update(status="inconclusive", msg="CLI command %s did not return within its watchdog" % (e,))
    except _Alarm:
        r.update(status="inconclusive", msg="watchdog")
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        r.update(status="error", msg=traceback.format_exc()[-3000:])
    # a panic anywhere in the server is a violation in its own right
    for w in c.worlds:
        try:
            p = w.panics()
        except Exception:
            p = []
        listed = {k for _, k, _ in known_findings()}
        for key, rx in c.known:
            if key in listed and any(re.search(rx, l) for l in p):
                c.notes.append("known finding %s seen: %s" % (key, p[0]))
                p = [l for l in p if not re.search(rx, l)]
        if p:
            r["panics"] += p
    for w in c.worlds:
        d = w.died() if not r["panics"] and r["status"] != "violation" else None
        if d:
            r.update(status="violation", props=["C22", "C31"], msg=d)
    # so are two event commands running at once
    for w in c.worlds:
        for x in w.sh.runs:
            if x.overlap and r["status"] != "violation":
                r.update(status="violation", props=["C15", "C31"], msg="two event commands ran at once: %r and %r" % (x, x.overlap))
    for w in c.worlds:
        r["trace"] += ["--- world %s" % w.dir] + w.trace[-400:]
        if r["status"] != "ok":
            r["trace"] += ["--- server log tail", w.err_text()[-3000:]]
            r["trace"] += ["--- shell runs"] + [repr(x) for x in w.sh.runs[-60:]] + ["--- requests"] + [repr(x) for x in w.reqs[-60:]]
        try:
            w.close()
        except Exception:
            pass
    if r["panics"]:
        ps = ["C22", "C31"]
        if r["status"] == "violation":
            r["props"] = sorted(set(r["props"]) | set(ps))
            r["msg"] += " [the server panicked: %s]" % r["panics"][0]
        else:
            r.update(status="violation", props=ps, msg="the server panicked: %s (%s)" % (r["panics"][0], r["msg"]))
    r["cases"] = c.cases
    r["notes"] = c.notes
    r["stats"] = dict(STATS.d)
    return r


def run_job(job):
    name, built, seed, tier, prop, idx = job
    s = SCN[name]
    t0 = time.time()
    r = _attempt(s, built, seed, tier, prop, idx)
    if r["status"] == "violation" and not s.racy:
        # a deterministic scenario: insist on seeing it again before calling it a violation
        for _ in range(3):
            r2 = _attempt(s, built, seed, tier, prop, idx)
            if r2["status"] == "violation" and set(r2["props"]) & set(r["props"]):
                break
        else:
            r["status"] = "unreproduced"
    elif r["status"] in ("inconclusive", "error"):
        r2 = _attempt(s, built, seed, tier, prop, idx)
        if r2["status"] != r["status"]:
            r2["notes"].append("first attempt: %s %s" % (r["status"], r["msg"][:300]))
            if r2["status"] == "violation" and not s.racy:
                r3 = _attempt(s, built, seed, tier, prop, idx)
                if r3["status"] != "violation":
                    r2["status"] = "unreproduced"
            r = r2
    r["wall"] = time.time() - t0
    return r


def _descend(pid):
    out = []
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            with open("/proc/%d/task/%s/children" % (pid, t)) as fh:
                for k in fh.read().split():
                    out += [int(k)] + _descend(int(k))
    except OSError:
        pass
    return out


def _leave(*a):
    """A worker is told to stop: take its servers and directories along."""
    try:
        for p in _descend(os.getpid()):
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        for w in list(_worlds):
            shutil.rmtree(w.dir, ignore_errors=True)
    finally:
        os._exit(1)


class Worker:
    """One job in a process of its own. (multiprocessing.Pool forks from helper threads and shares locks between its workers,
    which a terminated worker can take to its grave.)"""

    def __init__(self, job):
        self.job, self.t0, self.buf, self.stopped = job, time.time(), b"", None
        self.fd, w = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.fd)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                signal.signal(signal.SIGTERM, _leave)
                try:
                    r = run_job(job)
                except BaseException as e:
                    r = lost(job, traceback.format_exc()[-2000:])
                d = pickle.dumps(r)
                while d:
                    d = d[os.write(w, d):]
            finally:
                os._exit(0)
        os.close(w)

    def read(self):
        """More of the result; True once there is no more."""
        d = os.read(self.fd, 1 << 20)
        self.buf += d
        return not d

    def result(self):
        os.close(self.fd)
        os.waitpid(self.pid, 0)
        try:
            return pickle.loads(self.buf)
        except Exception as e:
            return lost(self.job, "worker %s: %r" % ("stuck" if self.stopped else "died", e))

    def stop(self):
        try:
            if self.stopped is None:
                self.stopped = time.time()
                os.kill(self.pid, signal.SIGTERM)
            elif time.time() - self.stopped > 10:
                os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass


def lost(j, msg):
    return dict(scn=j[0], seed=j[2], idx=j[5], status="error", props=[], msg=msg, trace=[], cases=[], notes=[], stats={}, panics=[], wall=0)


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l[8:].strip().split(" ", 2)[:2])
                out.append((d["property"], d["key"], l))
    return out


def run_check(prop, tier, seed, only=None, replay=None, budget=None, jobs_n=None, quiet=False):
    t0 = time.time()
    built = build.ensure()
    t_build = time.time() - t0
    names = [n for n in CHECKS.get(prop, []) if only is None or only in n]
    if budget is None:
        budget = 65 if tier == "quick" else 1500
    jobs, more = [], iter(())
    fill = budget * .65
    if replay:
        jobs = [(replay["scn"], built, replay["seed"], tier, prop, replay["idx"])]
    else:
        per = {n: SCN[n].n[0 if tier == "quick" else 1] for n in names}

        def job(n, i):
            h = int.from_bytes(hashlib.sha256(("%s/%d/%d" % (n, seed, i)).encode()).digest()[:6], "big")
            return (n, built, h, tier, prop, i)

        top = max(per.values(), default=0)
        jobs = [job(n, i) for i in range(top) for n in names if i < per[n]]
        # while time is left, more of the same
        more = (job(n, i) for i in itertools.count(top) for n in names if i % top < per[n])
    res, skipped = [], 0
    nproc = jobs_n or min(8, max(1, os.cpu_count() or 1))
    t1 = time.time()
    viol = []
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    it = iter(jobs)
    pend = []
    done = False
    try:
        while True:
            while len(pend) < nproc and not done:
                if time.time() - t1 > budget:
                    done = True
                    skipped = sum(1 for _ in it)
                    break
                j = next(it, None)
                if j is None and time.time() - t1 < fill:
                    j = next(more, None)
                if j is None:
                    done = True
                    break
                pend.append(Worker(j))
            if not pend:
                break
            rd = select.select([x.fd for x in pend], [], [], 0.5)[0]
            for x in list(pend):
                if x.fd in rd and x.read():
                    pend.remove(x)
                    r = x.result()
                    res.append(r)
                    if r["status"] == "violation" and prop in r["props"]:
                        viol.append(r)
                        done = True
                elif time.time() - x.t0 > 4 * SCN[x.job[0]].limit + 60:
                    x.stop()
            if viol and time.time() - t1 > budget:
                break
    finally:
        for x in pend:
            x.stop()
        t2 = time.time()
        while pend and time.time() - t2 < 15:
            for x in list(pend):
                if os.waitpid(x.pid, os.WNOHANG)[0]:
                    pend.remove(x)
                x.stop()
            time.sleep(0.02)
    # evidence
    stats, cases, triv = {}, {}, 0
    for r in res:
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for sig, nt in r["cases"]:
            if nt:
                cases[(r["scn"], sig)] = cases.get((r["scn"], sig), 0) + 1
            else:
                triv += 1
    by = {}
    for r in res:
        d = by.setdefault(r["scn"], {"instances": 0, "held": 0, "inconclusive": 0, "other_property": 0})
        d["instances"] += 1
        if r["status"] == "ok":
            d["held"] += 1
        elif r["status"] == "violation":
            if prop not in r["props"]:
                d["other_property"] += 1
        else:
            d["inconclusive"] += 1
    concluded = sum(1 for r in res if r["status"] in ("ok", "violation"))
    samples = []
    seen = set()
    for r in res:
        if r["status"] == "ok" and r["scn"] not in seen and r["cases"]:
            seen.add(r["scn"])
            samples.append({"scenario": r["scn"], "seed": r["seed"], "cases": [x[0] for x in r["cases"][:6]], "trace": r["trace"][:14]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(len(r["cases"]) for r in res),
            "distinct_nontrivial": len(cases),
            "rule": "An evaluation is one oracle application (a 'case') inside a scenario instance run against the real server; parameters are drawn from "
                    "VERIF_SEED. It is distinct by (scenario, case signature) and non-trivial if the scenario marked the event it needs as having really occurred "
                    "(e.g. the request was in flight, the command ran, the due time was crossed).",
            "samples": samples[:8],
            "scenario_instances": by, "not_started_within_budget": skipped, "trivial_cases": triv, "observed": stats,
            "concluded_instances": concluded,
        },
        "assumptions": ["the observation layer (shim, fake shell, fake token servers) reports truthfully",
                        "held on the executions listed, nothing more"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    inc = [r for r in res if r["status"] in ("inconclusive", "error", "unreproduced")]
    if inc:
        ev["coverage"]["inconclusive"] = [{"scenario": r["scn"], "seed": r["seed"], "status": r["status"], "why": r["msg"][-700:]} for r in inc[:10]]
    oth = [r for r in res if r["status"] == "violation" and prop not in r["props"]]
    if oth:
        ev["coverage"]["discrepancies_of_other_properties"] = [{"scenario": r["scn"], "seed": r["seed"], "props": r["props"], "what": r["msg"][:500]} for r in oth[:10]]
    if only is None and not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    if not quiet:
        print("%s %s seed=%d: %d scenario instances (%d concluded, %d inconclusive), %d cases, %d distinct non-trivial; build %.1fs, total %.1fs" % (
            prop, tier, seed, len(res), concluded, len(inc), ev["coverage"]["evaluations"], len(cases), t_build, time.time() - t0))
        for r in inc[:5]:
            print("  %s: %s seed=%d: %s" % (r["status"], r["scn"], r["seed"], r["msg"][-1500:]))
        for r in oth[:5]:
            print("  (not this property: %s in %s: %s)" % (",".join(r["props"]), r["scn"], r["msg"][:300]))
    for p, key, line in known_findings():
        if p == prop:
            print("KNOWN-FINDING: property=%s %s" % (p, line))
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for r in viol[:3]:
            h = hashlib.sha256(("%s%d" % (r["scn"], r["seed"])).encode()).hexdigest()[:10]
            p = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, h))
            with open(p, "w") as fh:
                json.dump({"property": prop, "scn": r["scn"], "seed": r["seed"], "idx": r["idx"], "tier": tier, "message": r["msg"], "props": r["props"],
                           "how": "python3 /verif/check.py %s --replay %s" % (prop, p), "trace": r["trace"]}, fh, indent=1)
            print("%s in %s (seed %d): %s" % (prop, r["scn"], r["seed"], r["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if not replay and concluded == 0:
        print("nothing concluded: no verdict")
        return 3
    return 0

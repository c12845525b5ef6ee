"""Directed time scenarios: due times of many accounts with varied settings, suspends, wall clock steps, retry series."""
import re
from email.utils import parsedate_to_datetime
from .core import scenario
from .world import *
from .walk import secs

UNITS = {"s": 1, "m": 60, "h": 3600, "d": 86400}


def span(rng, lo, hi):
    """A random time in [lo, hi] seconds, spelt in a random unit that can express it (possibly rounding)."""
    t = rng.randrange(lo, hi + 1)
    u = rng.choice([u for u in "smhd" if UNITS[u] <= t] or ["s"])
    return "%d%s" % (max(1, t // UNITS[u]), u)


class Acc:
    """What one account with a token is expected to do."""

    def __init__(self, a):
        self.a = a
        self.obt = self.exp = 0.0
        self.token = self.rt = None
        self.last = None      # virtual (boot) time of a failed attempt's end


def eff(a, glob, k, default):
    v = getattr(a, k)
    v = glob.get(k) if v is None else v
    return secs(v) if v is not None else default


def due(x, glob):
    if x.last is not None:
        return x.last + eff(x.a, glob, "refresh_retry", 40)
    return min(x.exp - eff(x.a, glob, "refresh_before_expiry", 90), x.obt + eff(x.a, glob, "refresh_at_least", 5400))


def rand_times(rng, glob):
    for k, lo, hi in (("refresh_at_least", 200, 20000), ("refresh_before_expiry", 10, 900), ("refresh_retry", 20, 400)):
        if rng.random() < .4:
            glob[k] = span(rng, lo, hi)
        else:
            glob.pop(k, None)
    return glob


def rand_acct_times(rng):
    return {k: span(rng, lo, hi) if rng.random() < .45 else None
            for k, lo, hi in (("refresh_at_least", 200, 20000), ("refresh_before_expiry", 10, 900), ("refresh_retry", 20, 400))}


@scenario(["C10", "C04", "C11"], n=24, nt=600)
def due_times(c):
    """Many accounts, each with its own timing: nothing is refreshed early, everything exactly when due."""
    r = c.rng
    w = c.world(verbose=0)
    glob = rand_times(r, {})
    xs = {}
    for i in range(r.choice([1, 3, 5, 8])):
        a = w.acct("acct%d" % i, **rand_acct_times(r))
        xs[a.name] = Acc(a)
    life = {}

    def answer(q):
        x = xs[q.act]
        ei = r.choice([1300, 2000, 3599, 3600, 7200, 86400, 10**7])
        # lifetimes shorter than refresh_before_expiry would be refreshed at once, for ever
        ei = max(ei, eff(x.a, glob, "refresh_before_expiry", 90) + 100)
        life[q.n] = ei
        return w.grant(q, ei, refresh=True)

    w.default_policy = answer
    w.start([x.a for x in xs.values()], glob)
    w.settle()
    names = list(xs)
    r.shuffle(names)
    seen = 0

    def absorb():
        nonlocal seen
        with w.lock:
            qs = w.reqs[seen:]
            seen = len(w.reqs)
        for q in qs:
            x = xs[q.act]
            x.obt, x.exp, x.token, x.last = w.now(), w.now() + life[q.n], q.issued["access"], None
        return qs

    for n in names:
        w.authorise(n)
        absorb()
        w.advance(r.choice([0, 1, 13, 100]))
        if w.reqs[seen:]:
            early = [q.act for q in w.reqs[seen:] if due(xs[q.act], glob) > w.now() + .5]
            c.check(not early, "C10", "refreshed while others were being authorised, too early: %s" % early)
            absorb()
    for step in range(r.choice([10, 20, 30])):
        now = w.now()
        nxt = min(xs.values(), key=lambda x: due(x, glob))
        t = due(nxt, glob)
        if t <= now:
            # overdue: has it been missed?
            if w.confirm(lambda: len(w.reqs) == seen):
                c.fail(["C10"], "%s was due at %.1f, it is now %.1f, and nothing happened" % (nxt.a.name, t, now))
            absorb()
            continue
        if r.random() < .12:
            # a reload that only changes timings
            for x in xs.values():
                if r.random() < .5:
                    x.a = x.a.copy(**rand_acct_times(r))
            glob = rand_times(r, dict(glob))
            w.write_conf([x.a for x in xs.values()], glob)
            c.check(w.cli("reload").rc == 0, ["C04", "C20"], "harmless reload refused")
            w.settle()
            late = {n for n, x in xs.items() if due(x, glob) <= w.now()}
            got = {q.act for q in w.reqs[seen:]}
            # the ones that became due may wait for the refresher's next look, but no longer than that
            c.check(got <= late, ["C10", "C04"], "after a reload %s were refreshed but only %s are due" % (got, late))
            absorb()
            if late - got:
                w.advance(38)
                got2 = {q.act for q in w.reqs[seen:]}
                if not late - got <= got2 and w.confirm(lambda: not late - got <= {q.act for q in w.reqs[seen:]}):
                    c.fail(["C10", "C04"], "%s are due under the reloaded settings but were not refreshed 38 s later" % (late - got - got2))
                early = {n for n in got2 if due(xs[n], glob) > w.now() + .5}
                c.check(not early, ["C10"], "%s refreshed too early after a reload" % early)
                absorb()
            c.case(("reload", len(late)), True)
            continue
        if t - now > 1.2:
            k = r.random()
            w.advance(t - now - r.choice([.5, .9, .5]) if k < .7 else r.uniform(.1, t - now - 1))
            if len(w.reqs) > seen:
                q = w.reqs[seen]
                c.fail(["C10"], "%s was refreshed at %.1f although it is due at %.1f (obtained %.1f, expires %.1f, %s, global %s)" % (
                    q.act, q.t_recv, due(xs[q.act], glob), xs[q.act].obt, xs[q.act].exp, xs[q.act].a.text(), glob))
            if w.now() < t - 1:
                continue
        w.advance(t - w.now() + .3)
        dd = {n for n, x in xs.items() if due(x, glob) <= w.now()}
        if w.confirm(lambda: not dd <= {q.act for q in w.reqs[seen:]}):
            c.fail(["C10"], "%s became due at %.1f but was not refreshed by %.1f (obtained %.1f, expires %.1f, %s, global %s)" % (
                nxt.a.name, t, w.now(), nxt.obt, nxt.exp, nxt.a.text(), glob))
        for q in w.reqs[seen:]:
            c.check(q.act in dd, ["C10"], "%s was refreshed at %.1f though it isn't due until %.1f" % (q.act, q.t_recv, due(xs[q.act], glob)))
        c.check(len(w.reqs) - seen == len(dd), ["C10", "C11"], "more than one refresh per due account: %s" % (w.reqs[seen:],))
        why = ("x" if nxt.exp - eff(nxt.a, glob, "refresh_before_expiry", 90) < nxt.obt + eff(nxt.a, glob, "refresh_at_least", 5400) else "a")
        src = tuple("a" if getattr(nxt.a, k) else "g" if k in glob else "d" for k in ("refresh_at_least", "refresh_before_expiry"))
        absorb()
        c.case(("due", why, src, len(dd), len(xs)), True)
    for n, x in xs.items():
        c.check(w.token(n) == x.token, ["C01", "C10"], "%s does not show its newest token" % n)


@scenario(["C14", "C01", "C10"], n=20, nt=500)
def suspend_tokens(c):
    """Suspends: what expired meanwhile is not shown, what fell due is refreshed within about 40 s of resuming."""
    r = c.rng
    w = c.world(verbose=0)
    glob = rand_times(r, {})
    hold = [False]
    xs = {}
    for i in range(4):
        a = w.acct("n%d" % i, **rand_acct_times(r))
        xs[a.name] = Acc(a)
    early = []

    def answer(q):
        x = xs[q.act]
        if hold[0]:
            return HOLD
        if q.grant == "refresh_token" and due(x, glob) > w.boot_now() + .5:
            early.append((q.act, due(x, glob), w.boot_now()))
        ei = r.choice([2000, 3600, 7200, 40000]) + r.randrange(500)
        g = w.grant(q, ei)
        x.obt, x.exp, x.token, x.rt = w.boot_now(), w.boot_now() + ei, q.issued["access"], q.issued["refresh"]
        return g

    w.default_policy = answer
    w.start([x.a for x in xs.values()], glob)
    for n in xs:
        w.authorise(n)
        w.advance(r.choice([0, 3, 50]))
    for rnd in range(4):
        # some awake time first, short of anything being due
        t = min(due(x, glob) for x in xs.values()) - w.boot_now()
        if t > 10:
            w.advance(r.uniform(1, min(t - 5, 300)))
        k = r.choice(["due", "expire", "all", "none"])
        ds = sorted((due(x, glob), x.exp) for x in xs.values())
        now = w.boot_now()
        dt = {"due": ds[0][0] + r.uniform(1, 60), "expire": sorted(e for _, e in ds)[r.randrange(len(ds))] + r.uniform(1, 60), "all": max(e for _, e in ds) + 100,
              "none": ds[0][0] - r.uniform(41, 60)}[k] - now
        if dt < 1:
            dt = r.uniform(1, 5000)
        peek = r.random() < .5
        nreq = len(w.reqs)
        hold[0] = peek
        w.suspend(dt)
        t_res, b_res = w.now(), w.boot_now()
        if peek:
            # nothing that ran out is shown any more; what has not is
            for n in r.sample(sorted(xs), len(xs)):
                x = xs[n]
                res = w.show(n)
                if x.exp <= w.boot_now() - .5:
                    c.check(res.rc == 1 and x.token not in res.out, ["C14", "C01"], "%s's token ran out %.0f s ago while suspended but show says %r" % (n, w.boot_now() - x.exp, res))
                    c.check("expired" in res.err, ["C14", "C28"], "show of an expired token: %r" % res)
                    c.case(("expired after suspend", k))
                elif x.exp > w.boot_now() + .5:
                    c.check(res.rc == 0 and res.out == x.token + "\n", ["C14", "C01"], "%s's token runs another %.0f s but show says %r" % (n, x.exp - w.boot_now(), res))
            w.settle()
            hold[0] = False
            for q in w.held():
                q.release(answer(q))
            w.settle()
        need = {n for n, x in xs.items() if due(x, glob) <= b_res and x.obt < b_res}
        total = r.choice([38, 39.5])
        while total - (w.now() - t_res) > .01:
            w.advance(min(r.choice([1, 5, 17, 36]), total - (w.now() - t_res)))
        w.settle()
        if w.confirm(lambda: any(xs[n].obt < b_res for n in need)):
            c.fail(["C14", "C10"], "resumed %.0f s ago; %s fell due during the suspend (of %.0f s) and were not refreshed" % (
                w.now() - t_res, [n for n in need if xs[n].obt < b_res], dt))
        c.check(not early, ["C14", "C10"], "refreshed after a suspend of %.0f s though not yet due (account, due, now): %s" % (dt, early))
        c.case(("suspend", k, len(need), peek), True)
        for n, x in xs.items():
            if x.exp > w.boot_now() + 1:
                c.check(w.token(n) == x.token, ["C14", "C01"], "%s does not show its token after the suspend" % n)


@scenario(["C14", "C09"], n=12, nt=300)
def suspend_reminders(c):
    """Suspends: reminders that fell due are given within about 40 s of resuming, once."""
    r = c.rng
    w = c.world(verbose=0)
    iv = span(r, 60, 9000)
    glob = {"auth_notify_cmd": '"AN run"', "auth_notify_interval": iv}
    I = secs(iv)
    w.start([w.acct("p%d" % i) for i in range(3)], glob)
    last, url = {}, {}
    for i in range(3):
        n = "p%d" % i
        url[n] = w.auth_url(n)
        w.settle()
        last[n] = w.boot_now()
        w.advance(r.uniform(0, 19))
    seen = len(w.sh.runs)
    c.check(seen == 3, ["C09"], "three new pending accounts, %d announcements" % seen)
    for _ in range(5):
        dt = r.choice([I * .4, I + 1, I * 2.5, 20, 5 * 86400])
        w.suspend(dt)
        t0 = w.now()
        tgt = t0 + 38
        need = {n for n in last if last[n] + I <= w.boot_now()}
        soon = {n for n in last if last[n] + I <= w.boot_now() + 38.5}
        while tgt - w.now() > .01:
            w.advance(min(r.choice([2, 9, 30]), tgt - w.now()))
            for x in w.sh.runs[seen:]:
                c.check(last[x.act] + I <= w.boot_now() + .5, ["C09", "C14"], "%s reminded %.0f s after its last notification (interval %d)" % (x.act, w.boot_now() - last[x.act], I))
                c.check(x.url == url[x.act], ["C09"], "wrong URL announced")
                last[x.act] = w.boot_now()
                need.discard(x.act)
            seen = len(w.sh.runs)
        if need and w.confirm(lambda: len(w.sh.runs) == seen):
            c.fail(["C14", "C09"], "reminders for %s fell due in a suspend of %.0f s (interval %d) but were not shown within 38 s of resuming" % (need, dt, I))
        c.case(("reminders", round(dt / I, 1)), bool(soon))


@scenario(["C14", "C29", "C10", "C09"], n=16, nt=400)
def wall_steps(c):
    """Stepping the wall clock changes neither what is shown nor when things happen."""
    r = c.rng
    w = c.world(verbose=0)
    glob = rand_times(r, {"auth_notify_cmd": '"AN run"', "auth_notify_interval": span(r, 100, 3000)})
    x = Acc(w.acct("tok", **rand_acct_times(r)))
    w.default_policy = lambda q: HOLD
    w.start([x.a, w.acct("pend")], glob)
    ei = max(r.choice([1500, 3600, 20000]), eff(x.a, glob, "refresh_before_expiry", 90) + 300)
    u = w.auth_url("tok")
    w.callback(u, code="c")
    w.settle()
    q = w.held()[0]
    q.release(w.grant(q, ei))
    w.settle()
    x.obt, x.exp, x.token = w.now(), w.now() + ei, q.issued["access"]
    pu = w.auth_url("pend")
    w.settle()
    last = w.now()
    I = secs(glob["auth_notify_interval"])
    nreq, nrun = len(w.reqs), len(w.sh.runs)
    refreshed = False
    for _ in range(r.choice([6, 10])):
        dt = r.choice([1, -1]) * r.choice([1, 30, 3600, 86400, 400 * 86400, 20 * 365 * 86400])
        if w.real_now() + dt < 1e6:
            dt = abs(dt)
        w.step_wall(dt)
        res = w.show("tok", "-u")
        exp = w.now() >= x.exp
        if not exp:
            c.check(res.rc == 0 and res.out == x.token + "\n", ["C14", "C01"], "after stepping the wall clock by %d s, a token with %.0f s left: %r" % (dt, x.exp - w.now(), res))
        else:
            c.check(res.rc == 1, ["C14", "C01"], "after stepping the wall clock by %d s, an expired token: %r" % (dt, res))
        st = {l.split(": ")[0]: l for l in w.cli("status").out.splitlines()}
        if not exp:
            m = re.search(r"obtained (.*); expires (.*)\)", st["tok"])
            c.check(bool(m), ["C29", "C14"], "status: %r" % st["tok"])
            if m:
                o, e = [parsedate_to_datetime(t).timestamp() for t in m.groups()]
                off = w.real_now() - w.now()
                c.check(abs(o - off - x.obt) < 2 and abs(e - off - x.exp) < 2, ["C29", "C14"], "status says obtained %s, expires %s; but obtained %.0f s ago, expires in %.0f s, at %s" % (
                    m.group(1), m.group(2), w.now() - x.obt, x.exp - w.now(), w.real_now()))
        nxt = min([due(x, glob)] * (not refreshed) + [last + I])
        if w.confirm(lambda: len(w.reqs) > nreq and w.now() < due(x, glob), 0):
            c.fail(["C14", "C10"], "refreshed after a wall clock step, too early")
        gap = nxt - w.now()
        if gap > 1.5 and r.random() < .6:
            w.advance(gap - .5)
            c.check(len(w.reqs) == nreq and len(w.sh.runs) == nrun, ["C14", "C10", "C09"], "after wall clock steps something happened %.1f s early: %s %s" % (.5, w.reqs[nreq:], w.sh.runs[nrun:]))
        if r.random() < .5:
            dt = r.choice([1, -1]) * r.choice([30, 3600, 86400])
            w.step_wall(dt)
        w.advance(max(0, nxt - w.now()) + .3)
        if not refreshed and due(x, glob) <= w.now():
            if w.confirm(lambda: len(w.reqs) != nreq + 1):
                c.fail(["C14", "C10"], "after wall clock steps, a due refresh: %s" % w.reqs[nreq:])
            nreq += 1
            refreshed = True
            c.case("refresh due across a wall clock step")
            # keep it outstanding no longer than its timeout: answer it
            q = w.held()[-1]
            q.release(w.grant(q, ei))
            w.settle()
            x.obt, x.exp, x.token, refreshed = w.now(), w.now() + ei, q.issued["access"], False
        if last + I <= w.now():
            if w.confirm(lambda: len(w.sh.runs) != nrun + 1):
                c.fail(["C14", "C09"], "after wall clock steps, a due reminder: %s" % w.sh.runs[nrun:])
            nrun += 1
            last = w.now()
            c.case("reminder due across a wall clock step")
        c.case(("wall", dt), True)


FAULTS = ["refused", "netunreach", "timedout", "close", "reset", "trunc", "stall", "truncchunk", "resetbody", "resethead", "stallbody"]


@scenario(["C12", "C10", "C11", "C15"], n=28, nt=700, limit=240)
def retry_series(c):
    """A long series of transient failures of every kind, then success or not; transient_error_if_cmd every sixth time."""
    r = c.rng
    w = c.world(verbose=0)
    retry = r.choice([None, "20s", "1m", "45s", "3m", "1h"])
    R = secs(retry) if retry else 40
    glob = {"token_event_cmd": '"TE run"', "transient_error_if_cmd": '"TR run"'}
    long = c.idx % 28 == 1
    if r.random() < .2 and not long:
        del glob["transient_error_if_cmd"]
    if retry and r.random() < .5:
        glob["refresh_retry"] = retry
        a = w.acct("acc")
    else:
        a = w.acct("acc", refresh_retry=retry)
        if r.random() < .4:
            glob["refresh_retry"] = "7m"
            if retry is None:
                R = 420
    other = w.acct("other", refresh_at_least="100d", refresh_before_expiry="1s")
    w.default_policy = lambda q: HOLD
    w.sh.policy = lambda run: "hold" if run.kind == "TR" else 0
    w.start([a, other], glob)
    tok, rt = {}, {}

    def auth(n, ei):
        u = w.auth_url(n)
        w.callback(u, code="c-" + n)
        w.settle()
        q = w.held(n)[0]
        q.release(w.grant(q, ei))
        w.settle()
        tok[n], rt[n] = q.issued["access"], q.issued["refresh"]
        return w.now() + ei

    auth("other", 10**8)
    ei = r.choice([3600, 100000])
    exp = auth("acc", ei)
    obt = w.now()
    ts = w.servers["acc"]
    first = min(exp - 90, obt + 5400)
    manual = r.random() < .3
    eager = r.random() < .4
    nextdue = first
    fails = 0
    hits = 0
    n_rounds = 265 if long else r.choice([3, 7, 8, 13, 14, 20])
    outcome = None
    for k in range(n_rounds):
        f = r.choice(FAULTS) if n_rounds < 100 or r.random() < .05 else "refused"
        conn = {"refused": 111, "netunreach": 101, "timedout": 110}.get(f)
        if conn:
            w.down(ts, conn)
            hits = w.conn_fails(ts)
        else:
            w.up(ts)
        nreq = len(w.reqs)
        gap = nextdue - w.now()
        if manual and k == 0 or eager and k and gap > 3 and r.random() < .3:
            # asking does not make the failures before it any less consecutive
            w.advance(r.uniform(1, 1000) if k == 0 else r.uniform(.1, gap - 1.5))
            c.check(w.cli("refresh", "acc").rc == 0, ["C12", "C28"], "refresh of an active token failed")
            w.settle()
        else:
            if gap > 1.2 and r.random() < .6:
                w.advance(gap - .6)
                c.check(len(w.reqs) == nreq and (not conn or w.conn_fails(ts) == hits), ["C12", "C10"],
                        "attempt %d happened %.1f s early (refresh_retry %d, failures so far %d)" % (k + 1, .6, R, fails))
            w.advance(max(0, nextdue - w.now()) + .3)
        if conn:
            if w.confirm(lambda: w.conn_fails(ts) == hits):
                c.fail(["C12", "C10"], "attempt %d was due at %.1f (refresh_retry %d, %d failures so far) but did not happen" % (k + 1, nextdue, R, fails))
            c.check(w.conn_fails(ts) == hits + 1, ["C12", "C11"], "one refresh attempt connected %d times" % (w.conn_fails(ts) - hits))
            tfail = w.now()
        else:
            if w.confirm(lambda: len(w.reqs) != nreq + 1):
                c.fail(["C12", "C10", "C11"], "attempt %d was due at %.1f (refresh_retry %d, %d failures so far): requests %s" % (k + 1, nextdue, R, fails, w.reqs[nreq:]))
            q = w.reqs[-1]
            c.check(q.f("refresh_token") == rt["acc"] and q.grant == "refresh_token", ["C12", "C08"], "attempt %d: %r, refresh token is %s" % (k + 1, q, rt["acc"]))
            if r.random() < .4:
                # while it is outstanding nothing else starts one
                w.cli("refresh", "acc")
                w.settle()
                c.check(len(w.reqs) == nreq + 1, ["C11"], "a refresh was started while one was outstanding")
            if f in ("stall", "stallbody"):
                w.advance(r.uniform(20, 29))
                c.check(not [x for x in w.reqs[nreq + 1:]], ["C11"], "a refresh was started while one was stalled")
                if f == "stallbody":
                    pass
                w.advance(31 - (w.now() - q.t_recv))
                if w.confirm(lambda: not q.eof):
                    c.fail(["C12", "C23"], "a stalled refresh was not given up on after 31 s")
                tfail = q.t_recv + 30
                q.release(CLOSE)
                w.settle()
                # the server noticed the time-out when the clock passed 30 s: i.e. now
                tfail = w.now()
            else:
                act = {"close": CLOSE, "reset": RESET,
                       "trunc": ("raw", [b"HTTP/1.1 200 OK\r\nContent-Length: 500\r\n\r\n{\"access"]),
                       "truncchunk": ("raw", [b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n{\"acc\r\n"]),
                       "resetbody": ("raw", [b"HTTP/1.1 200 OK\r\nContent-Length: 500\r\n\r\n{\"access"], "reset"),
                       "resethead": ("raw", [b"HTTP/1.1 200 "], "reset")}[f]
                q.release(act)
                w.settle()
                tfail = w.now()
        fails += 1
        # kept, and shown until it expires
        trs = [x for x in w.sh.runs if x.kind == "TR"]
        if fails % 6 == 0 and "transient_error_if_cmd" in glob:
            if w.confirm(lambda: len([x for x in w.sh.runs if x.kind == "TR"]) != fails // 6):
                c.fail(["C12"], "%d consecutive failures but transient_error_if_cmd ran %d times" % (fails, len([x for x in w.sh.runs if x.kind == "TR"])))
            run = [x for x in w.sh.runs if x.kind == "TR"][-1]
            c.check(run.act == "acc" and run.argv[1:] == ["-c", "TR run"], ["C12"], "transient_error_if_cmd was run as %r" % (run,))
            if w.now() < exp - 1:
                c.check(w.token("acc") == tok["acc"], ["C12", "C01"], "the token isn't shown while transient_error_if_cmd runs")
            end = "0" if n_rounds > 100 else r.choice(["0", "0", "0", "1", "hang", "sig", "slow0"])
            n2 = len(w.reqs)
            if end in ("0", "slow0"):
                if end == "slow0":
                    # (beyond refresh_retry the next attempt would follow at once)
                    w.advance(r.uniform(min(60, R / 2), min(178, R - 3)))
                    c.check(len(w.reqs) == n2, ["C12", "C11"], "refreshing went on while transient_error_if_cmd was running")
                    c.check(run.status == "held", ["C12"], "transient_error_if_cmd was cut off before 3 minutes")
                run.finish(0)
                w.settle()
            else:
                if end == "1":
                    run.finish(r.choice([1, 2, 255]))
                elif end == "sig":
                    run.sig(9)
                else:
                    w.advance(179 - .5)
                    c.check(run.status == "held", ["C12"], "transient_error_if_cmd was cut off before 3 minutes")
                    w.advance(1.8)
                w.settle()
                c.check(not w.confirm(lambda: run.status == "held"), ["C12"], "transient_error_if_cmd was not killed after 3 minutes")
                outcome = "dropped"
                c.case(("tr", end, fails // 6))
                break
            c.case(("tr", end, fails // 6))
        else:
            c.check(len(trs) == (fails // 6 if "transient_error_if_cmd" in glob else 0), ["C12"], "%d failures, transient_error_if_cmd ran %d times" % (fails, len(trs)))
        if n_rounds > 100 and 5 < k < n_rounds - 20:
            nextdue = tfail + R
            continue
        res = w.show("acc", "-u")
        if w.now() < exp - 1:
            c.check(res.rc == 0 and res.out == tok["acc"] + "\n", ["C12", "C01"], "after %d transient failures (last: %s) show says %r, %.0f s before expiry" % (fails, f, res, exp - w.now()))
        else:
            c.check(res.rc == 1 and "expired" in res.err, ["C12", "C01"], "after %d transient failures (last: %s) and expiry, show says %r" % (fails, f, res))
            w.settle()
            if not conn and w.held("acc"):
                # `show` on an expired token starts a refresh at once
                w.held("acc")[0].release(RESET)
                w.settle()
                fails += 1
                tfail = w.now()
            elif conn:
                if w.conn_fails(ts) > hits + 1:
                    fails += 1
                    tfail = w.now()
            if fails % 6 == 0 and "transient_error_if_cmd" in glob and len([x for x in w.sh.runs if x.kind == "TR"]) == fails // 6:
                [x for x in w.sh.runs if x.kind == "TR"][-1].finish(0)
                w.settle()
        c.case(("fault", f, fails % 6), True)
        nextdue = tfail + R
    evs = [x.event for x in w.sh.runs if x.kind == "TE" and x.act == "acc"]
    if outcome == "dropped":
        if w.confirm(lambda: [x.event for x in w.sh.runs if x.kind == "TE" and x.act == "acc"] != ["token_new", "token_invalidated"]):
            c.fail(["C12", "C15", "C13"], "transient_error_if_cmd gave up but the events are %s" % [x.event for x in w.sh.runs if x.kind == "TE"])
        st = w.cli("status")
        c.check("acc: No access" in st.out and w.show("acc", "-u").rc == 1, ["C12", "C13"], "the token survives transient_error_if_cmd failing: %s" % st)
        n2 = len(w.reqs)
        w.advance(R + 5)
        c.check(len(w.reqs) == n2, ["C12", "C13"], "a dropped token is still refreshed")
    else:
        c.check(evs == ["token_new"], ["C12", "C13", "C15"], "transient failures raised events: %s" % evs)
        # success resets the count
        w.up(ts)
        nreq = len(w.reqs)
        w.advance(max(0, nextdue - w.now()) + .3)
        if w.confirm(lambda: len(w.reqs) != nreq + 1):
            c.fail(["C12", "C10"], "no retry %d s after failure %d" % (R, fails))
        q = w.reqs[-1]
        q.release(w.grant(q, 50000))
        w.settle()
        c.check(w.token("acc") == q.issued["access"], ["C12", "C01"], "the refreshed token isn't shown after transient failures")
        t0 = len([x for x in w.sh.runs if x.kind == "TR"])
        w.down(ts)
        h0 = w.conn_fails(ts)
        w.cli("refresh", "acc")
        w.settle()
        m = r.choice([5, 6])
        for i in range(1, m):
            w.advance(R + .3)
        if "transient_error_if_cmd" in glob:
            n = len([x for x in w.sh.runs if x.kind == "TR"]) - t0
            c.check(w.conn_fails(ts) - h0 == m, ["C12", "C10"], "%d attempts instead of %d" % (w.conn_fails(ts) - h0, m))
            c.check(n == (1 if m == 6 else 0), ["C12"], "after a success, %d failures ran transient_error_if_cmd %d times" % (m, n))
            for x in w.sh.runs:
                if x.kind == "TR":
                    x.finish(0)
        c.case(("reset after success", m, fails % 6))
    c.check(w.token("other") == tok["other"], ["C12", "C13"], "another account lost its token")

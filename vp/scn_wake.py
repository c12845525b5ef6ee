"""Nobody sleeps through a change: the server's clocks stand still, so whatever is due must be done at once or never."""
import random, threading, time
from . import codec
from .core import scenario
from .world import *

CHAOS = [(300, 1000), (500, 4000), (800, 10000), (1000, 3000), (300, 25000)]


def crowd(c, r, jobs, spread):
    """Run the jobs in threads, each after a pause of its own."""
    errs = []

    def go(f, d):
        try:
            time.sleep(d)
            f()
        except Violation as v:
            errs.append(v)
        except Exception as e:
            errs.append(e)

    th = [threading.Thread(target=go, args=(f, r.uniform(0, spread))) for f in jobs]
    [t.start() for t in th]
    [t.join() for t in th]
    for e in errs:
        if isinstance(e, Violation):
            raise e
    if errs:
        raise Inconclusive(repr(errs[0]))


@scenario(["C09", "C31", "C23", "C15"], racy=True, n=24, nt=900)
def announce(c):
    """Many accounts ask for authorisation at about the same time: each request is announced, once, at once."""
    r = c.rng
    w = c.world(verbose=0)
    n = r.choice([3, 6, 12])
    A = [w.acct("n%d" % i) for i in range(n)]
    hang = r.random() < .3
    w.sh.policy = lambda run: "hold" if hang and run.kind == "AN" and random.Random(run.seq).random() < .4 else 0
    w.start(A, {"auth_notify_cmd": '"AN run"', "token_event_cmd": '"TE run"'})
    want = {a.name: [] for a in A}
    for rnd in range(4):
        w.ctl.chaos_prob, w.ctl.chaos_max_us = r.choice(CHAOS)
        got = {}

        def ask(name):
            def f():
                b = w.raw_sock(("refresh:withurl " + name).encode(), timeout=60)
                if not b.startswith(b"pending:"):
                    raise Violation(["C28", "C31"], "refresh of an account without a token: %r" % b)
                got[name] = b[8:].decode()
            return f

        who = r.sample([a.name for a in A], r.randrange(2, n + 1))
        crowd(c, r, [ask(x) for x in who], r.choice([.001, .005, .02, .06]))
        w.ctl.chaos_prob = 0
        w.settle(timeout=40)
        for x in who:
            want[x].append(got[x])

        def said():
            o = {a.name: [] for a in A}
            for x in w.sh.runs:
                if x.kind == "AN":
                    o[x.act].append(x.url)
            return o

        if w.confirm(lambda: said() != want):
            s = said()
            bad = [(x, want[x], s[x]) for x in want if s[x] != want[x]][0]
            c.fail(["C09", "C31"], "%s asked for authorisation with %s, but announced were %s (%d asked at once)" % (bad + (len(who),)))
        c.case(("announced", len(who), rnd, hang), True)


@scenario(["C10", "C31", "C11", "C17"], racy=True, n=24, nt=900)
def due_at_once(c):
    """Tokens that are due for a refresh as soon as they arrive, many at about the same time, by every route."""
    r = c.rng
    w = c.world(verbose=0)
    n = r.choice([3, 6, 12])
    A = [w.acct("d%d" % i) for i in range(n)]
    w.default_policy = lambda q: HOLD if q.grant == "refresh_token" else w.grant(q, 60)
    w.start(A, {"refresh_at_least": "100d"})
    base = codec.decode(w.raw_sock(b"dump:"))
    for rnd in range(6):
        k = len(w.reqs)
        w.ctl.chaos_prob, w.ctl.chaos_max_us = r.choice(CHAOS + [(900, 6000), (700, 15000)])
        who = r.sample([a.name for a in A], r.randrange(2, n + 1))
        route = {x: r.choice(["exchange", "exchange", "restore"]) for x in who}

        def job(x):
            def f():
                if route[x] == "restore":
                    b = w.raw_sock(b"restore:" + codec.encode({x: (base[x][0], dict(access="T-%s-%d" % (x, rnd), obtained=w.real_now() - 100, expiry=w.real_now() + 50, refresh="R-%s-%d" % (x, rnd)))}), timeout=60)
                    if b != b"ok:":
                        raise Violation(["C17", "C31"], "restore answered %r" % b)
                else:
                    b = w.raw_sock(("showtoken:withurl " + x).encode(), timeout=60)
                    if not b.startswith(b"pending:"):
                        raise Inconclusive("show: %r" % b)
                    w.callback(b[8:].decode(), code="c")
            return f

        crowd(c, r, [job(x) for x in who], r.choice([.001, .005, .02, .06]))
        w.ctl.chaos_prob = 0
        w.settle(timeout=40)

        def refr():
            return sorted(q.act for q in w.reqs[k:] if q.grant == "refresh_token")

        if w.confirm(lambda: refr() != sorted(who)):
            c.fail(["C10", "C31", "C11"], "tokens of %s arrived (%s), all due for a refresh at once, but refreshed were %s" % (sorted(who), route, refr()))
        c.case(("due", len(who), rnd, "restore" in route.values()), True)
        # rejected and revoked: back to the start
        for q in w.held():
            q.release(J({"error": "invalid_grant"}, 400, "Bad Request"))
        w.settle()
        x = w.raw_sock(b"status:").decode()
        c.check(x.count("No access token") == n, ["C13", "C11", "C31"], "after all refreshes were rejected: %s" % x)


@scenario(["C10", "C04", "C31", "C09"], racy=True, n=16, nt=600)
def due_by_reload(c):
    """Reloads that make waiting tokens and reminders due, while other things go on: all are done at once."""
    r = c.rng
    w = c.world(verbose=0)
    A = [w.acct("t%d" % i) for i in range(r.choice([2, 5]))]
    B = [w.acct("p%d" % i) for i in range(r.choice([1, 4]))]
    O = w.acct("other")
    hold = []
    w.default_policy = lambda q: HOLD if q.grant == "refresh_token" else w.grant(q, 10**7)
    glob = {"refresh_at_least": "100d", "auth_notify_cmd": '"AN run"', "auth_notify_interval": "100d"}
    w.start(A + B + [O], glob)
    for a in A:
        w.authorise(a.name, settle=False)
    w.settle()
    url = {b.name: w.auth_url(b.name) for b in B}
    w.settle()
    w.advance(5000)
    k, kr = len(w.reqs), len(w.sh.runs)
    w.ctl.chaos_prob, w.ctl.chaos_max_us = r.choice(CHAOS)
    g2 = dict(glob)
    ref, rem = r.random() < .7, r.random() < .7
    if ref:
        g2["refresh_at_least"] = "1h"
    if rem:
        g2["auth_notify_interval"] = "1h"
    w.write_conf(A + B + [O], g2)

    def rl():
        b = w.raw_sock(b"reload:", timeout=60)
        if b != b"ok:":
            raise Violation(["C04", "C20"], "reload answered %r" % b)

    def noise():
        for i in range(r.choice([1, 3])):
            w.raw_sock(b"refresh:withurl other", timeout=60)
            w.raw_sock(b"revoke:other", timeout=60)

    crowd(c, r, [rl, noise] + ([noise] if r.random() < .5 else []), r.choice([.001, .005, .02]))
    w.ctl.chaos_prob = 0
    w.settle(timeout=40)
    names = sorted(a.name for a in A)

    def refr():
        return sorted(q.act for q in w.reqs[k:] if q.grant == "refresh_token")

    def rems():
        return sorted(x.act for x in w.sh.runs[kr:] if x.kind == "AN" and x.act != "other")

    if w.confirm(lambda: refr() != (names if ref else [])):
        c.fail(["C10", "C04", "C31"], "a reload made %s due for a refresh, but refreshed were %s" % (names if ref else "nothing", refr()))
    if w.confirm(lambda: rems() != (sorted(url) if rem else [])):
        c.fail(["C09", "C04", "C31"], "a reload made reminders for %s due, but reminded was of %s" % (sorted(url) if rem else "nothing", rems()))
    c.case(("reload", ref, rem, len(A), len(B)), ref or rem)

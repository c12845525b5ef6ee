"""One thread is slow and all the others are not: what happens meanwhile must neither be lost nor be said too early."""
import threading, time
from . import codec
from .core import scenario
from .scn_alias import SEC
from .world import *

GLOB = {"token_event_cmd": '"TE run"', "refresh_at_least": "100d", "error_notify_cmd": '"EN run"'}


@scenario(["C31", "C04", "C02", "C07", "C18", "C19", "C12", "C13"], racy=True, n=40, nt=1600)
def slow_thread(c):
    """One of the server's long-lived threads (mostly the one that carries out commands) dawdles at every scheduling point, while
    exchanges and refreshes of other accounts end. Everything that ended must be there afterwards, and every event in order."""
    r = c.rng
    w = c.world(verbose=0)
    names = ["l%d" % i for i in range(6)]
    base = {n: w.acct(n) for n in names}
    w.default_policy = lambda q: w.grant(q, 10**7)
    w.start(list(base.values()), dict(GLOB))
    tok, ev, url = {}, {n: [] for n in names}, {}
    for n in names[:3]:
        w.authorise(n)
    for n in names[:3]:
        tok[n] = w.token(n)
        ev[n].append("token_new")
    dumps = [w.raw_sock(b"dump:")]
    dtok = [dict(tok)]
    for rnd in range(7):
        w.default_policy = lambda q: HOLD
        # something in flight for most accounts
        fl = {}
        for n in names:
            if tok.get(n) is None:
                if r.random() < .8:
                    u = w.auth_url(n)
                    w.callback(u, code="c%d" % rnd)
                    fl[n] = "exchange"
            elif r.random() < .7:
                w.raw_sock(("refresh:withurl " + n).encode())
                fl[n] = "refresh"
        w.settle()
        for n in fl:
            if w.confirm(lambda: len(w.held(n)) != 1):
                c.fail(["C11", "C07"], "%s: requests held %s" % (n, w.held(n)))
        held = {n: w.held(n)[0] for n in fl}
        cmd = r.choice(["soft", "soft", "soft", "secure", "revoke", "restore", "restore", "badrestore", "dump", "status", "show", "refresh"])
        x = r.choice(names)
        if cmd in ("secure", "revoke"):
            fl.pop(x, None)
        th = w.threads()
        tid = w.proc.pid if r.random() < .8 else r.choice(th)
        stop = r.choice([0, r.randrange(1, 10), r.randrange(1, 40)])
        if not stop:
            w.ctl.chaos_prob, w.ctl.chaos_max_us = r.choice([(1000, 20000), (1000, 40000), (400, 60000)])
            w.delay_only(tid)
        n_c0 = w.ctl.n_chaos
        if cmd in ("soft", "secure"):
            na = dict(base)
            if cmd == "soft":
                for n in r.sample(names, 2):
                    na[n] = base[n].copy(refresh_retry="%ds" % r.randrange(30, 90))
            else:
                na[x] = SEC[r.choice([k for k in SEC if k != "gone"])](r, base[x])
            base = na
            w.write_conf([base[n] for n in r.sample(names, len(names))], dict(GLOB))
        di = r.randrange(len(dumps))
        line = {"badrestore": b"restore:" + (codec.encode(codec.decode(dumps[di]), version=r.choice([0, 3, 10**9])) if r.random() < .6 else dumps[di][:-1]), "soft": b"reload:", "secure": b"reload:", "revoke": b"revoke:" + x.encode(), "restore": b"restore:" + dumps[di], "dump": b"dump:", "status": b"status:",
                "show": b"showtoken:withouturl " + x.encode(), "refresh": b"refresh:withouturl " + x.encode()}[cmd]
        res = []
        if stop:
            # not just slow, but stopped at one point
            w.gate(tid, stop, r.random() < .8)
        t = threading.Thread(target=lambda: res.append(w.raw_sock(line, timeout=60)), daemon=True)
        t.start()
        end = {}
        # at which of the thread's delays should the others end?
        nc, k, spread = n_c0, r.randrange(24), r.random() < .3
        wait = (lambda: not res and not w.ctl.gate_in) if stop else (lambda: not res and w.ctl.n_chaos < nc + k)
        t0 = time.monotonic()
        for n in r.sample(list(held), len(held)):
            while wait() and time.monotonic() - t0 < 2:
                time.sleep(.0005)
            if spread:
                k += r.choice([0, 0, 1, 2])
            q = held[n]
            good = r.random() < .8
            if good:
                q.release(w.grant(q, 10**7))
                end[n] = q.issued["access"]
            else:
                q.release(J({"error": "invalid_grant"}, r.choice([200, 400]), "x"))
                end[n] = None
            if stop and r.random() < .3:
                w.settle()
        if stop:
            w.settle()
            at = w.ctl.gate_in
            w.ungate()
        t.join(60)
        w.ctl.chaos_prob = 0
        if not res:
            c.fail(["C31", "C23"], "%s got no answer" % line[:60])
        w.settle()
        old = dict(tok)
        alt = {}  # accounts whose fate depends on which came first
        for n in names:
            if n in end and n in fl:
                if fl[n] == "exchange":
                    if end[n]:
                        tok[n] = end[n]
                        ev[n].append("token_new")
                elif end[n]:
                    tok[n] = end[n]
                    ev[n].append("token_refreshed")
                else:
                    tok[n] = None
                    ev[n].append("token_invalidated")
        if cmd == "revoke":
            alt[x] = "revoke"
        if cmd == "secure":
            alt[x] = "secure"
        d = codec.decode(w.raw_sock(b"dump:"))
        have = {n: (d[n][1] or {}).get("access") for n in names}
        evs = {n: [y.event for y in w.runs("TE", n)] for n in names}
        for n in names:
            what = "%s (%s; %s %s; released %s; stopped at %s)" % (n, fl.get(n), line[:40], res[0][:60], n in end and end[n], stop and (stop, at))
            if n in alt:
                # it is gone, whatever came first
                c.check(have[n] is None, ["C02"] if cmd == "revoke" else ["C03", "C31"], "%s: has %s" % (what, have[n]))
                tok[n] = None
                ev[n] = evs[n]
                if cmd == "revoke":
                    c.check(evs[n][-1:] == ["token_revoked"], ["C15", "C02"], "%s: events %s" % (what, evs[n]))
                continue
            if cmd == "restore" and (old.get(n) is None or tok.get(n) is None):
                # an account without a token may be given the dump's, before or after its work ended
                poss = {tok.get(n)}
                if codec.decode(dumps[di])[n][0] == d[n][0] and dtok[di].get(n):
                    if old.get(n) is None:
                        poss.add(dtok[di][n])  # filled first: the exchange is superseded
                        if tok.get(n) is None:
                            poss = {dtok[di][n]}
                    elif tok.get(n) is None:
                        poss.add(dtok[di][n])  # filled after its refresh was refused
                c.check(have[n] in poss, ["C18", "C31"], "%s: has %s, possible: %s" % (what, have[n], poss))
                tok[n] = have[n]
                ev[n] = evs[n]
                continue
            if cmd == "refresh" and n == x and fl.get(n) == "exchange":
                # begins a new request, before or after the exchange ended
                c.check(have[n] in (None, tok.get(n)), ["C31"], "%s: has %s" % (what, have[n]))
                tok[n] = have[n]
            c.check(have[n] == tok.get(n), ["C31", "C04"] if cmd in ("soft", "secure") else ["C31"], "%s: has %s, should have %s" % (what, have[n], tok.get(n)))
            if cmd == "show" and n == x or cmd == "refresh" and n == x:
                ev[n] = evs[n]
                continue
            if w.confirm(lambda: [y.event for y in w.runs("TE", n)] != ev[n]):
                c.fail(["C15", "C31"], "%s: events %s, should be %s" % (what, evs[n], ev[n]))
        want = {"soft": b"ok:", "secure": b"ok:", "revoke": b"ok:", "restore": b"ok:"}.get(cmd)
        c.check(want is None or res[0] == want, ["C28", "C31"], "%s was answered %r" % (line[:40], res[0][:200]))
        c.check(cmd != "badrestore" or res[0].startswith(b"error:"), ["C19", "C31"], "a spoilt dump was answered %r" % res[0][:200])
        if cmd == "dump":
            for n, (_, e) in codec.decode(res[0]).items():
                c.check((e or {}).get("access") in (old.get(n), tok.get(n)), ["C31", "C17"], "dump has %s of %s, which went from %s to %s" % (e, n, old.get(n), tok.get(n)))
        if cmd == "show" and res[0].startswith(b"access_token:"):
            c.check(res[0][13:].decode() in (old.get(x), tok.get(x)), ["C31", "C01"], "show printed %s of %s, which went from %s to %s" % (res[0], x, old.get(x), tok.get(x)))
        if cmd == "refresh":
            for q in w.held(x):
                q.release(w.grant(q, 10**7))
            w.settle()
            tok[x] = w.token(x)
            ev[x] = [y.event for y in w.runs("TE", x)]
        if w.panics():
            c.fail(["C22", "C31"], "panic: %s" % w.panics()[:2])
        c.case((cmd, tuple(sorted(set(fl.values()))), tid == w.proc.pid, stop and (stop, at)), True)
        if r.random() < .5:
            dumps.append(w.raw_sock(b"dump:"))
            dtok.append(dict(tok))
        # exchanges still pending for accounts that lost them are forgotten
        for n in names:
            for q in w.held(n):
                q.release(CLOSE)
        if r.random() < .3:
            # in the end all of it has to be refreshable
            n = r.choice(names)
            if tok.get(n):
                w.default_policy = lambda q: w.grant(q, 10**7)
                w.raw_sock(b"refresh:withouturl " + n.encode())
                w.settle()
                t2 = w.token(n)
                c.check(t2 not in (None, tok[n]), ["C31", "C11"], "%s can't be refreshed any more" % n)
                tok[n] = t2
                ev[n].append("token_refreshed")


@scenario(["C31", "C02", "C03", "C04", "C18", "C28"], racy=True, n=40, nt=1600)
def acked(c):
    """Once a command is acknowledged its effect is there: threads the server starts for itself are slow to do anything."""
    r = c.rng
    w = c.world(verbose=0)
    names = ["k%d" % i for i in range(4)]
    base = {n: w.acct(n) for n in names}
    w.default_policy = lambda q: w.grant(q, 10**7)
    w.start(list(base.values()), dict(GLOB))
    for n in names[:3]:
        w.authorise(n)
    tok = {n: w.token(n) for n in names[:3]}
    tok[names[3]] = None
    dump = w.raw_sock(b"dump:")
    sec0 = {n: base[n].secure() for n in names}
    tok0 = dict(tok)
    w.settle()
    w.delay_late_threads()
    w.ctl.chaos_prob, w.ctl.chaos_max_us = r.choice([(1000, 60000), (600, 100000), (1000, 15000)])
    conf = dict(base)
    for rnd in range(20):
        cmd = r.choice(["revoke", "restore", "gone", "back", "secure", "soft", "bad"])
        n = r.choice(names)
        if cmd == "revoke" and n in conf:
            b = w.raw_sock(b"revoke:" + n.encode())
            c.check(b == b"ok:", ["C28"], "revoke: %r" % b)
            tok[n] = None
        elif cmd == "restore":
            b = w.raw_sock(b"restore:" + dump)
            c.check(b == b"ok:", ["C18"], "restore: %r" % b)
            for m in conf:
                if tok[m] is None and conf[m].secure() == sec0[m]:
                    tok[m] = tok0[m]
        elif cmd in ("gone", "back", "secure", "soft", "bad"):
            n2 = dict(conf)
            if cmd == "gone" and len(conf) > 1:
                n2.pop(n, None)
            elif cmd == "back":
                n2[n] = base[n]
            elif cmd == "secure" and n in conf:
                n2[n] = SEC[r.choice([k for k in SEC if k != "gone"])](r, conf[n])
            elif cmd == "soft":
                n2 = {m: a.copy(refresh_retry="%ds" % r.randrange(20, 90)) for m, a in conf.items()}
            if cmd == "bad":
                w.write_conf(text="account {")
            else:
                w.write_conf(list(n2.values()), dict(GLOB))
            b = w.raw_sock(b"reload:")
            if cmd == "bad":
                c.check(b.startswith(b"error:"), ["C04", "C28"], "reload: %r" % b)
            else:
                c.check(b == b"ok:", ["C04", "C28"], "reload: %r" % b)
                for m in names:
                    if m not in n2 or m not in conf or n2[m].secure() != conf[m].secure():
                        tok[m] = None
                conf = n2
        # at once
        how = r.choice(["dump", "status", "show"])
        what = "right after %s of %s was acknowledged" % (cmd, n)
        ps = ["C31"] + {"revoke": ["C02"], "restore": ["C18"], "gone": ["C03"], "secure": ["C03"], "back": ["C03"], "soft": ["C04"], "bad": ["C04"]}[cmd]
        if how == "dump":
            d = codec.decode(w.raw_sock(b"dump:"))
            have = {m: (e[1] or {}).get("access") for m, e in d.items()}
            c.check(have == {m: tok[m] for m in conf}, ps, "%s: the dump has %s, should have %s" % (what, have, {m: tok[m] for m in conf}))
        elif how == "status":
            st = w.raw_sock(b"status:").decode()
            got = {l.split(":")[0]: "Active" in l for l in st.split(":", 1)[1].splitlines()}
            c.check(got == {m: tok[m] is not None for m in conf}, ps, "%s: status is %r, should be %s" % (what, st, {m: tok[m] for m in conf}))
        else:
            m = r.choice(names)
            b = w.raw_sock(b"showtoken:withouturl " + m.encode())
            if m not in conf:
                c.check(b.startswith(b"error:"), ps, "%s: %s isn't configured, show says %r" % (what, m, b))
            elif tok[m]:
                c.check(b == b"access_token:" + tok[m].encode(), ps, "%s: show %s says %r, its token is %s" % (what, m, b, tok[m]))
            else:
                c.check(b.startswith(b"pending:"), ps, "%s: show %s says %r, it should have no token" % (what, m, b))
        c.case((cmd, how, n in conf))
    w.ctl.chaos_prob = 0
    w.settle()


@scenario(["C31", "C15", "C09", "C10"], racy=True, n=24, nt=900)
def slow_waiter(c):
    """Each of the server's threads in turn dawdles, while things that it may have to be woken for happen in quick succession."""
    r = c.rng
    w = c.world(verbose=0)
    names = ["w%d" % i for i in range(5)]
    w.default_policy = lambda q: HOLD
    w.start([w.acct(n, refresh_before_expiry="1h") for n in names], {"token_event_cmd": '"TE run"', "auth_notify_cmd": '"AN run"', "auth_notify_interval": "100d"})
    w.settle()
    th = w.threads()
    # which threads have to do with what?
    w.ctl.chaos_prob = w.ctl.chaos_atomic = 1000
    w.ctl.chaos_max_us = 1
    busy, points = [], {}
    for tid in th:
        w.delay_only(tid)
        n0 = w.ctl.n_chaos
        w.raw_sock(b"revoke:w0")
        w.settle()
        n1 = w.ctl.n_chaos
        w.raw_sock(b"showtoken:withouturl w0")
        w.settle()
        n2 = w.ctl.n_chaos
        w.raw_sock(b"revoke:w0")
        w.settle()
        busy += [(tid, "event")] * (n1 > n0) + [(tid, "announce")] * (n2 > n1)
        points[tid, "event"], points[tid, "announce"] = n1 - n0, n2 - n1
    w.ctl.chaos_prob = 0
    jobs = [x for x in busy if x[0] != w.proc.pid] * 5 + [(tid, "due") for tid in th]
    for rnd in range(12):
        tid, kind = r.choice(jobs)
        some = r.sample(names, r.choice([2, 2, 3]))
        for n in names:
            w.raw_sock(b"revoke:" + n.encode())
        if kind == "due":
            for n in some:
                w.callback(w.raw_sock(b"showtoken:withurl " + n.encode())[8:].decode(), code="c")
        w.settle()
        for q in w.held():
            if kind != "due" or q.act not in some:
                q.release(CLOSE)
        w.settle()
        ns, na, nt = len(w.reqs), len(w.runs("AN")), len(w.runs("TE"))
        held = {n: w.held(n)[0] for n in some} if kind == "due" else {}
        stop = r.choice([0, r.randrange(1, 7), r.randrange(1, 13), r.randrange(1, 25)])
        if stop:
            # not just slow, but stopped at one point
            w.gate(tid, stop, r.random() < .8)
        else:
            w.ctl.chaos_prob, w.ctl.chaos_max_us = r.choice([(1000, 3000), (1000, 12000), (1000, 30000), (500, 20000)])
            w.ctl.chaos_atomic = r.choice([0, 1000, 1000])
            w.delay_only(tid)
        w.default_policy = lambda q: HOLD
        at = None
        for n in some:
            if kind == "event":
                w.impatient(lambda: w.raw_sock(b"revoke:" + n.encode()), .15)
            elif kind == "announce":
                w.impatient(lambda: w.raw_sock(b"showtoken:withouturl " + n.encode()), .15)
            else:
                held[n].release(w.grant(held[n], 600))
            if stop:
                if at is None or r.random() < .5:
                    at = at or w.gated(.03)
                    w.settle()
                continue
            k = w.ctl.n_chaos + r.randrange(points.get((tid, kind), 5) + 2)
            t0 = time.monotonic()
            while w.ctl.n_chaos < k and time.monotonic() - t0 < (k - w.ctl.n_chaos + 3) * w.ctl.chaos_max_us / 1e6:
                time.sleep(.0002)
            if r.random() < .3:
                time.sleep(r.random() * w.ctl.chaos_max_us / 1e6)
        w.settle()
        w.ungate()
        w.ctl.chaos_prob = 0
        w.settle()
        what = "thread %d of %d %s, %s of %s" % (th.index(tid), len(th), "stopped at %d (%s)" % (stop, at) if stop else "slow", kind, some)
        if kind == "event":
            got = lambda: [x.act for x in w.runs("TE")[nt:]]
            if w.confirm(lambda: got() != some):
                c.fail(["C15", "C31"], "%s: announced %s" % (what, got()))
        elif kind == "announce":
            got = lambda: sorted(x.act for x in w.runs("AN")[na:])
            if w.confirm(lambda: got() != sorted(some)):
                c.fail(["C09", "C31"], "%s: announced %s" % (what, got()))
        else:
            got = lambda: sorted(q.act for q in w.reqs[ns:])
            if w.confirm(lambda: got() != sorted(some)):
                c.fail(["C10", "C31"], "%s: refreshed %s" % (what, got()))
            for q in w.reqs[ns:]:
                q.release(w.grant(q, 10**7))
            w.settle()
        c.case((kind, th.index(tid), len(some), stop and (stop, at)), True)


PLANS = [["revoke"], ["revoke", "show"], ["revoke", "show", "anew"], ["revoke", "show", "anew", "refresh"], ["revoke", "show", "anew", "refresh"],
         ["secure"], ["secure", "show"], ["secure", "show", "anew", "refresh"], ["gone"], ["gone", "back"], ["gone", "back", "show"], ["gone", "back", "show", "anew"],
         ["gone", "back", "show", "anew", "refresh"], ["revoke", "restore"], ["revoke", "restore", "refresh"], ["gone", "back", "restore", "refresh"],
         ["show"], ["dump", "status"], ["soft"], ["soft", "show", "dump"], ["other"], ["other"]]


class Overtake:
    """Commands about account x while some thread that works for it is stopped; and what must hold in the end if they have
    severed x from that work."""

    def __init__(self, c, w, names, base, glob):
        self.c, self.w, self.names, self.base, self.glob = c, w, names, base, glob
        self.x, self.rnd = names[0], 0

    def prepare(self, active):
        """x is active, or has no token; everybody is configured."""
        c, w, x = self.c, self.w, self.x
        self.rnd += 1
        for q in w.held():
            q.release(CLOSE)
        w.settle()
        self.conf = dict(self.base)
        w.default_policy = lambda q: w.grant(q, 10**7)
        w.write_conf(list(self.conf.values()), dict(self.glob))
        c.check(w.raw_sock(b"reload:") == b"ok:", ["C04", "C28"], "reload")
        w.raw_sock(b"revoke:" + x.encode())
        self.tok0 = self.dump = None
        if active:
            w.authorise(x)
            self.tok0 = w.token(x)
            self.rt0 = w.reqs[-1].issued["refresh"]
            c.check(self.tok0 is not None, ["C07"], "authorised, but no token")
            if c.rng.random() < .4:
                self.dump = w.raw_sock(b"dump:")
        w.settle()
        w.default_policy = lambda q: HOLD
        self.nte, self.nen = len(w.runs("TE", x)), len(w.runs("EN", x))

    def arrives(self, n1, what, ps, **field):
        w, t0 = self.w, time.monotonic()
        q = None
        while q is None and time.monotonic() - t0 < 8:
            time.sleep(.0005)
            if time.monotonic() - t0 > .4:
                w.ungate()
            q = next((q for q in w.reqs[n1:] if q.act == self.x and q.form and set(field.items()) <= set(q.form)), None)
        if q is None:
            self.c.fail(ps, what)
        while q.status != "held" and time.monotonic() - t0 < 8:
            time.sleep(.0005)
        return q

    def run(self, plan, what, unsevered):
        """unsevered(op, answer) judges what is said of x while it isn't severed."""
        c, w, x, r = self.c, self.w, self.x, self.c.rng
        # st: None (no token), ("pending", url), ("active", token), ("refreshing", token), "absent"
        self.st, self.sev, self.want, self.ops = ("unknown",), False, [], []
        cmd = lambda *a: w.impatient(lambda: w.raw_sock(*a))
        for op in plan:
            if op == "restore" and self.dump is None:
                break
            self.ops.append(op)
            say = "%s, then %s" % (what, self.ops)
            b = b"ok:"
            if op == "revoke":
                b = cmd(b"revoke:" + x.encode())
                self.st, self.sev = None, True
                self.want.append("token_revoked")
            elif op in ("secure", "gone", "back", "soft"):
                if op == "secure":
                    self.conf[x] = SEC[r.choice([y for y in SEC if y != "gone"])](r, self.base[x])
                    self.st, self.sev = None, True
                elif op == "gone":
                    del self.conf[x]
                    self.st, self.sev = "absent", True
                elif op == "back":
                    self.conf[x] = self.base[x]
                    self.st = None
                else:
                    self.conf = {n: a.copy(refresh_retry="%ds" % r.randrange(30, 90)) for n, a in self.conf.items()}
                w.write_conf([self.conf[n] for n in r.sample(sorted(self.conf), len(self.conf))], dict(self.glob))
                b = cmd(b"reload:")
            elif op == "show":
                s = cmd(b"showtoken:withurl " + x.encode())
                if self.sev:
                    c.check(s.startswith(b"pending:"), ["C02", "C31"], "%s: show says %r" % (say, s[:100]))
                    self.st = ("pending", s[8:].decode())
                else:
                    unsevered(op, s)
            elif op == "anew":
                n1 = len(w.reqs)
                cs = w.impatient(lambda: w.callback(self.st[1], code="d%d" % self.rnd))
                c.check(cs == 200, ["C07"], "%s: the redirect was answered %s" % (say, cs))
                q2 = self.arrives(n1, "%s: the new redirect's code was not sent to the token server" % say, ["C07", "C31"], code="d%d" % self.rnd)
                q2.release(w.grant(q2, 10**7))
                self.st, self.rt = ("active", q2.issued["access"]), q2.issued["refresh"]
                self.want.append("token_new")
                t0 = time.monotonic()
                while time.monotonic() - t0 < 5 and not (codec.decode(cmd(b"dump:"))[x][1] or {}).get("access"):
                    time.sleep(.0005)
                    if time.monotonic() - t0 > .4:
                        w.ungate()
            elif op == "refresh" and self.sev:
                n1 = len(w.reqs)
                cmd(b"refresh:withouturl " + x.encode())
                self.arrives(n1, "%s: no refresh was attempted" % say, ["C11", "C31"], refresh_token=self.rt)
                self.st = ("refreshing", self.st[1])
            elif op == "refresh":
                unsevered(op, cmd(b"refresh:withouturl " + x.encode()))
            elif op == "restore":
                b = cmd(b"restore:" + self.dump)
                self.st, self.rt = ("active", self.tok0), self.rt0
            elif op == "other":
                self.seen = (codec.decode(cmd(b"dump:"))[x][1] or {}).get("access")
                b = cmd(b"revoke:" + self.names[1].encode())
            elif op == "again":
                unsevered(op, w.impatient(lambda: w.callback(self.url0, code="again%d" % self.rnd)))
            else:
                s = cmd(op.encode() + b":")
                c.check(len(s) > 3, ["C28"], "%s: %r" % (op, s))
            c.check(b == b"ok:", ["C28", "C31"], "%s was answered %r" % (say, b))
        w.settle()
        w.ungate()
        w.settle()

    def severed(self, what, ps, old=()):
        """x is in the state that the commands left it in, whatever becomes of its former work."""
        c, w, x, st = self.c, self.w, self.x, self.st
        mine = lambda: [q for q in w.held(x) if q not in old]
        d = codec.decode(w.raw_sock(b"dump:"))
        stl = [l for l in w.raw_sock(b"status:").decode().split(":", 1)[1].splitlines() if l.split(":")[0] == x]
        if st == "absent":
            c.check(x not in d and not stl, ps, "%s: it is in the dump or in the status %s" % (what, stl))
            return
        have = (d[x][1] or {}).get("access")
        tok = st[1] if st and st[0] in ("active", "refreshing") else None
        c.check(have == tok, ps, "%s: its token is %s, should be %s" % (what, have, tok))
        if st is None:
            c.check("pending" not in stl[0] and "Active" not in stl[0], ps, "%s: status %s" % (what, stl))
            return
        if st[0] == "pending":
            s = w.raw_sock(b"showtoken:withurl " + x.encode())
            c.check(s == b"pending:" + st[1].encode(), ps, "%s: the URL was %s, but show says %r" % (what, st[1], s))
            cs = w.callback(st[1], code="e%d" % self.rnd)
            w.settle()
            if w.confirm(lambda: len(mine()) != 1):
                c.fail(ps, "%s: the pending request's redirect (answered %s) led to %s" % (what, cs, mine()))
        else:
            n1 = 1 if st[0] == "refreshing" else 0
            if w.confirm(lambda: len(mine()) != n1):
                c.fail(ps, "%s: requests in flight %s, should be %d" % (what, mine(), n1))
            w.raw_sock(b"refresh:withouturl " + x.encode())
            w.settle()
            if w.confirm(lambda: len(mine()) != 1):
                c.fail(ps + ["C11"], "%s: refreshes in flight after one more `refresh`: %s, should be one" % (what, mine()))
        self.last = q3 = mine()[0]
        q3.release(w.grant(q3, 10**7))
        w.settle()
        if w.confirm(lambda: w.token(x) != q3.issued["access"]):
            c.fail(ps, "%s: the last grant's token %s isn't used: show says %r" % (what, q3.issued["access"], w.show(x, "-u")))
        self.want.append("token_new" if st[0] == "pending" else "token_refreshed")

    def finish(self, what, ps, pre, en):
        c, w, x = self.c, self.w, self.x
        ev = lambda: [y.event for y in w.runs("TE", x)[self.nte:]]
        if w.confirm(lambda: ev() not in [p + self.want for p in pre]):
            c.fail(ps + ["C15"], "%s: events %s, should be %s (maybe after %s)" % (what, ev(), self.want, pre[-1]))
        n = len(w.runs("EN", x)) - self.nen
        c.check(n in en, ps, "%s: error_notify_cmd ran %d times" % (what, n))
        if w.panics():
            c.fail(["C22", "C31"], "panic: %s" % w.panics()[:2])


@scenario(["C13", "C11", "C02", "C03", "C07", "C31", "C15"], racy=True, n=40, nt=1600)
def late_reply(c):
    """The thread that deals with one token reply is stopped somewhere (before or after it holds a Mutex, say), while commands about
    the same account come and are acknowledged; then it goes on. Whatever it was about to do, only the state it was working
    for may be affected."""
    r = c.rng
    w = c.world(verbose=0)
    names = ["r%d" % i for i in range(3)]
    o = Overtake(c, w, names, {n: w.acct(n) for n in names}, GLOB)
    w.start(list(o.base.values()), dict(GLOB))
    x = o.x
    for rnd in range(9):
        kind = r.choice(["refresh", "refresh", "exchange"])
        o.prepare(kind == "refresh")
        th0 = set(w.threads())
        if kind == "refresh":
            w.raw_sock(b"refresh:withouturl " + x.encode())
        else:
            w.callback(w.auth_url(x), code="c%d" % rnd)
        w.settle()
        new = sorted(set(w.threads()) - th0)
        if w.confirm(lambda: len(w.held(x)) != 1):
            c.fail(["C11", "C07"], "%s: requests held %s" % (kind, w.held(x)))
        q = w.held(x)[0]
        if len(new) != 1:
            continue
        reply = r.choice(["grant", "400", "400", "500", "error", "garbage", "noat"] + (["close", "reset", "close", "reset"] if kind == "refresh" else ["grant"]))
        rep = {"grant": lambda: w.grant(q, 10**7), "400": lambda: J({"error": "invalid_grant"}, 400, "Bad"), "500": lambda: J({"error": "oops"}, 500, "Bad"),
               "error": lambda: J({"error": "invalid_grant"}), "garbage": lambda: J("<html>"), "noat": lambda: J({"token_type": "bearer", "expires_in": 100}),
               "close": lambda: CLOSE, "reset": lambda: RESET}[reply]()
        good = reply == "grant"
        bad = not good and reply not in ("close", "reset")
        nte = len(w.runs("TE"))
        k = r.choice([1, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8])
        w.gate(new[0], *r.choice([(k, True)] * 5 + [(2 * k, False)]))
        q.release(rep)
        at = (w.gated(.5, lambda: new[0] not in w.threads()), w.ctl.gate_kind)
        what = "%s of %s was answered %s, its thread stopped at %s %s" % (kind, x, reply, k, at)

        def unsevered(op, s):
            if op == "show" and s.startswith(b"access_token:"):
                c.check(s[13:].decode() in (o.tok0, q.issued and q.issued["access"]), ["C31", "C01"], "%s: show printed %r" % (what, s))
            elif op == "show" and kind == "refresh":
                c.check(bad, ["C31", "C01", "C11"], "%s: show says %r" % (what, s[:100]))

        o.run(r.choice(PLANS), what, unsevered)
        what += ", then %s" % o.ops
        ps = ["C31"] + (["C02"] if "revoke" in o.ops else ["C03"] if o.sev else []) + (["C13"] if bad else []) + (["C07"] if kind == "exchange" else ["C11"])
        if o.sev:
            pre = [[], ["token_new" if kind == "exchange" else "token_refreshed"] if good else ["token_invalidated"] if bad and kind == "refresh" else []]
            o.severed(what, ps)
        else:
            # all of it was harmless
            tok = q.issued["access"] if good else o.tok0 if not bad else None
            o.want = {"exchange": ["token_new"] if good else [], "refresh": ["token_refreshed"] if good else ["token_invalidated"] if bad else []}[kind]
            if w.confirm(lambda: w.token(x) != tok):
                c.fail(ps, "%s: its token should be %s, but show says %r" % (what, tok, w.show(x, "-u")))
            pre = [[]]
            if "other" in o.ops and o.seen != o.tok0 and o.want:
                # its change was there to be seen before another account's was made
                ev = [y.act for y in w.runs("TE")[nte:]]
                c.check(ev.index(x) < ev.index(names[1]), ["C15", "C31"], "%s, which came when %s had %s already: events of %s" % (what, x, o.seen, ev))
        o.finish(what, ps, pre, (0, 1) if kind == "exchange" and bad and o.sev else (1,) if kind == "exchange" and bad else (0,))
        c.case((kind, reply, tuple(o.ops), k, at), o.sev and at[0])


@scenario(["C02", "C03", "C06", "C07", "C11", "C31"], racy=True, n=40, nt=1600)
def late_start(c):
    """The thread that serves a redirect, or that is to make a refresh, is stopped somewhere before it has asked the token server,
    while commands about the same account come and are acknowledged; then it goes on."""
    r = c.rng
    w = c.world(verbose=0)
    names = ["s%d" % i for i in range(3)]
    o = Overtake(c, w, names, {n: w.acct(n) for n in names}, GLOB)
    w.start(list(o.base.values()), dict(GLOB))
    x = o.x
    for rnd in range(9):
        kind = r.choice(["refresh", "redirect", "redirect", "denied"])
        o.prepare(kind == "refresh")
        n0 = len(w.reqs)
        k = r.choice([1, 1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 8])
        how = r.choice([(k, True)] * 4 + [(2 * k, False)])
        st = []
        if kind == "refresh":
            w.gate(None, *how)
            w.raw_sock(b"refresh:withouturl " + x.encode())
            t = None
        else:
            o.url0 = w.auth_url(x)
            w.settle()
            w.gate(None, *how)
            t = threading.Thread(target=lambda: st.append(w.callback(o.url0, code="c%d" % rnd) if kind == "redirect" else w.callback(o.url0, error="access_denied")), daemon=True)
            t.start()
        at = (w.gated(.5, lambda: len(w.held(x)) > 0 or st), w.ctl.gate_kind)
        what = "%s of %s, its thread stopped at %s %s" % (kind, x, how, at)

        def unsevered(op, s):
            if op == "show" and kind == "refresh":
                c.check(s == b"access_token:" + o.tok0.encode(), ["C31", "C01", "C11"], "%s: show says %r" % (what, s[:100]))
            elif op == "show":
                c.check(s.startswith((b"pending:", b"error:")), ["C31", "C01"], "%s: show says %r" % (what, s[:100]))

        # (a restored refresh token is the same as before: whose request is whose?)
        o.run(r.choice(PLANS + [["again"], ["again", "show"], ["again", "revoke"], ["again", "again"]] if kind == "redirect" else
                       PLANS if kind == "denied" else [p for p in PLANS if p[-2:] != ["restore", "refresh"]] + [["refresh"], ["show", "refresh", "refresh"]]), what, unsevered)
        what += ", then %s" % o.ops
        if t:
            t.join(30)
            c.check(st, ["C23", "C31"], "%s: the redirect was never answered" % what)
            what += " (redirect answered %s)" % st
        ps = ["C31"] + (["C02"] if "revoke" in o.ops else ["C03"] if o.sev else []) + (["C11"] if kind == "refresh" else ["C07"])
        if kind == "denied" and not o.sev:
            # the request is off (and a new one is begun by `show`)
            c.check(st == [400], ps, "%s: a refused authorisation should be a 400" % what)
            if w.confirm(lambda: len(w.runs("EN", x)) - o.nen != 1):
                c.fail(["C13", "C31"], "%s: error_notify_cmd ran %d times" % (what, len(w.runs("EN", x)) - o.nen))
            w.callback(o.url0, code="late")
            w.settle()
            c.check(not w.held(x) and w.token(x) is None, ps + ["C06"], "%s: its URL is still of use: %s" % (what, w.held(x)))
            c.case((kind, tuple(o.ops), how, at), at[0])
            continue
        # requests made for what was severed
        old = [q for q in w.reqs[n0:] if q.act == x and (("refresh_token", o.rt0) in q.form if kind == "refresh" else {("code", "c%d" % rnd), ("code", "again%d" % o.rnd)} & set(q.form))]
        # (while a code is being exchanged, another redirect of the same request is accepted; whichever ends first counts)
        c.check(len(old) <= 1 + o.ops.count("again"), ["C06", "C07"] if kind == "redirect" else ["C11"], "%s: it led to %s" % (what, old))
        if o.sev:
            early = r.random() < .5
            fin = lambda: [q.release(r.choice([w.grant(q, 10**7), w.grant(q, 10**7), J({"error": "invalid_grant"}, 400, "x")])) for q in old if q.status == "held"] and w.settle()
            if early:
                fin()
            o.severed(what, ps, old)
            fin()
            if not early and o.st and o.st != "absent":
                d = codec.decode(w.raw_sock(b"dump:"))
                have = (d[x][1] or {}).get("access")
                q3 = o.last
                c.check(have == q3.issued["access"], ps, "%s: in the end its token is %s, should be %s" % (what, have, q3.issued["access"]))
            elif o.st != "absent":
                d = codec.decode(w.raw_sock(b"dump:"))
                have = (d[x][1] or {}).get("access")
                c.check(o.st or have is None, ps, "%s: in the end it has a token: %s" % (what, have))
        else:
            if w.confirm(lambda: len(w.held(x)) != 1 + o.ops.count("again") or len([q for q in w.reqs[n0:] if q.act == x]) != 1 + o.ops.count("again")):
                c.fail(ps, "%s: requests made: %s" % (what, [q for q in w.reqs[n0:] if q.act == x]))
            q, *more = r.sample(w.held(x), 1 + o.ops.count("again"))
            q.release(w.grant(q, 10**7))
            w.settle()
            for q2 in more:
                q2.release(r.choice([w.grant(q2, 10**7), J({"error": "invalid_grant"}, 400, "x")]))
            w.settle()
            o.want = ["token_new" if kind == "redirect" else "token_refreshed"]
            if w.confirm(lambda: w.token(x) != q.issued["access"]):
                c.fail(ps, "%s: its token should be %s, but show says %r" % (what, q.issued["access"], w.show(x, "-u")))
        o.finish(what, ps, [[]], (0, 1) if kind == "denied" else (0,))
        c.case((kind, tuple(o.ops), how, at), o.sev and at[0])


@scenario(["C02", "C03", "C04", "C09", "C10", "C11", "C31"], racy=True, n=40, nt=1600)
def late_waiter(c):
    """One of the server's own threads is stopped on its way to announce or refresh something, while commands about the same
    account come and are acknowledged; then it goes on. What is still wanted is done once, what isn't has no effect."""
    r = c.rng
    w = c.world(verbose=0)
    names = ["v%d" % i for i in range(3)]
    glob = {"token_event_cmd": '"TE run"', "auth_notify_cmd": '"AN run"', "auth_notify_interval": "1h", "error_notify_cmd": '"EN run"', "refresh_at_least": "100d", "refresh_before_expiry": "5m"}
    o = Overtake(c, w, names, {n: w.acct(n) for n in names}, glob)
    w.start(list(o.base.values()), dict(glob))
    w.settle()
    x = o.x
    th = [t for t in w.threads() if t != w.proc.pid]
    nth = lambda t: th.index(t) + 1 if t in th else 0
    for rnd in range(9):
        kind = r.choice(["announce", "remind", "due", "due"])
        o.prepare(False)
        t_exp = None
        if kind == "due":
            q = None
            w.default_policy = lambda q: w.grant(q, 1000)
            w.authorise(x)
            w.settle()
            o.tok0, o.rt0 = w.token(x), w.reqs[-1].issued["refresh"]
            if r.random() < .4:
                o.dump = w.raw_sock(b"dump:")
            w.default_policy = lambda q: HOLD
            o.nte = len(w.runs("TE", x))
        elif kind == "remind":
            u0 = w.raw_sock(b"showtoken:withurl " + x.encode())[8:].decode()
            w.settle()
        n0, na = len(w.reqs), len(w.runs("AN"))
        # mostly, whichever of them is the first to do something
        tid = r.choice([-w.proc.pid] * 4 + th)
        k = r.choice([1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 10, 12])
        how = r.choice([(k, True)] * 3 + [(2 * k, False)])
        w.settle()
        w.gate(tid, *how) if tid > 0 else w.gate(tid, k)
        if kind == "announce":
            u0 = w.impatient(lambda: w.raw_sock(b"showtoken:withurl " + x.encode()))[8:].decode()
        else:
            w.ctl.base += int((701 if kind == "due" else 3601) * NS)
            w._bump()
        at = (w.gated(.06), w.ctl.gate_kind)
        tid = w.ctl.gate_tid
        what = "%s %s, thread %d of %d stopped at %s %s" % (kind, x, nth(tid), len(th) + 1, how, at)

        def unsevered(op, s):
            if op == "show" and kind == "due":
                c.check(s == b"access_token:" + o.tok0.encode(), ["C31", "C01", "C11"], "%s: show says %r" % (what, s[:100]))
            elif op == "show":
                c.check(s == b"pending:" + u0.encode(), ["C31", "C04"], "%s: show says %r, the URL was %s" % (what, s[:200], u0))

        # (of a restored token the expiry might be near)
        again = [["revoke", "show"], ["secure", "show"], ["gone", "back", "show"]] * (3 if kind == "due" else 10)
        o.run(r.choice(again + [p for p in PLANS if p[-2:] != ["restore", "refresh"]] + [["soft"], ["soft", "soft"], ["soft", "show"]] + ([["refresh"]] if kind == "due" else [])), what, unsevered)
        what += ", then %s" % o.ops
        ps = ["C31"] + (["C02"] if "revoke" in o.ops else ["C03"] if o.sev else ["C04"]) + (["C10", "C11"] if kind == "due" else ["C09"])
        ans = lambda u: len([y for y in w.runs("AN")[na:] if y.url == u])
        want = {"announce": 1, "remind": 1}.get(kind)
        if kind != "due":
            if o.sev:
                c.check(ans(u0) <= want, ps, "%s: announced %d times" % (what, ans(u0)))
            elif w.confirm(lambda: ans(u0) != want):
                c.fail(ps, "%s: announced %d times, should be once" % (what, ans(u0)))
            if o.st and o.st[0] == "pending" and w.confirm(lambda: ans(o.st[1]) != 1):
                c.fail(ps, "%s: the new request was announced %d times" % (what, ans(o.st[1])))
        old = [q for q in w.reqs[n0:] if q.act == x and kind == "due" and ("refresh_token", o.rt0) in q.form]
        if o.sev:
            if "restore" in o.ops:
                # it's due again at once
                if kind == "due" and w.confirm(lambda: len(w.held(x)) not in (1, 2)):
                    c.fail(ps, "%s: requests %s" % (what, w.held(x)))
                for q in w.held(x):
                    q.release(w.grant(q, 10**7))
                w.settle()
                c.check(w.token(x) in [q.issued["access"] for q in old], ps, "%s: it was granted %s, but show says %r" % (what, [q.issued for q in old], w.show(x, "-u")))
                c.case((kind, tuple(o.ops), nth(tid), how, at), at[0])
                continue
            c.check(len(old) <= 1, ps, "%s: refreshed %s" % (what, old))
            for q in old:
                if q.status == "held":
                    q.release(r.choice([w.grant(q, 10**7), J({"error": "invalid_grant"}, 400, "x"), CLOSE]))
            w.settle()
            o.severed(what, ps, old)
            o.finish(what, ps, [[]], (0,))
        elif kind == "due":
            if w.confirm(lambda: len(w.held(x)) != 1 or len(old) != 1):
                c.fail(ps, "%s: requests made: %s, should be one" % (what, old))
            q = old[0]
            q.release(w.grant(q, 10**7))
            w.settle()
            o.want = ["token_refreshed"]
            if w.confirm(lambda: w.token(x) != q.issued["access"]):
                c.fail(ps, "%s: its token should be %s, but show says %r" % (what, q.issued["access"], w.show(x, "-u")))
            o.finish(what, ps, [[]], (0,))
        c.case((kind, tuple(o.ops), nth(tid), how, at), at[0])

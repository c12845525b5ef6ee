"""Things that end late or fail unusually: commands overtaken by events, host names that don't resolve, failures nobody is told of but the log."""
from . import codec
from .core import scenario
from .scn_alias import SEC
from .world import *

GLOB = {"token_event_cmd": '"TE run"', "transient_error_if_cmd": '"TR run"', "refresh_at_least": "100d"}


@scenario(["C02", "C03", "C12", "C18", "C04", "C13"], n=32, nt=1200)
def tr_overtaken(c):
    """transient_error_if_cmd is still running when its account is revoked, authorised anew, reconfigured, restored or just shown;
    then it ends, one way or the other. Only the token it was run for may be affected."""
    r = c.rng
    w = c.world(verbose=0)
    names = ["t%d" % i for i in range(6)]
    base = {n: w.acct(n) for n in names}
    retry = r.choice([None, "10s", "100s"])
    R = {None: 40, "10s": 10, "100s": 100}[retry]
    glob = dict(GLOB)
    if retry:
        glob["refresh_retry"] = retry
    w.default_policy = lambda q: w.grant(q, 10**7)
    w.sh.policy = lambda run: "hold" if run.kind == "TR" else 0
    w.start(list(base.values()), glob)
    other = None
    for n in names:
        w.authorise(n)
    dump1 = w.cli("dump", text=False).out
    tok = {n: w.token(n) for n in names}
    orig = dict(tok)
    first = {n: next(q for q in w.reqs if q.act == n).issued for n in names}
    if r.random() < .5:
        # the dump is of other tokens than the ones held now
        for n in names:
            w.cli("revoke", n)
            w.authorise(n)
            tok[n] = w.token(n)
    cur = {n: [q for q in w.reqs if q.act == n][-1].issued for n in names}
    for n in names:
        w.down(w.servers[n], r.choice([111, 101, 113, 110]))
        c.check(w.cli("refresh", n).rc == 0, ["C12"], "refresh")
    w.settle()
    for k in range(5):
        w.advance(R + .2)
    for n in names:
        if w.confirm(lambda: len(w.runs("TR", n)) != 1):
            c.fail(["C12"], "after 6 failures (%d seen) of %s transient_error_if_cmd ran %s" % (w.conn_fails(w.servers[n]), n, w.runs("TR", n)))
    tr = {n: w.runs("TR", n)[0] for n in names}
    t_fail = w.now()
    nev = {n: [x.event for x in w.runs("TE", n)] for n in names}
    ops, now, conf = {}, {}, dict(base)
    for n in names:
        ops[n] = r.choice(["keep", "revoke", "pending", "anew", "secure", "secure-anew", "secure-back", "soft", "gone-back", "refresh", "restore", "keep"])
    up = r.random() < .7
    back = set()
    for n in names:
        o = ops[n]
        if up or o in ("anew", "secure-anew"):
            w.up(w.servers[n])
        if o in ("revoke", "pending", "anew", "restore"):
            c.check(w.cli("revoke", n).rc == 0, ["C02"], "revoke")
            nev[n].append("token_revoked")
            tok[n] = None
        if o in ("secure", "secure-anew", "secure-back"):
            conf[n] = SEC[r.choice([k for k in SEC if k != "gone"])](r, base[n])
            tok[n] = None
        if o == "soft":
            conf[n] = base[n].copy(refresh_before_expiry="91s")
        if o == "gone-back":
            del conf[n]
            tok[n] = None
        if o in ("secure-back", "gone-back"):
            back.add(n)
        if o == "refresh":
            w.cli("refresh", n)
    if conf != base:
        w.write_conf([conf[n] for n in names if n in conf] or [w.acct("zz")], glob)
        c.check(w.cli("reload").rc == 0, ["C04"], "reload")
        if back:
            for n in back:
                conf[n] = base[n]
            w.write_conf([conf[n] for n in names], glob)
            c.check(w.cli("reload").rc == 0, ["C04"], "reload")
    url = {}
    for n in names:
        o = ops[n]
        if o in ("anew", "secure-anew"):
            w.authorise(n)
            tok[n] = w.token(n)
            nev[n].append("token_new")
            c.check(tok[n] is not None and tok[n] != orig[n], ["C07", "C12"], "%s (%s): authorised anew while transient_error_if_cmd runs, but has %s" % (n, o, tok[n]))
    if "restore" in ops.values():
        # fills exactly those without a token
        mine = {n for n in names if tok[n] is None and conf[n].secure() == base[n].secure()}
        x = w.cli("restore", input=dump1)
        c.check(x.rc == 0, ["C18"], "restore: %s" % x)
        for n in mine:
            tok[n] = first[n]["access"]
    for n in names:
        if ops[n] in ("pending",) and tok[n] is None:
            url[n] = w.auth_url(n)
    w.settle()

    def look(why, late=()):
        d = codec.decode(w.raw_sock(b"dump:"))
        for n in names:
            ps = ["C12"] + {"revoke": ["C02"], "pending": ["C02"], "anew": ["C02"], "restore": ["C02", "C18"], "soft": ["C04"]}.get(ops[n], ["C03"] if ops[n] in ("secure", "secure-anew", "secure-back", "gone-back") else [])
            what = "%s (%s while transient_error_if_cmd ran; %s)" % (n, ops[n], why)
            have = (d[n][1] or {}).get("access")
            c.check(have == tok[n], ps, "%s: has %s, should have %s" % (what, have, tok[n]))
            if n not in url or tok[n]:
                c.check(tok[n] is None or w.token(n) == tok[n], ps, "%s: shown %s, should be %s" % (what, w.token(n), tok[n]))
            else:
                c.check(w.auth_url(n) == url[n], ps + ["C09"], "%s: its URL has changed" % what)
            ev = [x.event for x in w.runs("TE", n)]
            c.check(ev == nev[n], ps + ["C15"], "%s: events %s, should be %s" % (what, ev, nev[n]))

    look("still runs")
    if r.random() < .4:
        w.advance(r.choice([1, 5, 30, 170]))
        look("still runs later")
    w.default_policy = lambda q: HOLD
    order = list(names)
    r.shuffle(order)
    mine = lambda n: ops[n] in ("keep", "refresh", "soft")
    for n in order:
        for m in names:
            if tr[m].status == "held" and r.random() < .1:
                w.cli("show", m)
        end = r.choice(["0", "0", "0", "1", "sig"])
        nreq, nc = len([q for q in w.reqs if q.act == n]), w.conn_fails(w.servers[n])
        c.check(tr[n].status == "held", ["C12"], "transient_error_if_cmd of %s (%s) is %s after %.0f s" % (n, ops[n], tr[n].status, w.now() - t_fail))
        if end == "sig":
            tr[n].sig(9)
        else:
            tr[n].finish(int(end))
        w.settle()
        if mine(n):
            if end != "0":
                tok[n] = None
                nev[n].append("token_invalidated")
        c.case((ops[n], end, up, round(w.now() - t_fail) > R))
        look("%s ended with %s" % (n, end))
        if mine(n) and end == "0":
            # refreshing goes on: refresh_retry after the failure, or at once if that is past
            left = t_fail + R - w.now()
            if left > 1.5:
                w.advance(left - 1)
                c.check(len([q for q in w.reqs if q.act == n]) == nreq and w.conn_fails(w.servers[n]) == nc, ["C12", "C10"], "%s was retried early" % n)
                w.advance(1.3)
            elif left > -.1:
                w.advance(left + .3)
            f = lambda: len([q for q in w.reqs if q.act == n]) + w.conn_fails(w.servers[n]) == nreq + nc
            if w.confirm(f):
                c.fail(["C12", "C11"], "%s: transient_error_if_cmd said to go on, but nothing was tried again by %.1f s after the failure (refresh_retry %d)" % (n, w.now() - t_fail, R))
            if up:
                q = [q for q in w.reqs if q.act == n][-1]
                c.check(q.f("refresh_token") == cur[n]["refresh"], ["C12", "C08"], "%s: retried with %s, its refresh token is %s" % (n, q, cur[n]["refresh"]))
                if r.random() < .5:
                    q.release(w.grant(q, 10**7))
                    w.settle()
                    tok[n] = q.issued["access"]
                    nev[n].append("token_refreshed")
                    look("%s refreshed" % n)
                    ops[n] = "done"
    for n in url:
        # the request made meanwhile is good
        w.up(w.servers[n])
        w.default_policy = lambda q: w.grant(q, 10**7)
        if tok[n] is None:
            st = w.callback(url[n], code="late")
            w.settle()
            nev[n].append("token_new")
            tok[n] = [q for q in w.reqs if q.act == n][-1].issued["access"]
            look("%s authorised" % n)


@scenario(["C07", "C12", "C01", "C23"], n=32, nt=1200)
def names(c):
    """The token servers' host names don't resolve for a while: an authorisation waits for them, a refresh is tried again."""
    r = c.rng
    w = c.world(verbose=0)
    A, host = [], {}
    for i in range(4):
        n = "n%d" % i
        ts = w.server_for(n)
        host[n] = "tok%d.example.vp" % i
        A.append(w.acct(n, token_uri="http://%s:%d/%s/token" % (host[n], ts.port, n)))
    R = r.choice([20, 40, 300])
    w.default_policy = lambda q: w.grant(q, 10**7)
    w.start(A, dict(GLOB, error_notify_cmd='"EN run"', refresh_retry="%ds" % R))
    code = lambda: r.choice([-2, -3, -4, -5])
    tries = {}
    for a in A:
        # at each try another kind of failure; from which one on it is up
        tries[a.name] = r.choice([0, 1, 2, 5, 9, 9, 10, 11, 99])
    for a in A:
        if tries[a.name]:
            w.name_down(host[a.name], code())
    w.settle()
    for a in A:
        w.authorise(a.name, code="c-" + a.name)
    t0 = w.now()
    for k in range(12):
        for a in A:
            n = a.name
            qs = [q for q in w.reqs if q.act == n]
            what = "%s (name fails %d times, %.0f s after the redirect)" % (n, tries[n], w.now() - t0)
            done = tries[n] <= min(k, 9)
            lost = not done and k >= 10
            if w.confirm(lambda: len([q for q in w.reqs if q.act == n]) != (1 if done else 0)):
                c.fail(["C07"], "%s: requests %s, %d lookups failed, reports %s" % (what, qs, w.name_fails(host[n]), w.runs("EN", n)))
            c.check(w.name_fails(host[n]) == min(k + 1, tries[n], 10), ["C07"], "%s: %d lookups failed" % (what, w.name_fails(host[n])))
            if lost and w.confirm(lambda: len(w.runs("EN", n)) != 1):
                c.fail(["C07"], "%s: reports %s" % (what, w.runs("EN", n)))
            if not lost:
                c.check(not w.runs("EN", n), ["C07"], "%s: reported %s" % (what, w.runs("EN", n)))
            st = w.cli("status").out.splitlines()
            l = next(x for x in st if x.startswith(n + ":"))
            want = "Active" if done else "No access token" if lost else "pending"
            c.check(want in l, ["C07", "C23"], "%s: status %s, should be %s" % (what, l, want))
            if done:
                c.check(w.token(n) == qs[0].issued["access"], ["C07", "C01"], "%s: shown %s" % (what, w.token(n)))
            c.case((tries[n], k))
        for a in A:
            if tries[a.name] == k + 1:
                w.name_down(host[a.name], 0)
            elif tries[a.name] > k and r.random() < .5:
                w.name_down(host[a.name], code())
        w.advance(6.1)
    # refreshes
    B = [a.name for a in A if tries[a.name] <= 9]
    tok = {n: w.token(n) for n in B}
    h0 = {n: w.name_fails(host[n]) for n in B}
    nr = {n: len([q for q in w.reqs if q.act == n]) for n in B}
    for n in B:
        w.name_down(host[n], code())
        c.check(w.cli("refresh", n).rc == 0, ["C12"], "refresh")
    w.settle()
    for k in range(1, r.choice([2, 4, 8])):
        for n in B:
            if w.confirm(lambda: w.name_fails(host[n]) - h0[n] != k):
                c.fail(["C12"], "%s: attempt %d to refresh was due (refresh_retry %d), lookups failed: %d; status %s, events %s" % (n, k, R, w.name_fails(host[n]) - h0[n], w.cli("status"), w.runs("TE", n)))
            c.check(w.token(n) == tok[n], ["C12", "C01"], "%s: its name doesn't resolve, shown %s instead of %s" % (n, w.token(n), tok[n]))
            c.check(len(w.runs("TR", n)) == k // 6, ["C12"], "%s: %d failures, transient_error_if_cmd ran %s" % (n, k, w.runs("TR", n)))
            c.case(("refresh", k, R))
            if r.random() < .3:
                w.name_down(host[n], code())
        w.advance(R - 1)
        c.check(all(w.name_fails(host[n]) - h0[n] == k for n in B), ["C12"], "retried early")
        w.advance(1.2)
    for n in B:
        w.name_down(host[n], 0)
    w.advance(R + 1)
    for n in B:
        if w.confirm(lambda: len([q for q in w.reqs if q.act == n]) != nr[n] + 1):
            c.fail(["C12"], "%s: its name resolves again, but requests are %s" % (n, w.reqs))
        q = [q for q in w.reqs if q.act == n][-1]
        c.check(w.token(n) == q.issued["access"], ["C12", "C01"], "%s: refreshed, shown %s" % (n, w.token(n)))
        ev = [x.event for x in w.runs("TE", n)]
        c.check(ev == ["token_new", "token_refreshed"], ["C12", "C15"], "%s: events %s" % (n, ev))


@scenario(["C07", "C26", "C23"], n=32, nt=1000)
def logged_errors(c):
    """Without error_notify_cmd a failed authorisation is reported in the log, at every verbosity."""
    r = c.rng
    w = c.world(verbose=r.choice([0, 0, 0, 1, 2, 3]))
    A = [w.acct(n) for n in ("e0", "e1", "é2", "e 3")]
    kind, said = {}, {}

    def pol(q):
        k = kind[q.act]
        if k == "status":
            return ("reply", r.choice([400, 401, 403, 500, 503]), "No", [], said[q.act].encode())
        if k == "oauth":
            return J({"error": said[q.act], "access_token": "AT-never", "expires_in": 9, "token_type": "Bearer"})
        if k == "json":
            said[q.act] = "JSON"
            return ("reply", 200, "OK", [], b"<html>" + b"x" * 20)
        if k == "type":
            said[q.act] = "invalid response"
            return J({"access_token": w.mint(q.act), "expires_in": 9, "token_type": "Basic"})
        return w.grant(q, 10**7)

    w.default_policy = pol
    glob = {"token_event_cmd": '"TE run"', "auth_notify_cmd": '"AN run"', "auth_notify_interval": "300d"}
    later = r.random() < .3
    if later:
        glob["error_notify_cmd"] = '"EN run"'
    w.start(A, glob)
    if later:
        del glob["error_notify_cmd"]
        w.write_conf(A, glob)
        c.check(w.cli("reload").rc == 0, ["C04"], "reload")
    for rnd in range(5):
        a = r.choice(A).name
        if w.token(a):
            w.cli("revoke", a)
        kind[a] = r.choice(["status", "oauth", "json", "type", "denied", "down", "ok"])
        said[a] = "reason-%d-%d" % (rnd, r.randrange(10**9))
        n0 = w.err_text()
        if kind[a] == "down":
            w.down(w.servers[a])
            said[a] = "connect"
        if kind[a] == "denied":
            w.callback(w.auth_url(a), error=said[a])
        else:
            w.authorise(a)
        w.settle()
        if kind[a] == "down":
            for k in range(11):
                if k < 9:
                    c.check(a not in "".join(l for l in w.err_text()[len(n0):].splitlines() if "failed" in l), ["C07"], "reported too early: %s" % w.err_text()[len(n0):])
                w.advance(6.1)
            w.up(w.servers[a])
        new = lambda: [l for l in w.err_text()[len(n0):].splitlines() if "failed" in l and a in l and said[a] in l]
        if kind[a] == "ok":
            c.check("failed" not in w.err_text()[len(n0):], ["C07"], "a successful authorisation is reported as %s" % w.err_text()[len(n0):])
        else:
            if w.confirm(lambda: len(new()) != 1):
                c.fail(["C07"], "the authorisation of %s failed (%s: %s) and without error_notify_cmd the log (verbosity %d) has %r" % (a, kind[a], said[a], w.verbose, w.err_text()[len(n0):]))
        c.check(not w.runs("EN"), ["C07"], "error_notify_cmd isn't configured, but ran: %s" % w.runs("EN"))
        st = next(l for l in w.cli("status").out.splitlines() if l.startswith(a + ":"))
        c.check(("Active" if kind[a] == "ok" else "No access token") in st, ["C07"], "status: %s" % st)
        c.case((kind[a], w.verbose, later))

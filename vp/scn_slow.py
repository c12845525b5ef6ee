"""Everything outside the server hangs at once; the server has to carry on. Time is frozen, so nothing can be waited out: whatever the
server does is done without waiting for any of the stalled parties."""
import json, random, socket, ssl, struct, threading, time
from . import codec
from .core import scenario
from .world import *
from .scn_dump import token_state


class Stalled:
    """Half-made connections to the listeners."""

    def __init__(self, w):
        self.w, self.l = w, []

    def tcp(self, https, data=b""):
        s = socket.create_connection(("127.0.0.1", self.w.ports["https_port" if https else "http_port"]), timeout=20)
        if data:
            s.sendall(data)
        self.l.append(s)
        return s

    def tls(self, data=b""):
        s = self.tcp(True)
        cx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        cx.check_hostname = False
        cx.verify_mode = ssl.CERT_NONE
        self.l.remove(s)
        try:
            s = cx.wrap_socket(s, server_hostname="localhost")
        except (TimeoutError, socket.timeout):
            self.w.settle()
            raise Violation(["C23"], "a TLS handshake is not answered while other connections are stalled")
        if data:
            s.sendall(data)
        self.l.append(s)
        return s

    def random(self, r):
        k = r.choice(["idle", "idle", "part", "nohost", "headers", "tlsidle", "tlsidle", "hello", "tlsdone", "tlspart", "slowrest"])
        if k == "idle":
            self.tcp(False)
        elif k == "part":
            self.tcp(False, b"GET /?sta")
        elif k == "nohost":
            self.tcp(False, b"GET /?state=a&code=b HTTP/1.1\r\n")
        elif k == "headers":
            self.tcp(False, b"GET / HTTP/1.1\r\n" + b"X: y\r\n" * r.randrange(50))
        elif k == "slowrest":
            self.tcp(False, b"GET / HTTP/1.1\r\nHost: localhost\r\n\r")
        elif k == "tlsidle":
            self.tcp(True)
        elif k == "hello":
            self.tcp(True, bytes.fromhex("160301020001") + b"\0" * r.randrange(100))
        elif k == "tlsdone":
            self.tls()
        else:
            self.tls(r.choice([b"G", b"GET / HTTP/1.1\r\n", b"GET / HTTP/1.1\r\nHost: x\r\n"]))
        return k

    def close(self):
        for s in self.l:
            try:
                s.close()
            except OSError:
                pass


def must(w, c, cond, props, msg):
    """Something the server owes without any further time passing."""
    w.settle()
    if not cond() and w.confirm(lambda: not cond()):
        c.fail(props, msg() if callable(msg) else msg)


GLOB = {"token_event_cmd": '"TE run"', "auth_notify_cmd": '"AN run"', "error_notify_cmd": '"EN run"', "transient_error_if_cmd": '"TR run"', "auth_notify_interval": "3m"}


@scenario(["C23", "C31", "C15", "C07", "C09"], n=30, nt=600, limit=200)
def all_hung(c):
    """Every outside party hangs at once: commands are answered, other accounts carry on, time-outs happen."""
    r = c.rng
    w = c.world(verbose=0)
    hung = {k: r.random() < .75 for k in ("AN", "EN", "TE", "TR")}
    w.sh.policy = lambda run: "hold" if hung.get(run.kind) else 0
    hx = [w.acct("hx%d" % i, redirect_uri=r.choice([None, "https://localhost/"])) for i in range(r.choice([1, 3, 8]))]
    hr = [w.acct("hr%d" % i) for i in range(r.choice([1, 3, 8]))]
    hp = [w.acct("hp%d" % i) for i in range(r.choice([1, 2, 6]))]
    he = [w.acct("he%d" % i) for i in range(r.choice([1, 3]))]
    ht = [w.acct("ht%d" % i, refresh_retry="1s") for i in range(r.choice([1, 2]))]
    P = [w.acct("p%d" % i, redirect_uri=r.choice([None, "http://localhost/x", "https://localhost/", "https://localhost/y"])) for i in range(3)]
    w.default_policy = lambda q: HOLD if q.act[:2] in ("hx",) or (q.act[:2] == "hr" and q.grant_type == "refresh_token") else w.grant(q, 10**7)
    Req.grant_type = property(lambda self: self.f("grant_type"))
    glob = dict(GLOB, refresh_at_least="100d")
    A = hx + hr + hp + he + ht + P
    r.shuffle(A)
    w.start(A, glob)
    # --- hang everything
    st = Stalled(w)
    kinds = [st.random(r) for _ in range(r.choice([2, 6, 25]))]
    for a in ht:
        w.authorise(a.name)
        w.down(a.ts, 111)
        for i in range(6):
            w.cli("refresh", a.name)
            w.settle()
    if hung["TR"]:
        c.check(len([x for x in w.sh.runs if x.kind == "TR"]) == len(ht), ["C12"], "six failures each, but transient_error_if_cmd runs are %s" % [x for x in w.sh.runs if x.kind == "TR"])
    for a in hx:
        w.callback(w.auth_url(a.name), code="c")
    for a in hr:
        w.authorise(a.name)
        w.cli("refresh", a.name)
    for a in hp:
        w.auth_url(a.name)
    for a in he:
        w.callback(w.auth_url(a.name), error="denied-" + a.name)
    w.settle()
    must(w, c, lambda: len(w.held()) == len(hx) + len(hr), ["C23", "C07", "C11"], lambda: "stalled requests: expected %d exchanges and %d refreshes to be in flight together, got %s" % (len(hx), len(hr), w.held()))
    must(w, c, lambda: {x.act for x in w.sh.runs if x.kind == "EN"} == {a.name for a in he}, ["C23", "C07"], lambda: "error commands that ran while others hang: %s" % w.runs("EN"))
    pend = {a.name for a in hx + hp}
    must(w, c, lambda: pend <= {x.act for x in w.sh.runs if x.kind == "AN"}, ["C23", "C09"], lambda: "notifications that ran while others hang: %s" % w.runs("AN"))
    st2 = [st.random(r) for _ in range(r.choice([0, 3]))]
    # --- now everything else has to work as if nothing happened
    te0 = len(w.runs("TE"))
    for p in P:
        n = p.name
        ops = ["info", "status", "dump", "restore", "reload", "revokeother"]
        for o in r.sample(ops, 3):
            if o == "info":
                x = w.cli("info")
                c.check(x.rc == 0, ["C23"], "info: %s" % x)
            elif o == "status":
                x = w.cli("status")
                c.check(x.rc == 0 and len(x.out.strip().split("\n")) == len(A), ["C23", "C29"], "status: %s" % x)
            elif o == "dump":
                c.check(len(codec.decode(w.dump().out)) == len(A), ["C23", "C17"], "dump")
            elif o == "restore":
                x = w.cli("restore", input=w.dump().out)
                c.check(x.rc == 0, ["C23"], "restore: %s" % x)
            elif o == "reload":
                x = w.cli("reload")
                c.check(x.rc == 0, ["C23", "C04"], "reload: %s" % x)
            else:
                x = w.cli("revoke", r.choice(he).name)
                c.check(x.rc == 0, ["C23"], "revoke: %s" % x)
        u = w.auth_url(n)
        must(w, c, lambda: [x for x in w.sh.runs if x.kind == "AN" and x.act == n and x.url == u], ["C23", "C09"], "the notification for %s waits for others" % n)
        if r.random() < .3:
            k = len(w.runs("EN"))
            stt = w.callback(u, error="no")
            c.check(stt == 400, ["C23", "C07"], "callback with error answered %s" % stt)
            must(w, c, lambda: len(w.runs("EN")) == k + 1, ["C23", "C07"], "the error notification for %s waits for others" % n)
            u = w.auth_url(n)
        try:
            stt = w.callback(u, code="code-" + n)
        except (TimeoutError, socket.timeout):
            c.fail(["C23", "C07", "C24"], "a browser is not answered while other connections and parties are stalled (%s)" % kinds)
        c.check(stt == 200, ["C23", "C07", "C24"], "callback answered %s" % stt)
        must(w, c, lambda: [q for q in w.reqs if q.act == n], ["C23", "C07"], "the exchange for %s waits for others" % n)
        q = [q for q in w.reqs if q.act == n][-1]
        t = w.token(n)
        c.check(t == q.issued["access"], ["C23", "C07", "C01"], "%s was authorised but show says %s" % (n, t))
        x = w.cli("refresh", n)
        c.check(x.rc == 0, ["C23"], "refresh: %s" % x)
        must(w, c, lambda: [q for q in w.reqs if q.act == n and q.grant_type == "refresh_token"], ["C23", "C10"], "the refresh of %s waits for others" % n)
        q = [q for q in w.reqs if q.act == n][-1]
        t = w.token(n)
        c.check(t == q.issued["access"], ["C23", "C10", "C01"], "%s was refreshed but show says %s" % (n, t))
        if not hung["TE"]:
            must(w, c, lambda: [x.event for x in w.runs("TE", n)] == ["token_new", "token_refreshed"], ["C23", "C15"], lambda: "events of %s: %s" % (n, w.runs("TE", n)))
    if hung["TE"]:
        c.check(len(w.runs("TE")) == 1, ["C15"], "event commands while the first hangs: %s" % w.runs("TE"))
    c.case(("hung", tuple(sorted(hung.items())), len(kinds)), True)
    for k in set(kinds):
        c.case(("stalled connection", k), True)
    # --- scheduled work of others happens on time meanwhile; the stalled are given up after 30 s
    t0 = w.now()
    h = {q.n: q for q in w.held()}
    an0 = len(w.runs("AN"))
    w.advance(20)
    c.check(not [q for q in h.values() if q.eof], ["C23", "C07", "C12"], "a request was abandoned after only 20 s")
    w.advance(11.5)
    if w.confirm(lambda: [q for q in h.values() if not q.eof]):
        c.fail(["C23", "C12", "C07"], "30 s after being sent, these requests have still not been given up: %s" % [q for q in h.values() if not q.eof])
    if hung["TE"]:
        must(w, c, lambda: len(w.runs("TE")) >= 2 and w.runs("TE")[0].status == "killed", ["C15", "C23"], lambda: "31 s after it was started the event command still runs: %s" % w.runs("TE")[:3])
    for q in h.values():
        q.release(RESET)
    w.settle()
    # refreshes can now be started again, and their accounts kept their tokens
    for a in hr[:2]:
        k = len([q for q in w.reqs if q.act == a.name])
        w.cli("refresh", a.name)
        must(w, c, lambda: len([q for q in w.reqs if q.act == a.name]) == k + 1 or not w.alive(), ["C23", "C12"], lambda: "the stalled refresh of %s still occupies it: %s" % (a.name, w.reqs[-3:]))
        q = [q for q in w.reqs if q.act == a.name][-1]
        q.release(w.grant(q, 10**6))
        w.settle()
        c.check(w.token(a.name) == q.issued["access"], ["C23", "C12"], "after a stalled refresh, a good one did not help")
        c.case("stalled refresh given up")
    # an exchange that stalled is tried again with the same code and then succeeds
    for a in hx[:2]:
        if w.confirm(lambda: not w.held(a.name)):
            w.advance(6.5)
        must(w, c, lambda: len([q for q in w.reqs if q.act == a.name]) == 2, ["C23", "C07"], lambda: "the stalled exchange of %s is not tried again: %s" % (a.name, [q for q in w.reqs if q.act == a.name]))
        q1, q2 = [q for q in w.reqs if q.act == a.name]
        c.check(q1.form == q2.form, ["C07", "C08"], "the exchange was retried with other data")
        q2.release(w.grant(q2, 10**6))
        w.settle()
        c.check(w.token(a.name) == q2.issued["access"], ["C23", "C07"], "after a stalled exchange, the retry's result is not used")
        c.case("stalled exchange retried")
    st.close()
    hung.clear()
    for x in w.sh.runs:
        if x.status == "held":
            x.finish(0)
    # every event is delivered in the end
    for i in range(300):
        w.settle()
        if not [x.finish(0) for x in w.sh.runs if x.status == "held"]:
            break
    if w.confirm(lambda: [(x.event) for x in w.runs("TE", P[0].name)] != ["token_new", "token_refreshed"]):
        c.fail(["C15", "C23"], "events of %s after a hang: %s" % (P[0].name, w.runs("TE", P[0].name)))


@scenario(["C23", "C12", "C07"], n=20, nt=400)
def drip(c):
    """Token servers that answer very slowly, a few bytes at a time, never finish, or finish just in time."""
    r = c.rng
    w = c.world(verbose=0)
    w.default_policy = lambda q: HOLD
    A = [w.acct(n) for n in "abcd"]
    w.start(A, {"refresh_at_least": "100d", "refresh_retry": "1d", "error_notify_cmd": '"EN run"'})
    d = codec.decode(w.raw_sock(b"dump:"))
    w.raw_sock(b"restore:" + codec.encode({n: (d[n][0], dict(access="T" + n, obtained=w.real_now(), expiry=w.real_now() + 10**7, refresh="R" + n)) for n in "abc"}))
    plan = {}
    for n in "abcd":
        if n == "d":
            w.callback(w.auth_url("d"), code="c")
        else:
            w.cli("refresh", n)
    w.settle()
    hs = {q.act: q for q in w.held()}
    c.check(set(hs) == set("abcd"), ["C23", "C10"], "requests: %s" % w.reqs)
    body = {}
    for n, q in hs.items():
        at = w.mint(n, "AT")
        b = json.dumps(jbody(at, 10**6, w.mint(n, "RT"))).encode()
        full = b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n" % len(b) + b
        k = r.choice(["late", "intime", "never"])
        plan[n] = (k, at, full, 28 if k == "intime" else 60)
        q.sent = 0
    t0 = w.now()
    while w.now() - t0 < 34:
        for n, (k, at, full, dur) in plan.items():
            q = hs[n]
            tgt = int(len(full) * min(1, (w.now() - t0 + 1) / dur))
            if k == "never":
                tgt = min(tgt, len(full) - 3)
            if tgt > q.sent and not q.eof:
                try:
                    q.conn.sendall(full[q.sent:tgt])
                except OSError:
                    pass
                q.sent = tgt
        w.settle()
        w.advance(min(r.choice([1, 2, 3, 4]), max(.5, 28.5 - (w.now() - t0)) if w.now() - t0 < 28.4 else 2))
    for n, (k, at, full, dur) in plan.items():
        q = hs[n]
        if k == "intime":
            s = w.show(n, "-u")
            c.check(s.out == at + "\n", ["C23", "C12", "C07"], "a slow but complete answer (28 s) to %s was not used: %s" % (q.f("grant_type"), s))
        else:
            if w.confirm(lambda: not q.eof):
                c.fail(["C23", "C12"], "a token server that answers a few bytes at a time keeps %s's %s alive beyond 30 s" % (n, q.f("grant_type")))
            s = w.show(n, "-u")
            if n != "d":
                c.check(s.out == "T" + n + "\n", ["C12", "C23"], "an interrupted refresh cost %s its token: %s" % (n, s))
            else:
                c.check(s.rc == 1, ["C07", "C01"], "show after a stalled exchange: %s" % s)
        q.release(CLOSE)
        c.case(("drip", k, n == "d"))
    w.settle()


@scenario(["C23", "C15", "C09"], n=12, nt=200)
def loud_commands(c):
    """Commands that print a lot do not get stuck on it, and nothing waits for them meanwhile."""
    r = c.rng
    w = c.world(verbose=0)
    A = [w.acct(n) for n in "abc"]
    w.sh.policy = lambda run: "hold"
    w.start(A, dict(GLOB, refresh_at_least="100d"))
    w.down(A[2].ts)
    loud = []

    def shout():
        for x in w.sh.runs:
            if x.status == "held" and x not in loud:
                loud.append(x)
                x.out(r.choice([100, 70000, 300000]))
                x.finish(r.choice([0, 0, 3]))
                t0 = time.monotonic()
                while x.status == "held" and time.monotonic() - t0 < 12:
                    time.sleep(.005)
                w.settle()
                if x.status == "held":
                    c.fail(["C23", "C15" if x.kind == "TE" else "C09"], "%s printed a lot and is now stuck" % x)
                c.case(("loud", x.kind, x.told))

    ua, ub = w.auth_url("a"), w.auth_url("b")
    w.settle()
    shout()
    w.callback(ua, code="x")
    w.callback(ub, error="nope")
    w.settle()
    shout()
    w.cli("revoke", "a")
    w.settle()
    shout()
    w.authorise("a")
    w.settle()
    shout()
    c.check([x.event for x in w.runs("TE", "a")] == ["token_new", "token_revoked", "token_new"], ["C15", "C23"], "events: %s" % w.runs("TE"))
    for i in range(2):
        w.advance(181)
        shout()
    c.check(len(w.runs("AN", "b")) == 1, ["C09"], "b's request failed but it is still announced: %s" % w.runs("AN", "b"))
    c.check(len(w.runs("EN")) == 1, ["C07"], "error notifications %s" % w.runs("EN"))


@scenario(["C23", "C24"], n=12, nt=300, limit=200)
def crowded(c):
    """Very many connections that come to nothing, at once and one after the other: a genuine redirect is understood all the same."""
    r = c.rng
    w = c.world(verbose=0)
    A = [w.acct("ch", redirect_uri="http://localhost/"), w.acct("cs", redirect_uri="https://localhost/")]
    w.default_policy = lambda q: w.grant(q, 10**7)
    w.start(A, {"refresh_at_least": "100d"})
    for rnd in range(3):
        st = Stalled(w)
        n = r.choice([20, 40, 70, 140, 270])
        how = r.choice(["http", "https", "both", "both"])
        same = r.random() < .5
        end = r.choice(["stay", "stay", "fin", "rst", "gone"])
        j = {}
        for i in range(n):
            https = how == "https" or how == "both" and i % 2
            if same:
                st.tcp(https)
            elif not https:
                st.tcp(False, r.choice([b"", b"GET /", b"GET / HTTP/1.1\r\n", b"\r\n\r\n", b"GET / HTTP/1.1\r\n\r\n", b"GET /?state=x&code=y HTTP/1.1\r\nHost: localhost\r\n\r\n"]))
            elif r.random() < .1:
                st.tls(r.choice([b"", b"G", b"GET / HTTP/1.1\r\nHost: x\r\n"]))
            else:
                st.tcp(True, r.choice([b"", b"\x16\x03\x01", b"GET / HTTP/1.1\r\n\r\n", bytes.fromhex("160301020001") + b"\0" * 99]))
            if end != "stay" and i % 7 == 0 or end == "gone":
                s = st.l.pop()
                if end == "rst":
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                s.close()
        w.settle()
        for a in r.sample(A, 2):
            w.raw_sock(b"revoke:" + a.name.encode())
            what = "%d connections (%s, %s, %s), then a redirect to %s" % (n, how, "idle" if same else "all sorts", end, a.redirect_uri)
            try:
                s = w.callback(w.auth_url(a.name), code="c%d" % rnd)
            except (OSError, Inconclusive) as e:
                if not w.alive():
                    raise
                s = repr(e)
            c.check(s == 200, ["C24", "C23"], "%s: answered %s" % (what, s))
            w.settle()
            must(w, c, lambda: w.token(a.name) is not None, ["C24", "C23"], "%s: no token" % what)
        if r.random() < .5:
            st.close()
            w.settle()
        c.case((n, how, same, end), True)
